import sys, os
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for p in (HERE, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sp = '/opt/venv/lib/python3.12/site-packages'
if sp not in sys.path:
    sys.path.append(sp)
sys.setrecursionlimit(20000)
