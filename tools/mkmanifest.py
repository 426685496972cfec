"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
NA = {}
LEVEL = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        c = 'python3-vt checks/%s.py' % i.lower()
        checks.append(dict(property=i, quick_cmd=c + ' --tier quick', thorough_cmd=c + ' --tier thorough',
                           technique=TECH[i], level=LEVEL.get(i, 'proof'), level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na,
         notes='Contract-based deductive verification; see DESIGN.md. No hooks: contracts are sidecar files in /verif, '
               'the code under /repo is executed unmodified.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
