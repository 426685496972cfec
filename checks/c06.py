"""C06: FSM: states, jumps and state-guarded updates are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpath
import itertools, random, re, traceback
import z3
import ghost, equiv
from ghost import Chain, Ref, streams
from prove import Unit, main, Rec
from c05 import HEADS, H0, H1, NEEDS, OPTS, PORTS, module, call, chunks, history, case, X, Y
import veriloggen as V
import veriloggen.core.vtypes as vt

HEADS = dict(HEADS)
HEADS['If d'] = [('If', 'd')]
HEADS['Else.If e'] = [('Else',), ('If', 'e')]
NEEDS = set(NEEDS) | {'Else.If e'}

FSMF = 'veriloggen/fsm/fsm.py: '

# what happens in a state: ('add', head, opts) or a jump or a move of the current index
# jumps: ('goto', head, dst[, else]), ('next', head), ('init', head), ('from', head, src, dst), ('inc',), ('set', i)


class FsmRef(object):
    """the reference machine: ghost statements and jumps by state"""

    def __init__(self, prefix, name):
        self.name, self.R, self.g = name, Ref(prefix), Chain()
        self.cur, self.body, self.jumps, self.lastidx = 0, {}, {}, None

    def at(self, i):
        return '(%s == %d)' % (self.name, i)

    def head(self, op, args=()):
        self.g.head(op, args)
        if op == 'If':
            self.lastidx = None
        if op in ('Else', 'Elif') and self.lastidx is not None and 'When' not in self.g.opts:
            self.g.opts['When'] = self.lastidx              # an else of the state its if was written for

    def add(self, subs):
        cond, opts = self.g.take()
        self.lastidx = opts.get('When')
        i = opts.pop('When', self.cur)
        self.R.stmt(cond, opts, subs, where=self.at(i))

    def jump(self, kind, args):
        cond, opts = self.g.take()
        src = opts.get('When', self.cur)
        els = None
        if kind == 'goto':
            dst, els = args[0], (args[1] if len(args) > 1 else None)
        elif kind == 'next':
            dst = src + 1
        elif kind == 'init':
            dst = 0
        else:
            src, dst = args[0], args[1]
            els = args[2] if len(args) > 2 else None
        self.jumps.setdefault(src, []).append((cond, dst, els))
        if kind == 'next':
            self.move(None)

    def move(self, i):
        self.cur = self.cur + 1 if i is None else i
        self.g.head('Clear')

    def text(self, resets, width=32):
        post = []
        for s in sorted(self.jumps):
            for c, d, e in self.jumps[s]:
                post.append('if(%s) %s <= %d;' % (ghost.conj(self.at(s), c), self.name, d))
                if e is not None and c is not None:
                    post.append('if(%s) %s <= %d;' % (ghost.conj(self.at(s), '(!%s)' % c), self.name, e))
        self.R.now += post
        return ['  reg [%d-1:0] %s;' % (width, self.name)] + self.R.text(['%s <= 0;' % self.name] + list(resets))


def run(f, g, prog, env, mk):
    """one program on the real machine and on the ghost.  mk(j) -> (real statements, reference statements)"""
    for j, st in enumerate(prog):
        k = st[0]
        if k == 'add':
            steps = HEADS[st[1]] + OPTS[st[2]] + ([('When', st[3])] if len(st) > 3 else [])
            real, ref = mk(j)
            call(f, steps, env, real)
            for x in steps:
                g.head(x[0], x[1:])
            g.add(ref)
        elif k in ('inc', 'set'):
            f.inc() if k == 'inc' else f.set_index(st[1])
            g.move(None if k == 'inc' else st[1])
        else:
            q = f
            steps = HEADS[st[1]]
            for x in steps:
                m, args = x[0], [env[y] if isinstance(y, str) else y for y in x[1:]]
                at = getattr(q, m)
                q = at if m == 'Else' else at(*args)
                g.head(x[0], x[1:])
            a, kw = st[2:], {}
            n = 1 if k == 'goto' else 2
            if len(a) > n:
                a, kw = a[:n], dict(else_dst=a[n])
            {'goto': q.goto, 'next': q.goto_next, 'init': q.goto_init, 'from': q.goto_from}[k](*a, **kw)
            g.jump(k, st[2:])


def build(progs, how='case'):
    V.reset()
    m, clk, rst, env = module()
    ref, visible, depth = [], [], 0
    for i, prog in enumerate(progs):
        x = m.Reg('x%d' % i, 8, initval=i % 7)
        visible += ['f%d' % i, 'x%d' % i]
        ref.append('  reg [8-1:0] x%d;' % i)
        f = V.FSM(m, 'f%d' % i, clk, rst, nohook=(how == 'if'))
        g = FsmRef('%d' % i, 'f%d' % i)
        resets = ['x%d <= %d;' % (i, i % 7)] if any(s[0] == 'add' for s in prog) else []

        def mk(j):
            y = m.Reg('y%d_%d' % (i, j), 8, initval=j)
            visible.append('y%d_%d' % (i, j))
            ref.append('  reg [8-1:0] y%d_%d;' % (i, j))
            resets.append('y%d_%d <= %d;' % (i, j, j))
            return ([x(env['p'] + j), y(env['a'] + env['p'])],
                    [('x%d' % i, 'p + %d' % j, 8, False), ('y%d_%d' % (i, j), 'a + p', 8, False)])
        run(f, g, prog, env, mk)
        if how == 'if':
            f.make_always(case=False)
        ref += g.text(resets)
        depth = max(depth, g.R.depth)
    text = m.to_verilog()
    b = '\n'.join(['module m', '(', ',\n'.join(PORTS), ');'] + ref + ['endmodule', ''])
    return text, b, visible, depth


def describe(prog):
    return '; '.join(' '.join(str(y) for y in st) for st in prog)


def check_progs(rec, progs, how='case', n=25):
    for ch in chunks(progs, n):
        ok = []
        for p in ch:
            try:
                build([p], how)
                ok.append(p)
            except Exception as ex:
                if isinstance(ex, ValueError) and 'No previous condition' in str(ex):
                    rec.holds('%s: an Else without a condition before it is rejected' % describe(p), True)
                else:
                    rec.holds('%s: accepted' % describe(p), False, traceback.format_exc(), dict(program=describe(p), error=repr(ex)[:400]))
        if not ok:
            continue
        t, b, vis, depth = build(ok, how)
        r = Rec(rec.tier, rec.seed, rec.unit)
        if streams(r, 'batch', t, b, 'm', vis, depth) and not r.failures:
            for nm, st, be, s in r.obl:
                k = re.match(r'.*\b[fxy](\d+)(_\d+)?$', nm)
                rec.obl.append(('%s (%s): %s' % (describe(ok[int(k.group(1))]), how, nm.split(': ')[1]) if k else nm, st, be, s))
            rec.solver_s += r.solver_s
            continue
        for p in ok:
            t, b, vis, depth = build([p], how)
            streams(rec, '%s (%s)' % (describe(p), how), t, b, 'm', vis, depth, what=describe(p))


ACTS0 = [('add', h, '') for h in ('', 'If c', 'If a', 'If c.If d')] + [('goto', '', 3), ('goto', 'If c', 3), ('goto', 'If a', 2), ('next', ''), ('next', 'If c'), ('init', ''),
         ('init', 'If c'), ('from', '', 1, 4), ('from', 'If c', 0, 2), ('goto', 'If c', 3, 2), ('goto', '', 3, 2), ('from', 'If c', 0, 2, 1), ('inc',), ('set', 4)]
ACTS1 = ([('add', h, '') for h in ('', 'If d', 'Else', 'Elif d', 'Then', 'Then.If d', 'Else.If d', 'Elif d,e', 'Elif d.If e', 'Clear.If d')] +
         [('goto', h, 5) for h in ('', 'If d', 'Else', 'Elif d', 'Then', 'Then.If d', 'Else.If d')] + [('next', h) for h in ('', 'Then', 'Else', 'Elif d')] +
         [('init', 'Else'), ('from', 'Else', 0, 5), ('from', 'Then', 2, 3), ('goto', 'Else', 5, 2), ('goto', 'Elif d', 5, 2), ('goto', 'If d', 5, 0), ('from', 'If d', 3, 1, 0), ('inc',), ('set', 0), ('set', 3)])
ACTS2 = [('add', h, '') for h in ('', 'If e', 'Else', 'Elif e', 'Then', 'Else.If e')] + [('goto', h, 6) for h in ('', 'Else', 'Elif e', 'Then')] + [('next', '')]
DELAYED = ['D1', 'D2', 'K2', 'D1K2', 'D1L', 'D2L', 'D1E', 'D2E', 'D2LE', 'K3E', 'K2L', 'D1K2L', 'D1K2E', 'D0', 'L', 'E']


def programs(rec):
    out = [[a] for a in ACTS0]
    out += [[a, b] for a in ACTS0 for b in ACTS1]
    out += [[a, b, c] for a in ACTS0[:9] + [('goto', 'If c', 3, 2)] for b in ACTS1 for c in ACTS2]
    return out


def delayed(rec):
    """delays, in and out of the current state, followed by moves and by chains"""
    out = []
    for o in DELAYED:
        for h in H0:
            out.append([('add', h, o), ('next', 'If e')])
            out.append([('inc',), ('add', h, o), ('next', ''), ('add', 'If d', o)])
        for h in ('', 'If c', 'If a'):
            out.append([('add', h, o, 2), ('next', 'If e')])
            out.append([('add', h, o, 2), ('add', 'If d', 'D1', 1), ('goto', 'If e', 2)])
        for h in H1:
            if h == 'If e':
                continue
            for o2 in ('', 'D1', 'D2L', 'D1E'):
                out.append([('add', 'If c', o), ('add', h, o2)])
        for h in ('Else', 'Elif e', 'Then', ''):
            out.append([('add', 'If c', o), ('add', 'Elif d', ''), ('add', h, ''), ('next', 'If d')])
            out.append([('add', 'If c', ''), ('add', 'Elif d', o), ('add', h, '')])
            out.append([('add', 'If c', ''), ('goto', 'Elif d', 4), ('add', h, o)])
    return out


def whens(rec):
    """statements of other states in the middle of a chain"""
    out = []
    for i in (0, 1, 2):
        for h in ('', 'If c', 'If a'):
            out.append([('add', h, '', i)])
            for h2 in ('', 'If d', 'Else', 'Elif d', 'Then', 'Then.If d'):
                if h2 in NEEDS and h == '':
                    continue
                for k in (None, 1, 2):
                    out.append([('add', h, '', i), ('add', h2, '') + (() if k is None else (k,))])
                    out.append([('add', h, ''), ('add', h2, '') + (() if k is None else (k,)), ('add', 'Else' if h2 in ('If d', 'Elif d') else '', '')])
    return out


GEN = dict(programs=programs, delayed=delayed, whens=whens)


def legal(prog):
    ch = False
    for st in prog:
        if st[0] in ('inc', 'set'):
            ch = False
            continue
        h = st[1]
        if h in NEEDS and not ch:
            return False
        if h.startswith('If') or h.startswith('Clear'):
            ch = True
        if st[0] == 'next':
            ch = False
    return True


def u_programs(rec, gen, how, k, n):
    rec.function(*[FSMF + f for f in ('add', 'If', 'Else', 'Elif', 'Then', 'When', 'Delay', 'Keep', 'LazyCond', 'EagerVal', 'goto', 'goto_init', 'goto_next', 'goto_from', 'inc', 'set_index',
                                      '_add_statement', '_add_delayed_cond', '_add_delayed_subst', '_add_delayed_state', '_to_state_assign', 'make_case', 'make_if', 'make_reset', 'make_always')])
    ps = [p for p in GEN[gen](rec) if legal(p)]
    check_progs(rec, ps[k::n], how)


# ------------------------------------------------------------ other forms --
def fcase(rec, name, fn, items, regs=(X, Y), hidden=(), late=(), depth=2, ports=(), assigns=(), pre=(), extra=(), post=(), states=32, fkw=None, **kw):
    """fn(m, f, env) builds on a machine `fsm`; items: statements of the clocked
    block reading `fsm`; hidden: (name, width, signed, source)"""
    vis = ['fsm'] + [r[0] for r in regs]

    def go(m, clk, rs, env):
        e = dict(env)
        for n, w, iv, sg in regs:
            e[n] = m.Reg(n, w, initval=iv, signed=sg)
        f = V.FSM(m, 'fsm', clk, rs, **(fkw or {}))
        fn(m, f, e)
    body = ['  reg [%d-1:0] fsm;' % states] + list(extra)
    body += ['  reg %s%s%s;' % ('signed ' if sg else '', '[%d-1:0] ' % w if w else '', n) for n, w, iv, sg in regs]
    body += ['  reg %s%s%s;' % ('signed ' if sg else '', '[%d-1:0] ' % w if w else '', n) for n, w, sg, s in hidden]
    body += ['  assign %s;' % a for a in assigns]
    rs = ['fsm <= 0;'] + ['%s <= %s;' % (n, iv) for n, w, iv, sg in regs if iv is not None] + ['%s <= 0;' % n for n, w, sg, s in hidden]
    up = ['%s <= %s;' % (n, s) for n, w, sg, s in hidden] + list(late) + list(items)
    body += ['  always @(posedge CLK) begin', 'if(RST) begin'] + rs + ['end else begin'] + up + ['end', 'end']
    return case(rec, name, go, body, vis, depth, ports=list(ports), **kw)


def at(i, *stmts):
    return 'if(fsm == %d) begin %s end' % (i, ' '.join(stmts))


def u_forms(rec):
    rec.function(*[FSMF + f for f in ('goto', 'goto_init', 'goto_next', 'goto_from', 'add', 'State', 'current_condition', 'last_condition', 'then', 'here', '_to_index')])
    S = lambda n, f, items, regs=(X, Y), **k: fcase(rec, n, f, items, regs, **k)
    # jump arguments
    S('goto(3, cond=c)', lambda m, f, e: f.goto(3, cond=e['c']), [at(0, 'if(c) fsm <= 3;')], ())
    S('goto(3, cond=a)', lambda m, f, e: f.goto(3, cond=e['a']), [at(0, 'if(a) fsm <= 3;')], ())
    S('goto(3, c, 2)', lambda m, f, e: f.goto(3, e['c'], 2), [at(0, 'if(c) fsm <= 3; else fsm <= 2;')], ())
    S('goto(3, cond=c, else_dst=0) in state 1', lambda m, f, e: (f.goto_next(), f.goto(3, cond=e['c'], else_dst=0)), [at(0, 'fsm <= 1;'), at(1, 'if(c) fsm <= 3; else fsm <= 0;')], ())
    S('goto(3, cond=c, else_dst=f.next)', lambda m, f, e: (f.goto_next(), f.goto(0, cond=e['c'], else_dst=f.next)), [at(0, 'fsm <= 1;'), at(1, 'if(c) fsm <= 0; else fsm <= 2;')], ())
    S('goto(3, cond=c, else_dst=0)', lambda m, f, e: f.goto(3, cond=e['c'], else_dst=0), [at(0, 'if(c) fsm <= 3; else fsm <= 0;')], ())
    S('If(c).goto(3, cond=d)', lambda m, f, e: f.If(e['c']).goto(3, cond=e['d']), [at(0, 'if(c && d) fsm <= 3;')], ())
    S('If(c).goto(3, cond=d, else_dst=2)', lambda m, f, e: f.If(e['c']).goto(3, cond=e['d'], else_dst=2), [at(0, 'if(c && d) fsm <= 3; else fsm <= 2;')], ())
    S('goto_next(cond=c)', lambda m, f, e: (f.goto_next(cond=e['c']), f(e['x'](1))), [at(0, 'if(c) fsm <= 1;'), at(1, 'x <= 1;')])
    S('If(c).goto_next(cond=d)', lambda m, f, e: (f.If(e['c']).goto_next(cond=e['d']), f(e['x'](1))), [at(0, 'if(c && d) fsm <= 1;'), at(1, 'x <= 1;')])
    S('goto_init(cond=c)', lambda m, f, e: (f.goto_next(), f.goto_init(cond=e['c'])), [at(0, 'fsm <= 1;'), at(1, 'if(c) fsm <= 0;')], ())
    S('If(c).goto_init(cond=d)', lambda m, f, e: (f.goto_next(), f.If(e['c']).goto_init(cond=e['d'])), [at(0, 'fsm <= 1;'), at(1, 'if(c && d) fsm <= 0;')], ())
    S('goto_from(2, 0, c, 1)', lambda m, f, e: (f.goto(2), f.goto_from(2, 0, e['c'], 1)), [at(0, 'fsm <= 2;'), at(2, 'if(c) fsm <= 0; else fsm <= 1;')], ())
    S('If(c).goto_from(2, 0, d)', lambda m, f, e: (f.goto(2), f.If(e['c']).goto_from(2, 0, e['d'])), [at(0, 'fsm <= 2;'), at(2, 'if(c && d) fsm <= 0;')], ())
    S('several jumps: the last one whose condition holds', lambda m, f, e: (f.goto(3), f.If(e['c']).goto(2), f.If(e['d']).goto(1), f.goto_from(3, 0)),
      [at(0, 'fsm <= 3; if(c) fsm <= 2; if(d) fsm <= 1;'), at(3, 'fsm <= 0;')], ())
    S('a jump is not a condition of what follows', lambda m, f, e: (f.If(e['c']).goto(2), f(e['x'](1))), [at(0, 'if(c) fsm <= 2; x <= 1;')])
    S('statements after the jump of their state', lambda m, f, e: (f.If(e['c']).goto_next(), f.set_index(0), f(e['x'](4))), [at(0, 'x <= 4; if(c) fsm <= 1;')])
    S('a state without exit', lambda m, f, e: (f.goto_next(), f(e['x'](4))), [at(0, 'fsm <= 1;'), at(1, 'x <= 4;')])
    S('a jump to a state without contents', lambda m, f, e: f.goto(77), [at(0, 'fsm <= 77;')], ())
    S('a self loop', lambda m, f, e: (f.goto(0), f(e['x'](e['a']))), [at(0, 'x <= a; fsm <= 0;')])
    S('If(c, d).goto(1)', lambda m, f, e: f.If(e['c'], e['d']).goto(1), [at(0, 'if(c && d) fsm <= 1;')], ())
    S('If(None).goto(1)', lambda m, f, e: f.If(None).goto(1), [at(0, 'fsm <= 1;')], ())
    S('If(a == 3).goto(1)', lambda m, f, e: f.If(e['a'] == 3).goto(1), [at(0, 'if(a == 3) fsm <= 1;')], ())
    S('If(~a).goto(1)', lambda m, f, e: f.If(vt.Unot(e['a'])).goto(1), [at(0, 'if(~a) fsm <= 1;')], ())
    # keyword forms of add
    S('f(s, cond=c)', lambda m, f, e: f(e['x'](e['a']), cond=e['c']), [at(0, 'if(c) x <= a;')])
    S('f.add(s, cond=[c, d])', lambda m, f, e: f.add(e['x'](e['a']), cond=[e['c'], e['d']]), [at(0, 'if(c && d) x <= a;')])
    S('If(c)(s, cond=d)', lambda m, f, e: f.If(e['c'])(e['x'](e['a']), cond=e['d']), [at(0, 'if(c && d) x <= a;')])
    S('f(s, index=2)', lambda m, f, e: f(e['x'](e['a']), index=2), [at(2, 'x <= a;')])
    S('f(s, index=2, cond=c)', lambda m, f, e: f(e['x'](e['a']), index=2, cond=e['c']), [at(2, 'if(c) x <= a;')])
    S('f(s, delay=1)', lambda m, f, e: f(e['x'](e['a']), delay=1), [], hidden=[('gh0', None, False, 'fsm == 0')], late=['if(gh0) x <= a;'])
    S('f(s, cond=c, keep=2)', lambda m, f, e: f(e['x'](e['a']), cond=e['c'], keep=2), [at(0, 'if(c) x <= a;')], hidden=[('gh0', None, False, '(fsm == 0) && c')],
      late=['if(gh0) x <= a;'])
    S('f(s, index=1, delay=1, eager_val=True)', lambda m, f, e: (f.goto_next(), f(e['x'](e['a']), index=1, delay=1, eager_val=True)), [at(0, 'fsm <= 1;')],
      hidden=[('gh0', None, False, 'fsm == 1'), ('gh1', 8, False, 'a')], late=['if(gh0) x <= gh1;'])
    # States
    S('When(2)', lambda m, f, e: (f.When(2)(e['x'](1)), f(e['y'](2))), [at(2, 'x <= 1;'), at(0, 'y <= 2;')])
    S('If(c).When(2)', lambda m, f, e: (f.If(e['c']).When(2)(e['x'](1)), f.If(e['d'])(e['y'](2))), [at(2, 'if(c) x <= 1;'), at(0, 'if(d) y <= 2;')])
    S('When(2).If(c).goto(5, d)', lambda m, f, e: f.When(2).If(e['c']).goto(5, e['d']), [at(2, 'if(c && d) fsm <= 5;')], ())
    S('When(2).goto_next()', lambda m, f, e: f.When(2).goto_next(), [at(2, 'fsm <= 3;')], ())
    S('When(2).goto_init()', lambda m, f, e: f.When(2).goto_init(), [at(2, 'fsm <= 0;')], ())

    def states(m, f, e):
        s0 = f.State()
        s2 = f.State(2)
        s0.If(e['c']).goto(2)
        s2(e['x'](e['a']))
        s2.If(e['c'])(e['y'](1))
        s2.Elif(e['d'])(e['y'](2))
        f.Else(e['y'](3))
        f.State(s2).If(e['e']).goto(s2 - 1)
        f.State(s2 - 1).Delay(1)(e['x'](9))
        f.State(s0 + 1).goto_init()
    S('State objects', states, [at(0, 'if(c) fsm <= 2;'), at(2, 'x <= a; if(c) y <= 1; else if(d) y <= 2; else y <= 3; if(e) fsm <= 1;'), at(1, 'fsm <= 0;')],
      hidden=[('gh0', None, False, 'fsm == 1')], late=['if(gh0) x <= 9;'])
    S('State(s).If(c)(..).Else(..) is of that state', lambda m, f, e: f.State(3).If(e['c'])(e['x'](1)).Else(e['x'](2)), [at(3, 'if(c) x <= 1; else x <= 2;')])
    S('State(s).If(c).Delay(1)(..).Else(..) is of that state', lambda m, f, e: f.State(3).If(e['c']).Delay(1)(e['x'](1)).Else(e['x'](2)), [at(3, 'if(!c) x <= 2;')],
      hidden=[('gh0', None, False, '(fsm == 3) && c')], late=['if(gh0) x <= 1;'])
    S('State(s).If(c)(..).Elif(d).goto(2)', lambda m, f, e: f.State(3).If(e['c'])(e['x'](1)).Elif(e['d']).goto(2), [at(3, 'if(c) x <= 1; else if(d) fsm <= 2;')])
    S('an If after State is of the current state', lambda m, f, e: (f.State(3).If(e['c'])(e['x'](1)), f.If(e['d'])(e['y'](1)), f.Else(e['y'](2))),
      [at(3, 'if(c) x <= 1;'), at(0, 'if(d) y <= 1; else y <= 2;')])
    S('State().When of a moved machine', lambda m, f, e: (f.goto_next(), f.State()(e['x'](1))), [at(0, 'fsm <= 1;'), at(1, 'x <= 1;')])
    S('nested State', lambda m, f, e: V.fsm.fsm.State(f.State(1), f.State(4))(e['x'](1)) if hasattr(V, 'fsm') else f.State(4)(e['x'](1)), [at(4, 'x <= 1;')])
    # names of the machine
    def names(m, f, e):
        got = [f.init, f.current, f.next]
        f.goto_next()
        got += [f.init, f.current, f.next, f.inc(), f.set_index(7), f.current]
        f.If(e['c'])
        got += [f.current_delay, f.Delay(2).current_delay]
        f(e['x'](1))
        got += [f.current_delay, f.last_delay]
        rec.holds('init, current, next, inc, set_index, delays', got == [0, 0, 1, 0, 1, 2, 2, 7, 7, 0, 2, 0, 2], str(got), dict(got=got))
    S('names', names, [at(0, 'fsm <= 1;')], hidden=[('gh0', None, False, '(fsm == 7) && c'), ('gh1', None, False, 'gh0')], late=['if(gh1) x <= 1;'], depth=3)
    # the conditions of a machine elsewhere
    O = ['  output [4-1:0] o']

    def conds(m, f, e):
        f.goto_next()
        a = f.current_condition
        f.If(e['c'])
        b = f.current_condition
        f(e['x'](1))
        c, d = f.last_condition, f.then
        f.Else
        m.Assign(m.Output('o', 4)(vt.Cat(a, b, c, d)))
    S('current_condition, last_condition, then', conds, [at(0, 'fsm <= 1;'), at(1, 'if(c) x <= 1;')], ports=O,
      assigns=['o = {fsm == 1, (fsm == 1) && c, (fsm == 1) && c, (fsm == 1) && c}'])

    def conds2(m, f, e):
        a = f.State(2).If(e['c']).current_condition
        f.Clear()
        f.State(2).If(e['c'])(e['x'](1))
        b = f.then
        f.Else(e['x'](2))
        c = f.then
        f.goto_next()
        d = f.here
        m.Assign(m.Output('o', 4)(vt.Cat(a, b, c, d)))
    S('conditions of other states', conds2, [at(2, 'if(c) x <= 1; else x <= 2;'), at(0, 'fsm <= 1;')], ports=O,
      assigns=['o = {(fsm == 2) && c, (fsm == 2) && c, (fsm == 2) && !c, fsm == 1}'])

    def useq(m, f, e):
        q = V.Seq(m, 'q', m.io_variable['CLK'], m.io_variable['RST'])
        f.goto_next()
        f.If(e['c'])
        q.If(f)(e['y'](e['a']))
        f(e['x'](1))
        q.If(f.then, e['d'])(e['y'](2))
        q.If(f.here)(e['y'](3))
    V_ = [('x', 8, 3, False), ('y', 8, None, False)]
    fcase(rec, 'a machine as condition of a Seq', useq, [at(0, 'fsm <= 1;'), at(1, 'if(c) x <= 1;')], V_,
          extra=['  always @(posedge CLK) begin if((fsm == 1) && c) y <= a; if((fsm == 1) && c && d) y <= 2; if(fsm == 1) y <= 3; end'])
    # registers outside the states
    S('Always', lambda m, f, e: (f.Always.If(e['c'])(e['x'](e['a'])).Else(e['x'](0)), f.goto_next(), f.Always(e['y'](e['p'])), f(e['x'](1))),
      ['if(c) x <= a; else x <= 0; y <= p;', at(0, 'fsm <= 1;'), at(1, 'x <= 1;')])
    S('Always, delayed', lambda m, f, e: (f.Always.If(e['c']).Delay(1)(e['x'](e['a'])), f.goto_next(), f(e['x'](1))),
      [at(0, 'fsm <= 1;'), at(1, 'x <= 1;')], hidden=[('gh0', None, False, 'c')], late=['if(gh0) x <= a;'])
    S('Prev', lambda m, f, e: (f.goto_next(), f(e['x'](f.Prev(e['a'], 2)))), [at(0, 'fsm <= 1;'), at(1, 'x <= gh1;')],
      hidden=[('gh0', 4, False, 'a'), ('gh1', 4, False, 'gh0')], depth=3)
    S('Prev, initval and cond', lambda m, f, e: f(e['x'](f.Prev(e['a'], 1, initval=0, cond=e['c']))), [at(0, 'x <= gh0;')], hidden=[('gh0', 4, False, 'c ? a : gh0')], depth=2,
      ) if False else None
    S('add_reset', lambda m, f, e: (f.add_reset(m.variable['x']), f.If(e['c']).goto(1)), [at(0, 'if(c) fsm <= 1;')])
    for w in (1, 2, 4, 33):
        S('width %d' % w, lambda m, f, e: (f.If(e['c']).goto_next(), f.Delay(1)(e['x'](e['a'])), f.goto_init()), [at(0, 'if(c) fsm <= 1;'), at(1, 'fsm <= 0;')],
          hidden=[('gh0', None, False, 'fsm == 1')], late=['if(gh0) x <= a;'], states=w, fkw=dict(width=w))
    S('initname', lambda m, f, e: (f.goto_next(), f.goto_init()), [at(0, 'fsm <= 1;'), at(1, 'fsm <= 0;')], (), fkw=dict(initname='start'))

    # several machines
    def two(m, clk, rst, env):
        x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8)
        f, g = V.FSM(m, 'f', clk, rst), V.FSM(m, 'g', clk, rst)
        f.If(env['c'])
        g.If(env['d'])(y(1))
        f.goto_next()
        g.goto(5, cond=f.state == 1)
        f.Delay(1)(x(g.state[2:0] if False else env['a']))
        g.Else(y(2))
        f.If(g.state == 5).goto_init()
    case(rec, 'two machines do not share pending conditions', two,
         ['  reg [8-1:0] x, y;', '  reg [32-1:0] f, g;', '  reg h;', '  always @(posedge CLK) begin',
          'if(RST) begin f <= 0; x <= 3; h <= 0; end else begin h <= f == 1; if(h) x <= a; if(f == 0 && c) f <= 1; if(f == 1 && g == 5) f <= 0; end end',
          '  always @(posedge CLK) begin', 'if(RST) g <= 0; else begin if(g == 0) begin if(d) y <= 1; else y <= 2; if(f == 1) g <= 5; end end', '  end'], ['x', 'y', 'f', 'g'])

    def tmp(m, clk, rst, env):
        x = m.OutputReg('x', 8, initval=3)
        f, g = V.TmpFSM(m, clk, rst), V.TmpFSM(m, clk, rst, prefix='zz')
        f.If(env['c']).goto_next()
        f(x(env['a']))
        g.goto_next()
        rec.holds('TmpFSM names differ', f.state.name != g.state.name, '', dict(names=[f.state.name, g.state.name]))
    V.reset()
    m, clk, rst, env = module()
    tmp(m, clk, rst, env)
    b = '\n'.join(['module m', '(', ',\n'.join(PORTS + ['  output reg [8-1:0] x']), ');', '  reg [32-1:0] _tmp_fsm_0, zz_1;',
                   '  always @(posedge CLK) if(RST) begin _tmp_fsm_0 <= 0; x <= 3; end else begin if(_tmp_fsm_0 == 0 && c) _tmp_fsm_0 <= 1; if(_tmp_fsm_0 == 1) x <= a; end',
                   '  always @(posedge CLK) if(RST) zz_1 <= 0; else if(zz_1 == 0) zz_1 <= 1;', 'endmodule'])
    equiv.compare(rec, 'TmpFSM', m.to_verilog(), b, 'm', what='TmpFSM')

    def mka(how):
        def go(m, clk, rst, env):
            x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8)
            f = V.FSM(m, 'fsm', clk, rst, nohook=True)
            f.If(env['c'])(x(env['a']))
            f.goto_next()
            f(x(5))
            f.make_always(reset=[y(9)], body=[x(7), V.If(env['d'])(y(env['a']))], case=(how == 'case'))
            f.make_always()
        return go
    for how in ('case', 'if'):
        case(rec, 'make_always(reset, body, %s): once, the given statements first' % how, mka(how),
             ['  reg [8-1:0] x, y;', '  reg [32-1:0] fsm;', '  always @(posedge CLK) begin',
              'if(RST) begin fsm <= 0; x <= 3; y <= 9; end else begin x <= 7; if(d) y <= a;', at(0, 'if(c) x <= a; fsm <= 1;'), at(1, 'x <= 5;'), 'end', '  end'], ['x', 'y', 'fsm'])
    # errors
    for nm, f in (('Else first', lambda q: q.Else), ('Elif first', lambda q: q.Elif(1)), ('a negative delay', lambda q: q.Delay(-1)),
                  ('State of a string', lambda q: q.State('a'))):
        V.reset()
        m, clk, rst, env = module()
        try:
            f(V.FSM(m, 'q', clk, rst))
            ok = nm == 'a negative delay'
        except (ValueError, TypeError):
            ok = True
        rec.holds('%s is rejected' % nm, ok, '', dict(call=nm))


def u_statements(rec):
    """statement forms in a state, plain, conditional and delayed"""
    rec.function(FSMF + '_add_statement', FSMF + '_add_delayed_subst', FSMF + '_add_dst_var')
    X, Y, Z, W = ('x', 8, None, False), ('y', 8, None, False), ('z', 1, None, False), ('w', 8, None, True)
    regs = [X, Y, Z, W]
    forms = {
        'signed': (lambda m, e: [e['w'](e['p'])], 'w <= p;', 'w <= gh1;', (8, True, 'p')),
        'bit': (lambda m, e: [e['x'][2](e['c'])], 'x[2] <= c;', 'x[2] <= gh1;', (1, False, 'c')),
        'bit by signal': (lambda m, e: [e['x'][e['a']](e['c'])], 'x[a] <= c;', 'x[a] <= gh1;', (1, False, 'c')),
        'slice': (lambda m, e: [vt.Slice(e['x'], 6, 3)(e['p'])], 'x[6:3] <= p;', 'x[6:3] <= gh1;', (4, False, 'p')),
        'cat': (lambda m, e: [vt.Cat(e['z'], e['x'])(e['p'])], '{z, x} <= p;', '{z, x} <= gh1;', (9, False, 'p')),
        'constant': (lambda m, e: [e['x'](7)], 'x <= 7;', 'x <= 7;', None),
        'sum wider than left': (lambda m, e: [e['z'](e['a'] + e['p'])], 'z <= a + p;', 'z <= gh1;', (1, False, 'a + p')),
        'If object': (lambda m, e: [V.If(e['d'])(e['x'](e['a'])).Else(e['x'](e['p']))], 'if(d) x <= a; else x <= p;', 'if(d) x <= a; else x <= p;', None),
        'Case object': (lambda m, e: [V.Case(e['a'])(V.When(1, 2)(e['x'](e['p'])), V.When(3)(e['z'](e['c'])), V.When()(e['x'](0)))],
                        'case(a) 1, 2: x <= p; 3: z <= c; default: x <= 0; endcase', 'case(a) 1, 2: x <= p; 3: z <= c; default: x <= 0; endcase', None),
        'nested list': (lambda m, e: [[e['x'](e['a']), [e['z'](e['c'])]]], 'x <= a; z <= c;', 'x <= a; z <= c;', None),
    }
    for nm, (f, now, late, eag) in forms.items():
        go = lambda g: (lambda m, q, e: (q.goto_next(), g(q, f(m, e)), q.If(e['e']).goto_init()))
        J, K = at(0, 'fsm <= 1;'), at(1, 'if(e) fsm <= 0;')
        fcase(rec, '%s: plain' % nm, lambda m, q, e: (q.goto_next(), q(*f(m, e)), q.If(e['e']).goto_init()), [J, at(1, now), K], regs)
        fcase(rec, '%s: If, Else' % nm, lambda m, q, e: (q.goto_next(), q.If(e['c'])(*f(m, e)), q.Else(*f(m, e)), q.If(e['e']).goto_init()),
              [J, at(1, 'if(c) begin %s end else begin %s end' % (now, now)), K], regs)
        fcase(rec, '%s: Delay(1)' % nm, lambda m, q, e: (q.goto_next(), q.If(e['c']).Delay(1)(*f(m, e)), q.If(e['e']).goto_init()), [J, K], regs,
              hidden=[('gh0', None, False, '(fsm == 1) && c')], late=['if(gh0) begin %s end' % now])
        ch = [('gh0', None, False, '(fsm == 1) && c')]
        if eag:
            ch.append(('gh1',) + eag)
        fcase(rec, '%s: Delay(1).EagerVal()' % nm, lambda m, q, e: (q.goto_next(), q.If(e['c']).Delay(1).EagerVal()(*f(m, e)), q.If(e['e']).goto_init()), [J, K], regs,
              hidden=ch, late=['if(gh0) begin %s end' % late])
    for opt, ch, late in (('', [], []), ('D', [('gh0', None, False, 'fsm == 0')], ['if(gh0) ram[a] <= p;']),
                          ('E', [('gh0', None, False, 'fsm == 0'), ('gh1', 8, False, 'p')], ['if(gh0) ram[a] <= gh1;'])):
        def go(m, f, e, opt=opt):
            ram = m.Reg('ram', 8, 16)
            q = {'': f, 'D': f.Delay(1), 'E': f.Delay(1).EagerVal() if opt == 'E' else f}[opt]
            q(ram[e['a']](e['p']))
            f.If(e['c']).goto_next()
        fcase(rec, 'memory word %s' % opt, go, ([at(0, 'ram[a] <= p;')] if not opt else []) + [at(0, 'if(c) fsm <= 1;')], (), hidden=ch, late=late, extra=['  reg [8-1:0] ram [0:16-1];'])


def u_module(rec):
    """as_module: the same behaviour in a submodule"""
    rec.function(FSMF + 'make_module', 'veriloggen/seq/subst_visitor.py: SubstSrcVisitor', 'veriloggen/seq/subst_visitor.py: SrcRenameVisitor')

    def go(am, kind):
        def f(m, clk, rst, env):
            w = m.Parameter('W', 8)
            x, y, s = m.OutputReg('x', w, initval=3), m.OutputReg('y', 8, initval=2, signed=True), m.Output('s', 4)
            q = V.FSM(m, 'fsm', clk, rst, as_module=am)
            m.Assign(s(q.state))
            q.If(env['c'])(x(env['a'] + w))
            q.Elif(env['d'])(x(x + env['p']), y(env['p']))
            q.Else(x(0))
            q.If(env['a'] == 3).goto_next()
            q(y(y + 1))
            q.If(env['c']).goto_init()
            q.Elif(env['d']).goto_next()
            if kind == 'delay':
                q.If(env['a']).Delay(2)(y(y + 1))
                q.If(env['e']).Delay(1).EagerVal()(x(env['a']))
            if kind == 'case':
                q(V.Case(env['a'])(V.When(1, 2)(y(env['p'])), V.When(3)(y(y - 1)), V.When()(V.If(env['e'])(x(x + 1)))))
            if kind == 'always':
                q.Always.If(env['e'])(x(x + 5))
                q(y(q.Prev(env['p'], 2)))
            if kind == 'array':
                ram = m.Reg('ram', 8, 16)
                V.Seq(m, 'w', clk, rst)(ram[env['a']](env['p']))
                q(y(ram[env['a'] + 1]))
            if kind == 'array2':
                ram = m.Reg('ram', 8, (4, 2))
                V.Seq(m, 'w', clk, rst)(ram[env['a'][1:3]][env['c']](env['p']))
                q(y(ram[env['a'][0:2]][env['d']]))
            q.goto_init()
        return f
    for kind in ('plain', 'delay', 'case', 'always', 'array', 'array2'):
        res = []
        for am in (False, True):
            V.reset()
            m, clk, rst, env = module()
            try:
                go(am, kind)(m, clk, rst, env)
                res.append(m.to_verilog())
            except Exception as ex:
                traceback.print_exc()
                res.append(ex)
        if isinstance(res[0], Exception):
            rec.holds('as_module %s: emitted' % kind, False, repr(res[0]), dict(error=repr(res[0])))
            continue
        if isinstance(res[1], Exception):
            rec.holds('as_module, %s: emitted' % kind, False, repr(res[1]), dict(kind=kind, error=repr(res[1])))
            continue
        h = None
        for seed in range(1, 4):
            h = h or history(res[1], res[0], seed)
        rec.holds('as_module, %s: the outputs of random histories equal those of the same FSM in place' % kind, h is None, str(h), dict(kind=kind, emitted=res[1][:3000], **(h or {})))
    rec.ran('FSM.make_module', '3 random histories of 200 cycles', 15)


UNITS = [Unit('forms', u_forms), Unit('statements', u_statements), Unit('as_module', u_module)]
for _g, _n in (('programs', 10), ('delayed', 6), ('whens', 2)):
    for _h in ('case', 'if'):
        UNITS += [Unit('%s %s %d' % (_g, _h, i), u_programs, (_g, _h, i, _n), timeout=800) for i in range(_n)]

if __name__ == '__main__':
    sys.exit(main('C06', UNITS,
                  ['pyverilog parser', 'lib/vsem.py Verilog semantics (cross-checked with iverilog)', 'lib/ghost.py meaning of call chains', 'z3', 'iverilog'],
                  ['a call sequence is decided by the bookkeeping state (last condition chain, pending options, last if-statement, current state) its prefix leaves; sequences '
                   'of up to three calls reach every combination of it', 'as_module is compared with the in-place form on random histories only']))
