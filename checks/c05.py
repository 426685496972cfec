"""C05: Seq: guarded register updates happen in exactly the cycles written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vpath
import itertools, random, re, traceback
import z3
import ghost, equiv
from ghost import Chain, Ref, streams
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.seq.seq as seqmod

SEQ = 'veriloggen/seq/seq.py: '

# a head is what precedes the statement: a list of (method, condition names)
H0 = {'': [], 'If c': [('If', 'c')], 'If a': [('If', 'a')], 'If c,d': [('If', 'c', 'd')], 'If c.If d': [('If', 'c'), ('If', 'd')],
      'If e': [('If', 'e')]}
H1 = {'Else': [('Else',)], 'Elif d': [('Elif', 'd')], 'Elif a': [('Elif', 'a')], 'Elif e': [('Elif', 'e')], 'Then': [('Then',)],
      'Then.If d': [('Then',), ('If', 'd')], 'Else.If d': [('Else',), ('If', 'd')], 'Elif d,e': [('Elif', 'd', 'e')], 'Elif d.If e': [('Elif', 'd'), ('If', 'e')],
      'Then.If a': [('Then',), ('If', 'a')], 'Else.Then': [('Else',), ('Then',)], 'Clear.If d': [('Clear',), ('If', 'd')]}
HEADS = dict(H0, **H1)
NEEDS = set(H1) - {'Clear.If d'}
OPTS = {'': [], 'D1': [('Delay', 1)], 'D2': [('Delay', 2)], 'K2': [('Keep', 2)], 'D1K2': [('Delay', 1), ('Keep', 2)], 'D1L': [('Delay', 1), ('LazyCond',)],
        'D2L': [('Delay', 2), ('LazyCond',)], 'D1E': [('Delay', 1), ('EagerVal',)], 'D2E': [('Delay', 2), ('EagerVal',)],
        'K2L': [('Keep', 2), ('LazyCond',)], 'D1K2L': [('Delay', 1), ('Keep', 2), ('LazyCond',)], 'D1K2E': [('Delay', 1), ('Keep', 2), ('EagerVal',)],
        'K3E': [('Keep', 3), ('EagerVal',)], 'D2LE': [('Delay', 2), ('LazyCond',), ('EagerVal',)], 'D0': [('Delay', 0)], 'L': [('LazyCond',)], 'E': [('EagerVal',)]}


def must(prog):
    """calls that may not be rejected: an Else or Elif directly follows a conditional statement"""
    for j, (h, o) in enumerate(prog):
        if h.split('.')[0].split(' ')[0] in ('Else', 'Elif') and prog[j - 1][0].split('.')[0].split(' ')[0] not in ('If', 'Elif', 'Then'):
            return False
    return True


def legal(prog):
    """Else, Elif and Then follow a statement with a condition"""
    ch = False
    for h, o in prog:
        if h in NEEDS and not ch:
            return False
        if h.startswith('Clear') or h.startswith('If'):
            ch = True
        # a statement without condition keeps the chain before it
    return True


def call(q, steps, env, stmts):
    """on the real object"""
    for st in steps:
        m, args = st[0], [env[x] if isinstance(x, str) else x for x in st[1:]]
        at = getattr(q, m)
        q = at if m == 'Else' else at(*args)
    return q(*stmts)


PORTS = ['  input CLK', '  input RST', '  input c', '  input d', '  input e', '  input [4-1:0] a', '  input signed [4-1:0] p']


def module(top='m'):
    m = V.Module(top)
    clk, rst = m.Input('CLK'), m.Input('RST')
    env = dict(c=m.Input('c'), d=m.Input('d'), e=m.Input('e'), a=m.Input('a', 4), p=m.Input('p', 4, signed=True))
    return m, clk, rst, env


def build(progs, as_text=True):
    """-> (emitted text, reference text, visible, depth)"""
    V.reset()
    m, clk, rst, env = module()
    ref, visible, depth = [], [], 0
    for i, prog in enumerate(progs):
        x = m.Reg('x%d' % i, 8, initval=i % 7)
        visible.append('x%d' % i)
        ref.append('  reg [8-1:0] x%d;' % i)
        q = V.Seq(m, 's%d' % i, clk, rst)
        g, R = Chain(), Ref('%d' % i)
        resets = ['x%d <= %d;' % (i, i % 7)]
        for j, (h, o) in enumerate(prog):
            y = m.Reg('y%d_%d' % (i, j), 8, initval=j)
            visible.append('y%d_%d' % (i, j))
            ref.append('  reg [8-1:0] y%d_%d;' % (i, j))
            resets.append('y%d_%d <= %d;' % (i, j, j))
            call(q, HEADS[h] + OPTS[o], env, [x(env['p'] + j), y(env['a'] + env['p'])])
            for st in HEADS[h] + OPTS[o]:
                g.head(st[0], st[1:])
            cond, opts = g.take()
            R.stmt(cond, opts, [('x%d' % i, 'p + %d' % j, 8, False), ('y%d_%d' % (i, j), 'a + p', 8, False)])
        depth = max(depth, R.depth)
        ref += R.text(resets)
    text = m.to_verilog()
    b = '\n'.join(['module m', '(', ',\n'.join(PORTS), ');'] + ref + ['endmodule', ''])
    return text, b, visible, depth


def chunks(l, n):
    for i in range(0, len(l), n):
        yield l[i:i + n]


def describe(prog):
    return '; '.join('%s [%s]' % (h or 'no condition', o) for h, o in prog)


REJ = set()


def check_progs(rec, progs, n=40):
    for ch in chunks(progs, n):
        for p in ch:
            try:
                build([p])
            except Exception as ex:
                REJ.add(repr(p))
                if isinstance(ex, ValueError) and not must(p):
                    rec.holds('%s: an Else without an If before it is rejected' % describe(p), True)
                else:
                    rec.holds('%s: accepted' % describe(p), False, traceback.format_exc(), dict(program=describe(p), error=repr(ex)[:400]))
        ch = [p for p in ch if repr(p) not in REJ]
        if not ch:
            continue
        t, b, vis, depth = build(ch)
        if not quick_equal(rec, ch, t, b, vis, depth):
            for p in ch:
                t, b, vis, depth = build([p])
                streams(rec, describe(p), t, b, 'm', vis, depth, what=describe(p))


def quick_equal(rec, ch, t, b, vis, depth):
    """all programs of a batch in one module; on any failure they are redone one by one"""
    from prove import Rec
    r = Rec(rec.tier, rec.seed, rec.unit)
    ok = streams(r, 'batch', t, b, 'm', vis, depth)
    if ok and not r.failures:
        for nm, st, be, s in r.obl:
            k = nm.split(' ')[-1]
            i = int(k[1:].split('_')[0]) if k[:1] in 'xy' and k[1:].split('_')[0].isdigit() else None
            rec.obl.append((nm if i is None else '%s: %s' % (describe(ch[i]), nm.split(': ')[1]), st, be, s))
        rec.solver_s += r.solver_s
        return True
    return False


def programs(rec):
    out = []
    heads, opts = list(HEADS), list(OPTS)
    for h in heads:
        for o in opts:
            out.append([(h, o)])
    few = ['', 'D1', 'D2L', 'K2', 'D1E']
    for h1 in H0:
        for o1 in opts:
            for h2 in heads:
                for o2 in few:
                    out.append([(h1, o1), (h2, o2)])
    few3 = ['', 'D1']
    for h1 in ('If c', 'If a', ''):
        for o1 in ('', 'D1', 'K2'):
            for h2 in heads:
                for o2 in few3:
                    for h3 in ('', 'If e', 'Else', 'Elif e', 'Then', 'Else.If d'):
                        for o3 in (few3 if rec.thorough else ['', 'D1'] if h3 in ('Else', 'Elif e') else ['']):
                            out.append([(h1, o1), (h2, o2), (h3, o3)])
    four = [[('If c', ''), ('Elif d', o2), ('Elif e', o3), (h, '')] for o2 in ('', 'D1') for o3 in ('', 'D1') for h in ('Else', 'Elif a', '', 'Then')]
    return [p for p in out + four if legal(p)]


def u_programs(rec, k, n):
    rec.function(*[SEQ + f for f in ('add', 'If', 'Else', 'Elif', 'Then', 'Delay', 'Keep', 'LazyCond', 'EagerVal', 'Clear', '_add_statement', '_add_delayed_cond',
                                     '_add_delayed_subst', '_make_cond', 'make_code', 'make_always', 'make_reset')])
    ps = programs(rec)
    check_progs(rec, ps[k::n])



# ------------------------------------------------------------ other forms --
def canon(text, visible, prefix='h'):
    """hidden registers renamed by order of declaration"""
    names = []
    for l in text.split('\n'):
        mt = re.match(r'\s*reg (?:signed )?(?:\[[^\]]*\] )?(\w+);', l)
        if mt and mt.group(1) not in visible:
            names.append(mt.group(1))
    for i, n in enumerate(names):
        text = re.sub(r'\b%s\b' % re.escape(n), '%s%d' % (prefix, i), text)
    return text


def case(rec, name, fn, body, visible, depth=2, ports=None, named=False):
    """fn(m, clk, rst, env) builds on the real objects; body: reference items"""
    V.reset()
    b = '\n'.join(['module m', '(', ',\n'.join(PORTS + list(ports or ())), ');'] + body + ['endmodule', ''])
    m, clk, rst, env = module()
    try:
        fn(m, clk, rst, env)
        t = m.to_verilog()
    except Exception as ex:
        traceback.print_exc()
        t = ex
    if named:
        t = t if isinstance(t, Exception) else canon(t, visible)
        return equiv.compare(rec, name, t, b, 'm', what=name, decls=False)
    return streams(rec, name, t, b, 'm', visible, depth, what=name)


def seqcase(rec, name, fn, subs, regs, chains=(), depth=2, extra=(), rst=True):
    """regs: (name, width, initval or None, signed); subs: statements of the body;
    chains: (hidden, width, signed, source) one-cycle registers"""
    vis = [r[0] for r in regs]

    def go(m, clk, rs, env):
        e = dict(env)
        for n, w, iv, sg in regs:
            e[n] = m.Reg(n, w, initval=iv, signed=sg)
        q = V.Seq(m, 'seq', clk, rs if rst else None)
        fn(m, q, e)
    body = ['  reg %s%s%s;' % ('signed ' if sg else '', '[%d-1:0] ' % w if w else '', n) for n, w, iv, sg in regs]
    body += ['  reg %s%s%s;' % ('signed ' if sg else '', '[%d-1:0] ' % w if w else '', n) for n, w, sg, src in chains]
    body += list(extra)
    rs = ['%s <= %s;' % (n, iv) for n, w, iv, sg in regs if iv is not None] + ['%s <= 0;' % n for n, w, sg, s in chains]
    up = ['%s <= %s;' % (n, s) for n, w, sg, s in chains] + list(subs)
    if rst and rs:
        body += ['  always @(posedge CLK) begin', 'if(RST) begin'] + rs + ['end else begin'] + up + ['end', 'end']
    else:
        body += ['  always @(posedge CLK) begin'] + up + ['end']
    return case(rec, name, go, body, vis, depth)


X = ('x', 8, 3, False)
Y = ('y', 8, None, False)
Z = ('z', 1, 1, False)
H = ('gh0', None, False)


def u_forms(rec):
    rec.function(SEQ + 'add', SEQ + 'make_condition', SEQ + '_get_manager_cond', SEQ + 'If', SEQ + 'current_condition', SEQ + 'last_condition', SEQ + 'then')
    S = lambda n, f, subs, regs=(X, Y), **k: seqcase(rec, n, f, subs, regs, **k)
    # keyword forms of add
    S('add(s, cond=c)', lambda m, q, e: q.add(e['x'](e['a']), cond=e['c']), ['if(c) x <= a;'])
    S('q(s, cond=c)', lambda m, q, e: q(e['x'](e['a']), cond=e['c']), ['if(c) x <= a;'])
    S('q(s, cond=[c, d])', lambda m, q, e: q(e['x'](e['a']), cond=[e['c'], e['d']]), ['if(c && d) x <= a;'])
    S('q(s, cond=(c, a))', lambda m, q, e: q(e['x'](e['a']), cond=(e['c'], e['a'])), ['if(c && a) x <= a;'])
    S('If(c).add(s, cond=d)', lambda m, q, e: q.If(e['c']).add(e['x'](e['a']), cond=e['d']), ['if(c && d) x <= a;'])
    S('If(c)(s, cond=[d, e])', lambda m, q, e: q.If(e['c'])(e['x'](e['a']), cond=[e['d'], e['e']]), ['if(c && d && e) x <= a;'])
    S('q(s, delay=1)', lambda m, q, e: q(e['x'](e['a']), delay=1), ['if(gh0) x <= a;'], chains=[('gh0', None, False, '1')])
    S('q(s, cond=a, delay=1)', lambda m, q, e: q(e['x'](e['a']), cond=e['a'], delay=1), ['if(gh0) x <= a;'], chains=[('gh0', None, False, 'a != 0')])
    S('If(c)(s, cond=d, delay=1)', lambda m, q, e: q.If(e['c'])(e['x'](e['a']), cond=e['d'], delay=1), ['if(gh0) x <= a;'], chains=[('gh0', None, False, 'c && d')])
    S('If(c).Delay(1)(s, cond=d)', lambda m, q, e: q.If(e['c']).Delay(1)(e['x'](e['a']), cond=e['d']), ['if(gh0) x <= a;'], chains=[('gh0', None, False, 'c && d')])
    S('If(c)(s, keep=2)', lambda m, q, e: q.If(e['c'])(e['x'](e['a']), keep=2), ['if(gh0) x <= a;', 'if(c) x <= a;'], chains=[('gh0', None, False, 'c')])
    S('If(c)(s, delay=1, eager_val=True)', lambda m, q, e: q.If(e['c'])(e['x'](e['a'] + e['p']), delay=1, eager_val=True), ['if(gh0) x <= gh1;'],
      chains=[('gh0', None, False, 'c'), ('gh1', 8, False, 'a + p')])
    S('If(c)(s, delay=1, lazy_cond=True)', lambda m, q, e: q.If(e['c'])(e['x'](e['a']), delay=1, lazy_cond=True), ['if(gh0 && c) x <= a;'],
      chains=[('gh0', None, False, '1')])
    S('add(s, cond=c) then Else', lambda m, q, e: (q.add(e['x'](e['a']), cond=e['c']), q.If(e['d'])(e['y'](1)), q.Else(e['y'](2))),
      ['if(c) x <= a;', 'if(d) y <= 1; else y <= 2;'])
    S('Delay(0), LazyCond(False), EagerVal(False)', lambda m, q, e: q.If(e['c']).Delay(0).LazyCond(False).EagerVal(False)(e['x'](e['a'])), ['if(c) x <= a;'])
    S('Delay(1).EagerVal(False)', lambda m, q, e: q.If(e['c']).Delay(1).EagerVal(False)(e['x'](e['a'])), ['if(gh0) x <= a;'], chains=[('gh0', None, False, 'c')])
    S('Keep(1)', lambda m, q, e: q.If(e['c']).Keep(1)(e['x'](e['a'])), ['if(c) x <= a;'])
    S('Keep(0)', lambda m, q, e: (q.If(e['c']).Keep(0)(e['x'](e['a'])), q(e['x'](e['p']))), ['x <= p;'])
    # condition forms
    S('If(None)', lambda m, q, e: q.If(None)(e['x'](e['a'])), ['x <= a;'])
    S('If()', lambda m, q, e: q.If()(e['x'](e['a'])), ['x <= a;'])
    S('If(None, c)', lambda m, q, e: q.If(None, e['c'])(e['x'](e['a'])), ['if(c) x <= a;'])
    S('If(c, None, d)', lambda m, q, e: q.If(e['c'], None, e['d'])(e['x'](e['a'])), ['if(c && d) x <= a;'])
    S('If([c, d], e)', lambda m, q, e: q.If([e['c'], e['d']], e['e'])(e['x'](e['a'])), ['if(c && d && e) x <= a;'])
    S('If(1), If(0)', lambda m, q, e: (q.If(1)(e['x'](e['a'])), q.If(0)(e['y'](e['a']))), ['x <= a;'])
    S('If(True), If(False)', lambda m, q, e: (q.If(True)(e['x'](e['a'])), q.If(False)(e['y'](e['a']))), ['x <= a;'])
    S('If(0).Delay(1)', lambda m, q, e: q.If(0).Delay(1)(e['x'](e['a'])), [])
    S('If(2).Delay(1)', lambda m, q, e: q.If(2).Delay(1)(e['x'](e['a'])), ['if(gh0) x <= a;'], chains=[('gh0', None, False, '1')])
    S('If(a > 2).Delay(2)', lambda m, q, e: q.If(e['a'] > 2).Delay(2)(e['x'](e['a'])), ['if(gh1) x <= a;'], depth=3,
      chains=[('gh0', None, False, 'a > 2'), ('gh1', None, False, 'gh0')])
    for nm, f, tx in (('c & d', lambda e: e['c'] & e['d'], 'c & d'), ('~c', lambda e: vt.Unot(e['c']), '~c'), ('a & p', lambda e: e['a'] & e['p'], '(a & p) ? 1 : 0'),
                      ('~a', lambda e: vt.Unot(e['a']), '(!(!(~a)))'), ('a + p', lambda e: e['a'] + e['p'], '(!(!(a + p)))'), ('a[2]', lambda e: e['a'][2], 'a[2]'),
                      ('a[3:1]', lambda e: vt.Slice(e['a'], 3, 1), '(a[3:1] ? 1 : 0)'), ('{c,d}', lambda e: vt.Cat(e['c'], e['d']), '({c,d} ? 1 : 0)'),
                      ('|a', lambda e: vt.Uor(e['a']), '|a'), ('c ^ a', lambda e: e['c'] ^ e['a'], '((c ^ a) ? 1 : 0)'), ('Mux', lambda e: vt.Mux(e['c'], e['a'], e['p']), '((c ? a : p) ? 1 : 0)'),
                      ('-c', lambda e: vt.Uminus(e['c']), '(!(!(-c)))'), ('a << 1', lambda e: e['a'] << 1, '((a << 1) ? 1 : 0)'), ('p', lambda e: e['p'], '(p ? 1 : 0)')):
        S('If(%s).Delay(1)' % nm, lambda m, q, e, f=f: q.If(f(e)).Delay(1)(e['x'](e['a'])), ['if(gh0) x <= a;'], chains=[('gh0', None, False, tx)])
        S('If(%s)' % nm, lambda m, q, e, f=f: (q.If(f(e))(e['x'](e['a'])), q.Else(e['y'](e['a']))), ['if(%s) x <= a; else y <= a;' % tx])
    def wd(m, clk, rst, env):
        q = V.Seq(m, 'seq', clk, rst)
        w, v = m.Localparam('W', 1), m.Localparam('Q', 3)
        r, t, x, y = m.Reg('r', w), m.Reg('t', v), m.Reg('x', 8), m.Reg('y', 8)
        q(r(env['a']), t(env['a']))
        q.If(r).Delay(1)(x(env['a']))
        q.If(t).Delay(1)(y(env['a']))
    case(rec, 'conditions of parameterised widths, delayed', wd,
         ['  localparam W = 1, Q = 3;', '  reg [W-1:0] r;', '  reg [Q-1:0] t;', '  reg [8-1:0] x, y;', '  reg h0, h1;', '  always @(posedge CLK)',
          "if(RST) begin h0 <= 0; h1 <= 0; end else begin h0 <= r; h1 <= t != 0; if(h0) x <= a; if(h1) y <= a; r <= a; t <= a; end"], ['r', 't', 'x', 'y'])
    # another object as the condition
    def other(m, q, e):
        q2 = V.Seq(m, 'other', e_clk(m), m.io_variable['RST'], nohook=True)
        q2.If(e['c'])
        q.If(q2, e['d'])(e['x'](e['a']))
    S('a Seq object as condition', other, ['if(c && d) x <= a;'])

    def other2(m, q, e):
        q2 = V.Seq(m, 'other', e_clk(m), m.io_variable['RST'], nohook=True)
        q.If(q2)(e['x'](e['a']))
    S('a Seq object without pending condition as condition', other2, ['x <= a;'])

    def conds(m, q, e):
        q.If(e['c'])
        cc = q.current_condition
        q(e['x'](1))
        lc, th = q.last_condition, q.then
        q.Else(e['x'](2))
        el = q.last_condition
        m.Assign(m.Output('o', 4)(vt.Cat(cc, lc, th, el)))
    case(rec, 'current_condition, last_condition, then', lambda m, clk, rst, env: conds(m, V.Seq(m, 'seq', clk, rst), dict(env, x=m.Reg('x', 8, initval=3))),
         ['  reg [8-1:0] x;', '  assign o = {c, c, c, !c};', '  always @(posedge CLK) begin', 'if(RST) x <= 3; else if(c) x <= 1; else x <= 2;', '  end'], ['x'],
         ports=['  output [4-1:0] o'])

    def delays(m, q, e):
        a = [q.current_delay, q.last_delay]
        q.If(e['c']).Delay(2)
        a.append(q.current_delay)
        q(e['x'](1))
        a += [q.current_delay, q.last_delay]
        rec.holds('current_delay and last_delay', a == [0, 0, 2, 0, 2], str(a), dict(got=a))
    S('delays', delays, ['if(gh1) x <= 1;'], chains=[('gh0', None, False, 'c'), ('gh1', None, False, 'gh0')], depth=3)
    for bad in ('c', 1.5, object()):
        try:
            make = seqmod.make_condition(bad)
            ok = False
        except TypeError:
            ok = True
        rec.holds('make_condition rejects %s' % type(bad).__name__, ok, '', dict(value=repr(bad)))


def e_clk(m):
    return m.io_variable['CLK']


def u_statements(rec):
    """statement forms under conditions and delays"""
    rec.function(SEQ + '_add_statement', SEQ + '_add_delayed_subst', SEQ + '_add_dst_var', 'veriloggen/seq/subst_visitor.py: SubstDstVisitor')
    X, Y, Z, W = ('x', 8, None, False), ('y', 8, None, False), ('z', 1, None, False), ('w', 8, None, True)
    regs = [X, Y, Z, W]
    forms = {
        'whole': (lambda m, e: [e['x'](e['a'])], ['x <= a;'], ['x <= gh1;'], (8, False, 'a')),
        'signed': (lambda m, e: [e['w'](e['p'])], ['w <= p;'], ['w <= gh1;'], (8, True, 'p')),
        'bit': (lambda m, e: [e['x'][2](e['c'])], ['x[2] <= c;'], ['x[2] <= gh1;'], (1, False, 'c')),
        'bit by signal': (lambda m, e: [e['x'][e['a']](e['c'])], ['x[a] <= c;'], ['x[a] <= gh1;'], (1, False, 'c')),
        'slice': (lambda m, e: [vt.Slice(e['x'], 6, 3)(e['p'])], ['x[6:3] <= p;'], ['x[6:3] <= gh1;'], (4, False, 'p')),
        'cat': (lambda m, e: [vt.Cat(e['z'], e['x'])(e['p'])], ['{z, x} <= p;'], ['{z, x} <= gh1;'], (9, False, 'p')),
        'constant': (lambda m, e: [e['x'](7)], ['x <= 7;'], ['x <= 7;'], None),
        'Int': (lambda m, e: [e['x'](vt.Int(7, width=4))], ["x <= 4'd7;"], ["x <= 4'd7;"], None),
        'sum wider than left': (lambda m, e: [e['z'](e['a'] + e['p'])], ['z <= a + p;'], ['z <= gh1;'], (1, False, 'a + p')),
        'If object': (lambda m, e: [V.If(e['d'])(e['x'](e['a'])).Else(e['x'](e['p']))], ['if(d) x <= a; else x <= p;'], ['if(d) x <= a; else x <= p;'], None),
        'Case object': (lambda m, e: [V.Case(e['a'])(V.When(1, 2)(e['x'](e['p'])), V.When(3)(e['z'](e['c'])), V.When()(e['x'](0)))],
                        ['case(a) 1, 2: x <= p; 3: z <= c; default: x <= 0; endcase'], ['case(a) 1, 2: x <= p; 3: z <= c; default: x <= 0; endcase'], None),
        'nested list': (lambda m, e: [[e['x'](e['a']), [e['z'](e['c'])]]], ['x <= a; z <= c;'], ['x <= a; z <= c;'], None),
    }
    for nm, (f, now, late, eag) in forms.items():
        seqcase(rec, '%s: plain' % nm, lambda m, q, e: q(*f(m, e)), now, regs)
        seqcase(rec, '%s: If, Else' % nm, lambda m, q, e: (q.If(e['e'])(*f(m, e)), q.Else(e['y'](1))), ['if(e) begin'] + now + ['end else y <= 1;'], regs)
        seqcase(rec, '%s: Else side' % nm, lambda m, q, e: (q.If(e['e'])(e['y'](1)), q.Elif(e['c'])(*f(m, e)), q.Else(*f(m, e))),
                ['if(e) y <= 1; else if(c) begin'] + now + ['end else begin'] + now + ['end'], regs)
        seqcase(rec, '%s: Delay(1)' % nm, lambda m, q, e: q.If(e['e']).Delay(1)(*f(m, e)), ['if(gh0) begin'] + now + ['end'], regs, chains=[('gh0', None, False, 'e')])
        ch = [('gh0', None, False, 'e')]
        if eag:
            ch.append(('gh1',) + eag)
        seqcase(rec, '%s: Delay(1).EagerVal()' % nm, lambda m, q, e: q.If(e['e']).Delay(1).EagerVal()(*f(m, e)), ['if(gh0) begin'] + late + ['end'], regs, chains=ch)
    # memories
    def mem(opt):
        def go(m, q, e):
            ram = m.Reg('ram', 8, 16)
            if opt == '':
                q.If(e['e'])(ram[e['a']](e['p']))
            elif opt == 'D':
                q.If(e['e']).Delay(1)(ram[e['a']](e['p']))
            elif opt == 'E':
                q.If(e['e']).Delay(1).EagerVal()(ram[e['a']](e['p']))
        return go
    for opt, st, ch in (('', 'if(e) ram[a] <= p;', []), ('D', 'if(gh0) ram[a] <= p;', [('gh0', None, False, 'e')]),
                        ('E', 'if(gh0) ram[a] <= gh1;', [('gh0', None, False, 'e'), ('gh1', 8, False, 'p')])):
        def go(m, clk, rst, env, opt=opt):
            q = V.Seq(m, 'seq', clk, rst)
            mem(opt)(m, q, env)
        body = ['  reg [8-1:0] ram [0:16-1];'] + ['  reg %s%s;' % ('[%d-1:0] ' % w if w else '', n) for n, w, sg, s in ch] + ['  always @(posedge CLK) begin']
        if ch:
            body += ['if(RST) begin'] + ['%s <= 0;' % c[0] for c in ch] + ['end else begin'] + ['%s <= %s;' % (c[0], c[3]) for c in ch] + [st, 'end', '  end']
        else:
            body += [st, '  end']
        case(rec, 'memory word %s' % opt, go, body, ['ram'])
    # blocking assignments and loops
    def loop(m, q, e):
        i = m.Integer('i')
        q.If(e['e'])(V.For(i(0), i < 4, i.inc())(e['x'][i](e['a'][3 - i])))
    case(rec, 'For', lambda m, clk, rst, env: loop(m, V.Seq(m, 'seq', clk, rst), dict(env, x=m.Reg('x', 8))),
         ['  reg [8-1:0] x;', '  integer i;', '  always @(posedge CLK) if(e) for(i=0;i<4;i=i+1) x[i] <= a[3-i];'], ['x'])
    case(rec, 'Subst with blk', lambda m, clk, rst, env: V.Seq(m, 'seq', clk, rst).If(env['e'])(m.Reg('x', 8)(env['a'], blk=True)),
         ['  reg [8-1:0] x;', '  always @(posedge CLK) if(e) x = a;'], ['x'])


def u_prev(rec):
    rec.function(SEQ + 'Prev')

    def out(m, name, v, w=8, signed=False):
        m.Assign(m.Output(name, w, signed=signed)(v))
    P = ['  output [8-1:0] o']

    def chain(src, width, signed, n, cond=None, initval=0, first=0):
        d, r, u = [], [], []
        prev = src
        for i in range(n):
            h = 'h%d' % (first + i)
            d.append('  reg %s%s%s;' % ('signed ' if signed else '', '[%d-1:0] ' % width if width else '', h))
            r.append('%s <= %s;' % (h, initval))
            u.append(('if(%s) ' % cond if cond else '') + '%s <= %s;' % (h, prev))
            prev = h
        return d, r, u

    def clocked(parts, rst=True):
        d = sum((p[0] for p in parts), [])
        r = sum((p[1] for p in parts), [])
        u = sum((p[2] for p in parts), [])
        return d + ['  always @(posedge CLK) begin', 'if(RST) begin'] + r + ['end else begin'] + u + ['end', '  end']
    for nm, w, sg in (('c', None, False), ('a', 4, False), ('p', 4, True)):
        for n in (1, 2, 3):
            for cond in (None, 'c', 'a'):
                for iv in (0, 1):
                    def go(m, clk, rst, env):
                        q = V.Seq(m, 'seq', clk, rst)
                        out(m, 'o', q.Prev(env[nm], n, initval=iv, cond=env[cond] if cond else None))
                    case(rec, 'Prev(%s, %d, initval=%d, cond=%s)' % (nm, n, iv, cond), go, clocked([chain(nm, w, sg, n, cond, iv)]) + ['  assign o = h%d;' % (n - 1)], [],
                         ports=P, named=True)
    def go0(m, clk, rst, env):
        q = V.Seq(m, 'seq', clk, rst)
        out(m, 'o', q.Prev(env['a'], 0))
        out(m, 'o2', q.Prev(env['a'], -1))
        out(m, 'o3', q.Prev(vt.Int(5), 2))
    case(rec, 'Prev of delay 0 and of a constant', go0, ['  assign o = a;', '  assign o2 = a;', '  assign o3 = 5;'], [], ports=P + ['  output [8-1:0] o2', '  output [8-1:0] o3'], named=True)
    # several delays of one signal share registers
    def go1(m, clk, rst, env):
        q = V.Seq(m, 'seq', clk, rst)
        for i, n in enumerate((2, 1, 3, 2)):
            out(m, 'o%d' % i, q.Prev(env['a'], n))
    case(rec, 'Prev of 2, 1, 3, 2 of one signal', go1, clocked([chain('a', 4, False, 3)]) + ['  assign o0 = h1;', '  assign o1 = h0;', '  assign o2 = h2;', '  assign o3 = h1;'], [],
         ports=['  output [8-1:0] o%d' % i for i in range(4)], named=True)
    # an unconditional Prev and one with a condition or another initial value
    two = (dict(), dict(cond='c'), dict(initval=3), dict(cond='d', initval=2))
    for i, k1 in enumerate(two):
        for j, k2 in enumerate(two):
            if i == j:
                continue
            for n1, n2 in ((1, 1), (2, 1), (1, 2)):
                def go2(m, clk, rst, env):
                    q = V.Seq(m, 'seq', clk, rst)
                    for o, n, k in (('o', n1, k1), ('o2', n2, k2)):
                        out(m, o, q.Prev(env['a'], n, **{x: env[v] if x == 'cond' else v for x, v in k.items()}))
                c1 = chain('a', 4, False, n1, k1.get('cond'), k1.get('initval', 0))
                c2 = chain('a', 4, False, n2, k2.get('cond'), k2.get('initval', 0), first=n1)
                case(rec, 'Prev(a, %d, %s), Prev(a, %d, %s)' % (n1, k1, n2, k2), go2, clocked([c1, c2]) + ['  assign o = h%d;' % (n1 - 1), '  assign o2 = h%d;' % (n1 + n2 - 1)], [],
                     ports=P + ['  output [8-1:0] o2'], named=True)
    # an expression
    for nm, f, tx, w, sg in (('a + p', lambda e: e['a'] + e['p'], 'a + p', None, False), ('a > p', lambda e: e['a'] > e['p'], 'a > p', None, False), ('p - 1', lambda e: e['p'] - 1, 'p - 1', None, True),
                             ('a[2]', lambda e: e['a'][2], 'a[2]', None, False), ('{c,a}', lambda e: vt.Cat(e['c'], e['a']), '{c,a}', None, False)):
        def go3(m, clk, rst, env):
            q = V.Seq(m, 'seq', clk, rst)
            x = m.OutputReg('o', 4)
            q(x(q.Prev(f(env), 2)))
        V.reset()
        case(rec, 'Prev(%s, 2), low bits' % nm, go3, ['  reg [4-1:0] o;', '  wire [4-1:0] w;', '  assign w = %s;' % tx, '  reg [4-1:0] h0, h1;', '  always @(posedge CLK) begin',
             'if(RST) begin h0 <= 0; h1 <= 0; end else begin h0 <= w; h1 <= h0; end', '  end', '  always @(posedge CLK) if(!RST) o <= h1;'], ['o'], ports=['  output [4-1:0] o'], depth=3)
    # Prev between an If and its Else, and with a pending condition
    def mid(m, q, e):
        q.If(e['d'])(e['x'](1))
        v = q.Prev(e['a'], 1, cond=e['c'])
        q.Else(e['x'](2))
        m.Assign(m.Output('o', 8)(v))
    case(rec, 'Prev with a condition between If and Else', lambda m, clk, rst, env: mid(m, V.Seq(m, 'seq', clk, rst), dict(env, x=m.Reg('x', 8))),
         ['  reg [8-1:0] x;', '  reg [4-1:0] h0;', '  assign o = h0;', '  always @(posedge CLK) begin', 'if(RST) h0 <= 0; else begin if(c) h0 <= a; if(d) x <= 1; else x <= 2; end', '  end'],
         ['x'], ports=P, named=True)

    def pend(m, q, e):
        q.If(e['d'])
        v = q.Prev(e['a'], 1)
        q(e['x'](v))
    case(rec, 'Prev while a condition is pending', lambda m, clk, rst, env: pend(m, V.Seq(m, 'seq', clk, rst), dict(env, x=m.Reg('x', 8))),
         ['  reg [8-1:0] x;', '  reg [4-1:0] h0;', '  always @(posedge CLK) begin', 'if(RST) h0 <= 0; else begin h0 <= a; if(d) x <= h0; end', '  end'], ['x'], named=True)


def u_objects(rec):
    """merging, resets, no reset, explicit make_always"""
    rec.function(SEQ + 'update', SEQ + 'add_reset', SEQ + 'make_always', SEQ + 'make_code', SEQ + 'make_reset', SEQ + 'TmpSeq', SEQ + 'Clear')

    def upd(m, clk, rst, env):
        x, y, z = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=1), m.Reg('z', initval=1)
        q, r = V.Seq(m, 'q', clk, rst), V.Seq(m, 'r', clk, rst)
        q.If(env['c'])(x(1), y(1))
        q.If(env['d']).Delay(1)(x(2))
        r.If(env['e'])(x(3), z(0))
        r.If(env['a']).Delay(1)(x(4))
        r.If(env['a']).Delay(2)(x(5))
        q.update(r)
        r.make_always()
    case(rec, 'update: the other object joins, its immediate statements later, its delayed ones by delay', upd,
         ['  reg [8-1:0] x, y;', '  reg z;', '  reg h0, h1, h2, h3;', '  always @(posedge CLK) begin', 'if(RST) begin x <= 3; y <= 1; z <= 1; h0 <= 0; h1 <= 0; h2 <= 0; h3 <= 0; end else begin',
          'h0 <= d; h1 <= a != 0; h2 <= a != 0; h3 <= h2; if(h3) x <= 5; if(h0) x <= 2; if(h1) x <= 4;', 'if(c) begin x <= 1; y <= 1; end if(e) begin x <= 3; z <= 0; end', 'end', '  end'], ['x', 'y', 'z'], depth=3)

    for rstless in (False, True):
        def nor(m, clk, rst, env):
            x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8)
            q = V.Seq(m, 'q', clk, None if rstless else rst)
            q.If(env['c'])(x(env['a']))
            q.If(env['d']).Delay(2)(y(env['a']))
        body = ['  reg [8-1:0] x, y;', '  reg h0, h1;', '  always @(posedge CLK) begin']
        up = ['h0 <= d; h1 <= h0; if(h1) y <= a; if(c) x <= a;']
        body += up if rstless else ['if(RST) begin x <= 3; h0 <= 0; h1 <= 0; end else begin'] + up + ['end']
        case(rec, 'rst=%s' % (None if rstless else 'RST'), nor, body + ['  end'], ['x', 'y'], depth=3)

    def addr(m, clk, rst, env):
        x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=4)
        q = V.Seq(m, 'q', clk, rst)
        q.add_reset(y)
        q.add_reset(y)
        q.If(env['c'])(x(env['a']))
    case(rec, 'add_reset', addr, ['  reg [8-1:0] x, y;', '  always @(posedge CLK) begin', 'if(RST) begin x <= 3; y <= 4; end else begin if(c) x <= a; end', '  end'], ['x', 'y'])

    def mka(m, clk, rst, env):
        x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8)
        q = V.Seq(m, 'q', clk, rst, nohook=True)
        q.If(env['c'])(x(env['a']))
        q.make_always(reset=[y(9)], body=[x(7), V.If(env['d'])(y(env['a']))])
        q.make_always()
    case(rec, 'make_always(reset, body): once, the given statements first', mka,
         ['  reg [8-1:0] x, y;', '  always @(posedge CLK) begin', 'if(RST) begin x <= 3; y <= 9; end else begin x <= 7; if(d) y <= a; if(c) x <= a; end', '  end'], ['x', 'y'])

    def two(m, clk, rst, env):
        x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=2)
        q, r = V.TmpSeq(m, clk, rst), V.TmpSeq(m, clk, rst, prefix='zz')
        q.If(env['c'])
        r(y(1))
        q.Delay(1)
        r.If(env['d'])(y(2))
        q(x(1))
        r.Else.Delay(1)(y(3))
    case(rec, 'two TmpSeq objects do not share pending conditions', two,
         ['  reg [8-1:0] x, y;', '  reg h0, h1;', '  always @(posedge CLK) begin', 'if(RST) begin x <= 3; h0 <= 0; end else begin h0 <= c; if(h0) x <= 1; end', '  end',
          '  always @(posedge CLK) begin', 'if(RST) begin y <= 2; h1 <= 0; end else begin h1 <= !d; if(h1) y <= 3; y <= 1; if(d) y <= 2; end', '  end'], ['x', 'y'])

    def clr(m, clk, rst, env):
        x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=2)
        q = V.Seq(m, 'q', clk, rst)
        q.If(env['c']).Delay(1)
        q.Clear()
        q(x(env['a']))
        q.If(env['c'])(y(1))
        q.Elif(env['d'])
        q.Clear()
        q(y(env['a']))
    case(rec, 'Clear', clr, ['  reg [8-1:0] x, y;', '  always @(posedge CLK) begin', 'if(RST) begin x <= 3; y <= 2; end else begin x <= a; if(c) y <= 1; y <= a; end', '  end'], ['x', 'y'])

    def empty(m, clk, rst, env):
        V.Seq(m, 'q', clk, rst)
    V.reset()
    m, clk, rst, env = module()
    empty(m, clk, rst, env)
    rec.holds('a Seq without statements emits nothing', 'always' not in m.to_verilog(), m.to_verilog(), dict(emitted=m.to_verilog()))
    # errors
    for nm, f in (('Else first', lambda q: q.Else), ('Elif first', lambda q: q.Elif(1)), ('update with itself done', None)):
        if f is None:
            continue
        V.reset()
        m, clk, rst, env = module()
        try:
            f(V.Seq(m, 'q', clk, rst))
            ok = False
        except ValueError:
            ok = True
        rec.holds('%s is rejected' % nm, ok, '', dict(call=nm))


def u_module(rec):
    """as_module: the same behaviour in a submodule"""
    rec.function(SEQ + 'make_module', 'veriloggen/seq/subst_visitor.py: SubstSrcVisitor', 'veriloggen/seq/subst_visitor.py: SrcRenameVisitor')

    def go(am, kind):
        def f(m, clk, rst, env):
            w = m.Parameter('W', 8)
            x, y = m.OutputReg('x', w, initval=3), m.OutputReg('y', 8, initval=2, signed=True)
            q = V.Seq(m, 'q', clk, rst if kind != 'norst' else None, as_module=am)
            q.If(env['c'])(x(env['a'] + w))
            q.Elif(env['d'])(x(x + env['p']), y(env['p']))
            q.Else(x(0))
            if kind == 'delay':
                q.If(env['a']).Delay(2)(y(y + 1))
                q.If(env['e']).Delay(1).EagerVal()(y(env['a']))
            if kind == 'case':
                q(V.Case(env['a'])(V.When(1, 2)(y(env['p'])), V.When(3)(y(y - 1)), V.When()(V.If(env['e'])(x(x + 1)))))
            if kind == 'prev':
                q.If(env['e'])(y(q.Prev(env['p'], 2)))
        return f
    for kind in ('plain', 'delay', 'case', 'prev', 'norst'):
        res = []
        for am in (False, True):
            V.reset()
            m, clk, rst, env = module()
            try:
                go(am, kind)(m, clk, rst, env)
                res.append(m.to_verilog())
            except Exception as ex:
                traceback.print_exc()
                res.append(ex)
        if isinstance(res[0], Exception):
            rec.holds('as_module %s: emitted' % kind, False, repr(res[0]))
            continue
        diff = None
        if isinstance(res[1], Exception):
            rec.holds('as_module, %s: emitted' % kind, False, repr(res[1]), dict(kind=kind, error=repr(res[1])))
            continue
        h = None
        for seed in range(1, 4):
            h = h or history(res[1], res[0], seed)
        rec.holds('as_module, %s: the outputs of random histories equal those of the same Seq in place' % kind, h is None, str(h), dict(kind=kind, emitted=res[1][:3000], **(h or {})))
    rec.ran('Seq.make_module', '3 random histories of 200 cycles', 15)


def history(a, b, seed, cycles=200):
    from rtl import iverilog_run
    import vsem
    DB = vsem.Design(b, 'm')
    rng = random.Random(seed)
    stim = [{n: (1 if c < 2 else 0) if n == 'RST' else rng.getrandbits(DB.decls[n].width) for n in DB.iports if n != 'CLK'} for c in range(cycles)]
    outs = list(DB.oports)
    u, v = iverilog_run(a, 'm', stim, outs, 'CLK'), iverilog_run(b, 'm', stim, outs, 'CLK')
    for i in range(2, cycles):
        d = {n: (u[i].get(n), v[i].get(n)) for n in outs if u[i].get(n) != v[i].get(n)}
        if d:
            return dict(cycle=i, inputs=stim[:i + 1][-4:], difference={n: 'as_module %s, in place %s' % p for n, p in d.items()})
    return None


UNITS = [Unit('programs %d' % i, u_programs, (i, 16), timeout=800) for i in range(16)]
UNITS += [Unit('forms', u_forms), Unit('statements', u_statements), Unit('Prev', u_prev), Unit('objects', u_objects), Unit('as_module', u_module)]


if __name__ == '__main__':
    sys.exit(main('C05', UNITS,
                  ['pyverilog parser', 'lib/vsem.py Verilog semantics (cross-checked with iverilog)', 'lib/ghost.py meaning of call chains', 'z3', 'iverilog'],
                  ['a call sequence is decided by the bookkeeping state (last condition chain, pending options, last if-statement) its prefix leaves; sequences of up to three '
                   'calls (a selection of four) reach every combination of it', 'as_module is compared with the in-place form on random histories only']))
