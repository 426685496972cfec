"""C01: Python expressions become the Verilog expressions they denote."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vpath
import random, itertools
import z3
import vsem, rtl, pyvc
from vsem import Design, Z3Alg
from rtl import Sym, iverilog_run
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.verilog.to_verilog as tv

# ------------------------------------------------------------ descriptors --
# a descriptor is (python callable on the environment, reference Verilog text,
# description).  The reference text is written down from the property, fully
# parenthesised, and never goes through the code under test.


class E(object):
    def __init__(self, py, text, what, kind='x'):
        self.py, self.text, self.what, self.kind = py, text, what, kind


def sig(n):
    return E(lambda e: e[n], n, n, 's')


def pint(n):
    return E(lambda e: n, '(%d)' % n if n >= 0 else '(-%d)' % -n, repr(n), 'i')


def pbool(b):
    return E(lambda e: b, '1' if b else '0', repr(b), 'i')


def lit(v, w, base, signed):
    B = {2: 'b', 8: 'o', 10: 'd', 16: 'h', None: 'd'}[base]
    dig = {2: bin, 8: oct, 16: hex, 10: str, None: str}[base](abs(v))
    dig = dig[2:] if base in (2, 8, 16) else dig
    t = "%d'%s%s%s" % (w, 's' if signed or v < 0 else '', B, dig)
    return E(lambda e: vt.Int(v, width=w, base=base, signed=signed), t if v >= 0 else '(-%s)' % t,
             'Int(%d, width=%d, base=%s, signed=%s)' % (v, w, base, signed), 'c')


BINOPS = [
    ('+', lambda a, b: a + b, '+'), ('-', lambda a, b: a - b, '-'), ('*', lambda a, b: a * b, '*'),
    ('/', lambda a, b: a / b, '/'), ('//', lambda a, b: a // b, '/'), ('%', lambda a, b: a % b, '%'),
    ('&', lambda a, b: a & b, '&'), ('|', lambda a, b: a | b, '|'), ('^', lambda a, b: a ^ b, '^'),
    ('<<', lambda a, b: a << b, '<<'), ('>>', lambda a, b: a >> b, '>>'),
    ('<', lambda a, b: a < b, '<'), ('<=', lambda a, b: a <= b, '<='), ('>', lambda a, b: a > b, '>'),
    ('>=', lambda a, b: a >= b, '>='), ('==', lambda a, b: a == b, '=='), ('!=', lambda a, b: a != b, '!='),
]
FUNOPS = [
    ('Plus', '+'), ('Minus', '-'), ('Times', '*'), ('Divide', '/'), ('Mod', '%'), ('Add', '+'), ('Sub', '-'), ('Mul', '*'), ('Div', '/'),
    ('Sll', '<<'), ('Srl', '>>'), ('Sra', '>>>'), ('LessThan', '<'), ('GreaterThan', '>'), ('LessEq', '<='), ('GreaterEq', '>='),
    ('Eq', '=='), ('NotEq', '!='), ('Eql', '==='), ('NotEql', '!=='), ('And', '&'), ('Or', '|'), ('Xor', '^'), ('Xnor', '~^'),
    ('Land', '&&'), ('Lor', '||'), ('Ands', '&&'), ('Ors', '||'), ('AndList', '&&'), ('OrList', '||'),
]
UNOPS = [('-', lambda a: -a, '-'), ('~', lambda a: ~a, '~'), ('+', lambda a: +a, '+')]
UFUN = [('Uplus', '+'), ('Uminus', '-'), ('Ulnot', '!'), ('Not', '!'), ('Unot', '~'), ('Uand', '&'), ('Unand', '~&'), ('Uor', '|'),
        ('Unor', '~|'), ('Uxor', '^'), ('Uxnor', '~^')]


def binop(o, a, b):
    return E(lambda e: o[1](a.py(e), b.py(e)), '(%s %s %s)' % (a.text, o[2], b.text), '(%s %s %s)' % (a.what, o[0], b.what))


def funop(o, a, b):
    return E(lambda e: getattr(vt, o[0])(a.py(e), b.py(e)), '(%s %s %s)' % (a.text, o[1], b.text), '%s(%s, %s)' % (o[0], a.what, b.what))


def unop(o, a):
    return E(lambda e: o[1](a.py(e)), '(%s(%s))' % (o[2], a.text), '%s(%s)' % (o[0], a.what))


def ufun(o, a):
    return E(lambda e: getattr(vt, o[0])(a.py(e)), '(%s(%s))' % (o[1], a.text), '%s(%s)' % (o[0], a.what))


def sra(a, b):
    return E(lambda e: a.py(e).sra(b.py(e)), '(%s >>> %s)' % (a.text, b.text), '%s.sra(%s)' % (a.what, b.what))


def cond(c, a, b, f='Mux'):
    return E(lambda e: getattr(vt, f)(c.py(e), a.py(e), b.py(e)), '((%s) ? (%s) : (%s))' % (c.text, a.text, b.text),
             '%s(%s, %s, %s)' % (f, c.what, a.what, b.what))


def cat(*xs):
    return E(lambda e: vt.Cat(*[x.py(e) for x in xs]), '{%s}' % ', '.join(x.text for x in xs), 'Cat(%s)' % ', '.join(x.what for x in xs))


def rep(x, n, meth=False):
    return E(lambda e: x.py(e).repeat(n) if meth else vt.Repeat(x.py(e), n), '{%d{%s}}' % (n, x.text), 'Repeat(%s, %d)' % (x.what, n))


def power(a, n, refl=False, fn=False):
    if refl:
        return E(lambda e: n ** a.py(e), '(%d ** %s)' % (n, a.text), '(%d ** %s)' % (n, a.what))
    return E(lambda e: vt.Power(a.py(e), n) if fn else a.py(e) ** n, '(%s ** %d)' % (a.text, n), '(%s ** %d)' % (a.what, n))


def signed_of(a):
    return E(lambda e: vt.Signed(a.py(e)), '$signed(%s)' % a.text, 'Signed(%s)' % a.what)


def absv(a, sgn, builtin=True):
    t = '(((%s) < 0) ? (-(%s)) : (%s))' % (a.text, a.text, a.text) if sgn else a.text
    return E(lambda e: abs(a.py(e)) if builtin else vt.Abs(a.py(e)), t, 'abs(%s)' % a.what)


def sign(a, sgn):
    return E(lambda e: vt.Sign(a.py(e)), '((%s) < 0)' % a.text if sgn else "1'd0", 'Sign(%s)' % a.what)


def comp2(a):
    return E(lambda e: vt.Complement2(a.py(e)), '((~(%s)) + 1)' % a.text, 'Complement2(%s)' % a.what)


# -------------------------------------------------------------- comparing --
CONF = dict(a=(8, False), b=(4, False), c=(1, False), d=(8, False), sa=(8, True), sb=(5, True), w=(17, False), sw=(17, True))
CONF1 = dict(a=(1, False), b=(1, False), c=(1, False), d=(3, False), sa=(1, True), sb=(2, True), w=(33, False), sw=(40, True))
OUT = 44


def new_module(conf):
    V.reset()
    m = V.Module('dut')
    env = {}
    for n, (w, s) in conf.items():
        env[n] = m.Input(n, w if w > 1 or s or n not in 'bc' else None, signed=s)
    return m, env


def emitted(exprs, conf):
    m, env = new_module(conf)
    for i, x in enumerate(exprs):
        y = m.Output('y%d' % i, OUT)
        y.assign(x.py(env))
    return m.to_verilog()


def decl(n, w, s):
    return '%s%s%s' % ('signed ' if s else '', '[%d:0] ' % (w - 1) if w > 1 or n not in ('b', 'c') else '', n)


def reference(exprs, conf):
    t = ['module refm(%s);' % ', '.join(list(conf) + ['y%d' % i for i in range(len(exprs))])]
    for n, (w, s) in conf.items():
        t.append('input %s;' % decl(n, w, s))
    for i, x in enumerate(exprs):
        t.append('output [%d:0] y%d;' % (OUT - 1, i))
        t.append('assign y%d = %s;' % (i, x.text))
    t.append('endmodule')
    return '\n'.join(t)


class FixedX(Z3Alg):
    """both sides of a comparison read the same value for x (division by
    zero, an index beyond the signal)"""

    def fresh(self, w, hint='x'):
        return z3.BitVecVal(int('10110' * (w // 5 + 1), 2) & ((1 << w) - 1), w)


def replay(x, conf, vals):
    """both texts in iverilog on one input"""
    try:
        t = emitted([x], conf)
        e = iverilog_run(t, 'dut', [vals], ['y0'])[0]['y0']
    except Exception as ex:
        t, e = '', 'error: %s' % str(ex)[:500]
    r = iverilog_run(reference([x], conf), 'refm', [vals], ['y0'])[0]['y0']
    if e != r:
        return dict(kind='expression', expression=x.what, operand_declarations=conf, signal_values=vals, emitted=t, value_of_emitted=e,
                    expected_value=r, expected_expression=x.text)
    return None


def compare(rec, exprs, conf, label):
    """every expression of the list, one obligation each"""
    for k in range(0, len(exprs), 60):
        part = exprs[k:k + 60]
        try:
            T = emitted(part, conf)
            D = Design(T, 'dut')
        except Exception as ex:
            # find the one that fails
            good = []
            for x in part:
                try:
                    Design(emitted([x], conf), 'dut')
                    good.append(x)
                except Exception as ex1:
                    rec.holds('%s %s' % (label, x.what), False, 'not emitted as legal Verilog: %r' % ex1,
                              dict(kind='expression', expression=x.what, operand_declarations=conf, error=repr(ex1)[:500],
                                   expected_expression=x.text))
            part = good
            if not part:
                continue
            D = Design(emitted(part, conf), 'dut')
        R = Design(reference(part, conf), 'refm')
        alg = FixedX()
        env = {n: z3.BitVec(n, w) for n, (w, s) in conf.items()}
        cd, cr = D.ctx(alg, dict(env)), R.ctx(alg, dict(env))
        for i, x in enumerate(part):
            try:
                u, v = cd.val('y%d' % i), cr.val('y%d' % i)
            except vsem.Unsupported as ex:
                rec.holds('%s %s' % (label, x.what), False, 'emitted text outside the semantics: %r' % ex)
                continue

            def cex(model, x=x):
                vals = {n: model.eval(env[n], model_completion=True).as_long() for n in conf}
                return replay(x, conf, vals)
            rec.prove('%s %s' % (label, x.what), u == v, on_fail=cex)
    rec.sample('%s: %s is %s' % (label, exprs[-1].what, exprs[-1].text))


# ------------------------------------------------------------------ units --
def operands(conf):
    return [sig(n) for n in ('a', 'b', 'c', 'sa', 'sb', 'w', 'sw')]


CONSTS = [pint(0), pint(1), pint(5), pint(-3), pint(200), pbool(True), pbool(False), lit(5, 4, None, False), lit(11, 8, 16, False),
          lit(5, 6, 2, True), lit(-3, 6, None, False), lit(63, 6, 8, False)]


def u_binary(rec, o, conf, nm):
    rec.function('_Numeric.__%s__' % o[0], 'VerilogCommonVisitor binary operators')
    sg = operands(conf)
    ex = [binop(o, x, y) for x in sg for y in sg]
    # reflected and constant operands
    ex += [binop(o, x, y) for x in sg for y in CONSTS] + [binop(o, y, x) for x in sg for y in CONSTS]
    compare(rec, ex, conf, nm)


def u_funs(rec, conf, nm):
    rec.function(*['vtypes.%s' % o[0] for o in FUNOPS])
    sg = operands(conf)
    cs = CONSTS[:4] + CONSTS[7:10]
    for o in FUNOPS:
        compare(rec, [funop(o, x, y) for x in sg[:6] for y in sg[:6]] + [funop(o, x, y) for x in sg[:5] for y in cs] +
                [funop(o, y, x) for x in sg[:5] for y in cs], conf, '%s' % nm)


def u_unary(rec, conf, nm):
    rec.function(*['vtypes.%s' % o[0] for o in UFUN])
    rec.function('_Numeric.__neg__', '_Numeric.__invert__', '_Numeric.__pos__', '_Numeric.__abs__', 'Mux', 'Abs', 'Sign', 'Complement2',
                 'Cat', 'Repeat', 'PatternMux', 'Signed', 'Ands', 'Ors')
    sg = operands(conf)
    a, b, c, sa, sb, w, sw = sg
    ex = [unop(o, x) for o in UNOPS for x in sg] + [ufun(o, x) for o in UFUN for x in sg]
    ex += [sra(x, y) for x in sg for y in (a, b, c, sb, pint(3), lit(2, 3, None, False))]
    ex += [absv(x, conf[x.text][1], k) for x in sg for k in (True, False)]
    ex += [sign(x, conf[x.text][1]) for x in sg]
    ex += [comp2(x) for x in sg] + [signed_of(x) for x in sg]
    ex += [power(x, n, fn=f) for x in sg for n in (0, 1, 2, 3) for f in (False, True)]
    for x in sg:
        for y in sg[:5]:
            ex += [cond(c, x, y), cond(c, x, y, 'Cond'), cond(x, y, a), cond(x, pint(3), y), cond(x, y, pint(-3))]
            ex.append(cat(x, y))
        ex += [rep(x, n, mm) for n in (1, 2, 3, 7) for mm in (False, True)]
    ex += [cat(a, b, c, sa), cat(c, lit(5, 4, None, False), sb), cat(a), rep(cat(a, c), 2), cat(rep(c, 3), b), rep(cat(a), 2),
           cat(cat(a, b), cat(sb, c)), rep(rep(b, 2), 2)]
    # three and four arguments: association does not matter for the value, all of them count
    for nm2, op in (('Ands', '&&'), ('Ors', '||'), ('AndList', '&&'), ('OrList', '||')):
        for k in (1, 2, 3, 4, 5):
            xs = [a, sb, c, w, b][:k]
            ex.append(E(lambda e, xs=xs, nm2=nm2: getattr(vt, nm2)(*[x.py(e) for x in xs]), '(%s)' % (' %s ' % op).join('(%s)' % x.text for x in xs),
                        '%s(%s)' % (nm2, ', '.join(x.what for x in xs))))
    # conditional helpers
    for n in (True, False, 1, 0, 5):
        ex.append(E(lambda e, n=n: vt.Mux(n, e['a'], e['b']), 'a' if n else 'b', 'Mux(%r, a, b)' % n))
    for n in (-5, 0, 7):
        ex.append(E(lambda e, n=n: vt.Plus(e['sa'], vt.Complement2(n)), '(sa + (%d))' % -n, 'sa + Complement2(%d)' % n))
        ex.append(E(lambda e, n=n: vt.Plus(e['sa'], vt.Abs(n)), '(sa + (%d))' % abs(n), 'sa + Abs(%d)' % n))
        ex.append(E(lambda e, n=n: vt.Mux(vt.Sign(n), e['a'], e['b']), 'a' if n < 0 else 'b', 'Mux(Sign(%d), a, b)' % n))
    for k in (1, 2, 3, 4):
        conds = ['c', 'a', 'sb', 'w'][:k]
        vals = ['sa', 'b', 'a', 'w'][:k]
        for star in (False, True):
            def py(e, conds=conds, vals=vals, star=star):
                ps = [(e[x] > i, e[y]) for i, (x, y) in enumerate(zip(conds, vals))] + [(None, e['d'])]
                return vt.PatternMux(*ps) if star else vt.PatternMux(ps)
            t = 'd'
            for i in reversed(range(k)):
                t = '((%s > %d) ? %s : %s)' % (conds[i], i, vals[i], t)
            ex.append(E(py, t, 'PatternMux%d %s' % (k, star)))
    compare(rec, ex, conf, nm)


NEST_B = BINOPS + [('Sra', lambda a, b: vt.Sra(a, b), '>>>'), ('Xnor', lambda a, b: vt.Xnor(a, b), '~^'), ('Land', lambda a, b: vt.Land(a, b), '&&'),
                   ('Lor', lambda a, b: vt.Lor(a, b), '||'), ('Eql', lambda a, b: vt.Eql(a, b), '===')]
NEST_U = UNOPS + [(n, (lambda f: lambda a: getattr(vt, f)(a))(n), t) for n, t in UFUN]


def inner_exprs(x, y, c):
    out = [binop(o, x, y) for o in NEST_B] + [unop(o, x) for o in NEST_U]
    out += [cond(c, x, y), cat(x, y), rep(x, 2), signed_of(x), power(x, 2), pint(-3), lit(-3, 6, None, False), pint(3)]
    return out


def u_nest(rec, j, n, conf):
    rec.function('VerilogCommonVisitor (grouping of nested expressions)')
    outer = []
    s = {k: sig(k) for k in conf}
    for ins in ((s['a'], s['b'], s['c']), (s['sa'], s['sb'], s['c'])):
        x = ins[0]
        for inner in inner_exprs(*ins):
            if inner.kind not in 'i':
                outer += [unop(o, inner) for o in NEST_U]
                outer += [cond(inner, s['a'], s['d']), cond(s['c'], inner, s['d']), cond(s['c'], s['d'], inner), power(inner, 2), signed_of(inner)]
                outer += [cat(inner, s['c']), cat(s['c'], inner), rep(inner, 2)] if inner.kind != 'c' else []
            for o in NEST_B:
                outer += [binop(o, inner, s['d']), binop(o, s['d'], inner), binop(o, s['sb'], inner)]
    compare(rec, outer[j::n], conf, 'nested')


def rand_expr(rng, depth, s):
    if depth == 0 or rng.random() < 0.12:
        if rng.random() < 0.2:
            return rng.choice([lit(rng.randrange(16), 4, rng.choice([None, 2, 16, 8, 10]), rng.random() < 0.3), lit(-rng.randrange(1, 7), 5, None, False)])
        return rng.choice(s)
    r = rng.random()
    k = lambda: rand_expr(rng, depth - 1, s)
    def ki():
        return pint(rng.choice([0, 1, 2, 3, 7, -2, 100])) if rng.random() < 0.15 else k()
    if r < 0.62:
        o = rng.choice([o for o in NEST_B if o[0] not in ('*', '/', '//', '%')] if depth > 1 else NEST_B)
        x, y = (k(), ki()) if rng.random() < 0.7 else (ki(), k())
        return binop(o, x, y)
    if r < 0.77:
        return unop(rng.choice(NEST_U), k())
    if r < 0.87:
        return cond(k(), k(), ki())
    if r < 0.93:
        return cat(k(), k())
    if r < 0.97:
        return rep(k(), rng.choice([1, 2, 3]))
    return signed_of(k())


def u_deep(rec, j, conf):
    rng = random.Random('%s deep %d' % (rec.seed, j))
    s = [sig(n) for n in ('a', 'b', 'c', 'd', 'sa', 'sb')]
    n = 40 if not rec.thorough else 200
    ex = []
    while len(ex) < n:
        x = rand_expr(rng, rng.choice([3, 4, 5]), s)
        if len(x.text) < 900 and x.kind not in 'i':
            ex.append(x)
    rec.timeout_ms = 20000
    before = len(rec.failures)
    compare(rec, ex, conf, 'deep')
    rec.ran('random expression trees', 'depth 3 to 5', n)


# ---- structural induction: every visitor step with opaque children
class _Stub(vt._Numeric):
    def __init__(self, k, w=8):
        vt._Numeric.__init__(self)
        self.k, self.w = k, w

    def get_width(self):
        return self.w


def u_induct(rec):
    """visit(K(children)) denotes K(values of the children) whatever the
    children are: the visitor reaches a child only through self.visit(child)
    and places exactly the child's AST under the operator."""
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    import pyverilog.vparser.ast as va

    class Vis(tv.VerilogBindVisitor):
        def visit__Stub(self, node):
            return node.ast

    vals = {'p': (8, False), 'q': (6, True), 'r': (3, False)}

    def stub(n, shape):
        s = _Stub(n, vals[n][0])
        ident = va.Identifier(n)
        s.ast = {'id': ident, 'minus': va.Minus(ident, va.Identifier('r')), 'cond': va.Cond(va.Identifier('r'), ident, va.Identifier('p')),
                 'uminus': va.Uminus(ident), 'neg': va.IntConst("-3")}[shape]
        s.text = {'id': n, 'minus': '(%s - r)' % n, 'cond': '(r ? %s : p)' % n, 'uminus': '(-%s)' % n, 'neg': '(-3)'}[shape]
        return s
    cases = []
    for sh1 in ('id', 'minus', 'cond', 'uminus', 'neg'):
        for sh2 in ('id', 'minus', 'cond', 'uminus', 'neg'):
            x, y = stub('p', sh1), stub('q', sh2)
            for n, t in FUNOPS:
                if n in ('Add', 'Sub', 'Mul', 'Div', 'Ands', 'Ors', 'AndList', 'OrList'):
                    continue
                cases.append((n, getattr(vt, n)(x, y), '(%s %s %s)' % (x.text, t, y.text)))
            cases.append(('Cond', vt.Cond(x, y, stub('r', sh1)), '(%s ? %s : %s)' % (x.text, y.text, stub('r', sh1).text)))
            if sh1 != 'neg' and sh2 != 'neg':
                cases.append(('Cat', vt.Cat(x, y, x), '{%s, %s, %s}' % (x.text, y.text, x.text)))
                cases.append(('Repeat', vt.Repeat(x, 3), '{3{%s}}' % x.text))
        x = stub('q', sh1)
        for n, t in UFUN:
            if n != 'Not':
                cases.append((n, getattr(vt, n)(x), '(%s(%s))' % (t, x.text)))
        cases.append(('SystemTask', vt.SystemTask('signed', x), '$signed(%s)' % x.text))
        if sh1 in ('id',):
            cases.append(('Skip', vt._SkipUnaryOperator(x), x.text))
    vis, gen = Vis(), ASTCodeGenerator()
    hdr = ''.join('input %s;\n' % decl(n, w, s) for n, (w, s) in vals.items())
    names = ', '.join(list(vals) + ['y%d' % i for i in range(len(cases))])
    A, B = [], []
    for i, (n, node, t) in enumerate(cases):
        rec.function('VerilogCommonVisitor.visit_%s' % n)
        try:
            A.append('output [31:0] y%d; assign y%d = %s;' % (i, i, gen.visit(vis.visit(node))))
        except Exception as ex:
            rec.holds('visit_%s' % n, False, repr(ex))
            A.append('output [31:0] y%d; assign y%d = 0;' % (i, i))
        B.append('output [31:0] y%d; assign y%d = %s;' % (i, i, t))
    DA = Design('module dut(%s);\n%s%s\nendmodule' % (names, hdr, '\n'.join(A)), 'dut')
    DB = Design('module dut(%s);\n%s%s\nendmodule' % (names, hdr, '\n'.join(B)), 'dut')
    alg = FixedX()
    env = {n: z3.BitVec(n, w) for n, (w, s) in vals.items()}
    ca, cb = DA.ctx(alg, dict(env)), DB.ctx(alg, dict(env))
    for i, (n, node, t) in enumerate(cases):
        rec.prove('induction step visit_%s: %s' % (n, t), ca.val('y%d' % i) == cb.val('y%d' % i))


# ---- indexing and slicing
def u_getitem_sym(rec):
    """_Numeric.__getitem__ for every width and every in-range integer bounds
    (symbolic execution of the real method, all paths)"""
    rec.function('_Numeric.__getitem__')
    W, i, j = pyvc.var('W'), pyvc.var('i'), pyvc.var('j')
    hy = [W.t >= 1]

    def var(w):
        v = vt.Input(8, name='v')
        object.__setattr__(v, 'width', w)
        return v

    def cex_bit(model):
        w, x = model.eval(W.t, True).as_long(), model.eval(i.t, True).as_long()
        if w > 4000:
            return None
        e = var(w)[x]
        good = x if x >= 0 else w + x
        return None if isinstance(e, vt.Pointer) and e.pos == good else dict(kind='index', width=w, index=x, got=str(e), expected='v[%d]' % good)

    def mk(start, stop):
        def f():
            return var(W)[start:stop]
        return f
    # single index
    h = hy + [i.t >= -W.t, i.t < W.t]
    ps = pyvc.explore(lambda: var(W)[i], h)
    for k, (pc, r) in enumerate(ps):
        if not isinstance(r, vt.Pointer):
            rec.prove('index path %d is a bit select' % k, False, h + pc, on_fail=cex_bit)
            continue
        rec.cover('index path %d' % k, h + pc)
        want = z3.If(i.t >= 0, i.t, W.t + i.t)
        rec.prove('index path %d' % k, pyvc.term(r.pos) == want, h + pc, on_fail=cex_bit)
    for st, sp in ((i, j), (None, j), (i, None), (None, None)):
        h = list(hy)
        ws = z3.IntVal(0) if st is None else z3.If(i.t >= 0, i.t, W.t + i.t)
        we = W.t if sp is None else z3.If(j.t >= 0, j.t, W.t + j.t)
        if st is not None:
            h += [i.t >= -W.t, i.t < W.t]
        if sp is not None:
            h += [j.t >= -W.t, j.t <= W.t]
        h.append(ws < we)
        for wrap in (lambda x: x, ):
            def cex_s(model):
                w = model.eval(W.t, True).as_long()
                a = None if st is None else model.eval(i.t, True).as_long()
                b = None if sp is None else model.eval(j.t, True).as_long()
                if w > 4000:
                    return None
                lo, hi, _ = slice(a, b).indices(w)
                try:
                    e = var(w)[a:b]
                    if isinstance(e, vt.Slice) and (e.msb, e.lsb) == (hi - 1, lo):
                        return None
                except Exception as ex:
                    e = repr(ex)
                return dict(kind='slice', width=w, start=a, stop=b, got=str(e), expected='v[%d:%d]' % (hi - 1, lo))
            for k, (pc, r) in enumerate(pyvc.explore(mk(st, sp), h)):
                nm = 'slice [%s:%s] path %d' % ('i' if st is not None else '', 'j' if sp is not None else '', k)
                if not isinstance(r, vt.Slice):
                    rec.prove(nm + ' is a part select', False, h + pc, on_fail=cex_s)
                    continue
                rec.cover(nm, h + pc)
                rec.prove(nm, z3.And(pyvc.term(r.msb) == we - 1, pyvc.term(r.lsb) == ws), h + pc, on_fail=cex_s)


def u_getitem(rec, W):
    """enumeration through the emitted text: every index, slice and stepped slice"""
    rec.function('_Numeric.__getitem__', '_Numeric.slice', '_Numeric.__iter__', '_Numeric.__len__', 'VerilogCommonVisitor.visit_Pointer',
                 'VerilogCommonVisitor.visit_Slice', 'VerilogCommonVisitor.visit_Cat')
    conf = dict(a=(W, False), sa=(W, True), i=(max(1, (W - 1).bit_length()), False))
    bits = list(range(W))
    ex = []
    for n in ('a', 'sa'):
        for k in range(-W, W):
            ex.append(E(lambda e, n=n, k=k: e[n][k], '%s[%d]' % (n, k % W), '%s[%d]' % (n, k)))
        ex.append(E(lambda e, n=n: e[n][e['i']], '%s[i]' % n, '%s[i]' % n))
        ex.append(E(lambda e, n=n: e[n][vt.Int(W - 1)], '%s[%d]' % (n, W - 1), '%s[Int]' % n))
        for k, _ in enumerate(bits):
            ex.append(E(lambda e, n=n, k=k: list(iter(e[n]))[k], '%s[%d]' % (n, k), 'list(%s)[%d]' % (n, k)))
        for hi in bits:
            for lo in range(hi + 1):
                ex.append(E(lambda e, n=n, hi=hi, lo=lo: e[n].slice(hi, lo), '%s[%d:%d]' % (n, hi, lo), '%s.slice(%d,%d)' % (n, hi, lo)))
                ex.append(E(lambda e, n=n, hi=hi, lo=lo: e[n][vt.Int(lo):vt.Int(hi + 1)], '%s[%d:%d]' % (n, hi, lo), '%s[Int(%d):Int(%d)]' % (n, lo, hi + 1)))
    rng = [None] + list(range(-W, W + 1))
    for st in [None] + list(range(-W, W)):
        for sp in rng:
            for step in (None, 1, 2, 3, -1, -2):
                sel = bits[slice(st, sp, step)]
                if not sel:
                    continue
                t = '{%s}' % ', '.join('a[%d]' % k for k in reversed(sel))
                ex.append(E(lambda e, s=slice(st, sp, step): e['a'][s], t, 'a[%s:%s:%s]' % (st, sp, step)))
    compare(rec, ex, conf, 'width %d' % W)


def u_arrays(rec):
    """elements of arrays: mem[i], mem[i][j], negative element indices, bit of an element, parameters and hierarchical widths"""
    rec.function('_Variable._len', 'Pointer.get_width', 'Pointer._len', '_Numeric.__getitem__')
    cases = [
        ('m1[3]', lambda m1, m2, p, x: m1[3], 'm1[3]'), ('m1[-1]', lambda m1, m2, p, x: m1[-1], 'm1[15]'), ('m1[-16]', lambda m1, m2, p, x: m1[-16], 'm1[0]'),
        ('m1[x]', lambda m1, m2, p, x: m1[x], 'm1[x]'), ('m1[2][5]', lambda m1, m2, p, x: m1[2][5], 'm1[2][5]'),
        ('m1[2][-1]', lambda m1, m2, p, x: m1[2][-1], 'm1[2][7]'), ('m1[-2][-8]', lambda m1, m2, p, x: m1[-2][-8], 'm1[14][0]'),
        ('m2[1][2]', lambda m1, m2, p, x: m2[1][2], 'm2[1][2]'), ('m2[-1][-1]', lambda m1, m2, p, x: m2[-1][-1], 'm2[3][4]'),
        ('m2[x][-2]', lambda m1, m2, p, x: m2[x][-2], 'm2[x][3]'), ('m2[1][2][-1]', lambda m1, m2, p, x: m2[1][2][-1], 'm2[1][2][8]'),
        ('m2[1][-1][3]', lambda m1, m2, p, x: m2[1][-1][3], 'm2[1][4][3]'),
        ('list(m1)[-1]', lambda m1, m2, p, x: list(m1)[-1], 'm1[15]'), ('list(m2[1])[-1]', lambda m1, m2, p, x: list(m2[1])[-1], 'm2[1][4]'),
        ('list(m2[1][2])[-1]', lambda m1, m2, p, x: list(m2[1][2])[-1], 'm2[1][2][8]'),
        ('p[-1]', lambda m1, m2, p, x: p[-1], 'p[11]'), ('p[:4]', lambda m1, m2, p, x: p[:4], 'p[3:0]'), ('p[-4:]', lambda m1, m2, p, x: p[-4:], 'p[11:8]'),
    ]
    V.reset()
    m = V.Module('dut')
    x = m.Input('x', 2)
    p = m.Parameter('p', 0x5A3, 12)
    m1 = m.Reg('m1', 8, dims=16)
    m2 = m.Reg('m2', 9, dims=(4, 5))
    ok = []
    for what, f, t in cases:
        y = m.Output('y%d' % len(ok), 16)
        try:
            y.assign(f(m1, m2, p, x))
            ok.append((what, t))
        except Exception as ex:
            rec.holds('array %s' % what, False, repr(ex), dict(kind='array indexing', expression=what, declarations='m1: reg [7:0] x16, m2: reg [8:0] x4x5',
                      error=repr(ex), expected=t))
            ok.append((what, None))
            y.assign(0)
    T = m.to_verilog()
    import re
    src = dict(re.findall(r'assign (y\d+) = (.*);', T))
    for i, (what, t) in enumerate(ok):
        if t is not None:
            got = re.sub(r'\s', '', src['y%d' % i])
            # compared as element selections: the constant index expressions are evaluated
            def norm(s):
                return re.sub(r'\[([^\[\]]*)\]', lambda mm: '[%s]' % ':'.join(str(eval(q)) if re.match(r'^[-0-9+() ]+$', q) else q for q in mm.group(1).split(':')), s)
            rec.holds('array %s' % what, norm(got) == t, 'emitted %s, expected %s' % (got, t),
                      dict(kind='array indexing', expression=what, declarations='m1: reg [7:0] x16, m2: reg [8:0] x4x5, p: 12 bits', got=got, expected=t))


def u_paramwidth(rec):
    """a signal whose width is a parameter: the bounds are expressions"""
    rec.function('_Numeric.__getitem__')
    for W in (4, 7):
        V.reset()
        m = V.Module('dut')
        w = m.Parameter('W', W)
        a = m.Input('a', w)
        i = m.Input('i', 2)
        forms = [('a[-1]', a[-1], 'a[%d]' % (W - 1)), ('a[1:]', a[1:], 'a[%d:1]' % (W - 1)), ('a[:-1]', a[:-1], 'a[%d:0]' % (W - 2)),
                 ('a[-2:]', a[-2:], 'a[%d:%d]' % (W - 1, W - 2)), ('a[:]', a[:], 'a'), ('a[-3:-1]', a[-3:-1], 'a[%d:%d]' % (W - 2, W - 3)),
                 ('a[i]', a[i], 'a[i]'), ('a[w-2]', a[w - 2], 'a[%d]' % (W - 2)), ('a[:w-1]', a[:w - 1], 'a[%d:0]' % (W - 2)),
                 ('a[w-3:w]', a[w - 3:w], 'a[%d:%d]' % (W - 1, W - 3)), ('a[0:2]', a[0:2], 'a[1:0]'), ('a.slice', a.slice(w - 1, 1), 'a[%d:1]' % (W - 1))]
        ref = ['module refm(a, i, %s);' % ', '.join('y%d' % k for k in range(len(forms))), 'input [%d:0] a; input [1:0] i;' % (W - 1)]
        for k, (what, e, t) in enumerate(forms):
            m.Output('y%d' % k, 12).assign(e)
            ref.append('output [11:0] y%d; assign y%d = %s;' % (k, k, t))
        D, R = Design(m.to_verilog(), 'dut'), Design('\n'.join(ref + ['endmodule']), 'refm')
        alg = Z3Alg()
        env = {'a': z3.BitVec('a', W), 'i': z3.BitVec('i', 2)}
        h = [z3.ULT(env['i'], W)]
        cd, cr = D.ctx(alg, dict(env)), R.ctx(alg, dict(env))
        for k, (what, e, t) in enumerate(forms):
            rec.prove('parameter width %d: %s' % (W, what), cd.val('y%d' % k) == cr.val('y%d' % k), h,
                      on_fail=lambda mo, what=what, t=t, k=k: dict(kind='slice of a signal with parameter width', width=W, expression=what, expected=t,
                                                                  got=str(forms[k][1])))


def units(tier, seed):
    U = []

    def add(nm, f, *args):
        U.append(Unit(nm, lambda rec: f(rec, *args), timeout=600))
    for nm, conf in (('wide', CONF), ('narrow', CONF1)):
        for o in BINOPS:
            if nm == 'narrow' and o[0] in ('*', '/', '//', '%'):
                continue
            add('binary %s %s' % (o[0], nm), u_binary, o, conf, nm)
        add('functions %s' % nm, u_funs, conf, nm)
        add('unary and helpers %s' % nm, u_unary, conf, nm)
    for j in range(8):
        add('nested %d' % j, u_nest, j, 8, CONF)
    for j in range(6):
        add('deep %d' % j, u_deep, j, CONF)
    add('induction', u_induct)
    add('getitem symbolic', u_getitem_sym)
    for W in (1, 2, 3, 5, 8):
        add('getitem width %d' % W, u_getitem, W)
    add('arrays', u_arrays)
    add('parameter widths', u_paramwidth)
    return U


if __name__ == '__main__':
    main('C01', units, trusted=['lib/vsem.py (Verilog expression semantics)', 'z3', 'pyverilog parser and code generator', 'lib/pyvc.py (path enumeration)'],
         assumptions=['values are two-state', 'nesting: structural induction over the operator cases (pen and paper) on the discharged step obligations',
                      'indices and bounds within the signal; variable exponents of ** are covered by the induction step only',
                      'widths of the operands are enumerated; the emission code does not look at them'])
