"""C04: Compile-time evaluation agrees with the hardware."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpath
import ast, inspect, itertools, re, textwrap, traceback
import z3
import vsem, pyvc, equiv
from pyvc import explore
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.core.module as module
import veriloggen.resolver.resolver as resolver
import veriloggen.optimizer.optimizer as optimizer

N = 64       # wide enough for every product and shift of 32-bit values


# -------------------------------------------- integers as wide bit vectors --
def bv(x):
    if isinstance(x, (BInt, BBool)):
        return x.b()
    if isinstance(x, bool):
        return z3.BitVecVal(1 if x else 0, N)
    if isinstance(x, int):
        return z3.BitVecVal(x, N)
    raise pyvc.Opaque('not an integer: %r' % (x,))


def num(x):
    return isinstance(x, (int, BBool))


class BBool(object):
    """a symbolic truth value; testing it splits the path"""

    def __init__(self, t):
        self.t = t

    def b(self):
        return z3.If(self.t, z3.BitVecVal(1, N), z3.BitVecVal(0, N))

    def __bool__(self):
        return pyvc._eng[0].decide(self.t)

    def __int__(self): raise pyvc.Opaque('int() of a truth value')

    def __eq__(self, o): return BBool(z3.simplify(self.b() == bv(o))) if num(o) else False
    def __ne__(self, o): return BBool(z3.simplify(self.b() != bv(o))) if num(o) else True
    __hash__ = None
    def __xor__(self, o): return BInt(self.b() ^ bv(o))
    __rxor__ = __xor__
    def __and__(self, o): return BInt(self.b() & bv(o))
    __rand__ = __and__
    def __or__(self, o): return BInt(self.b() | bv(o))
    __ror__ = __or__


def _floordiv(a, b):
    q, r = z3.UDiv(absv(a), absv(b)), z3.URem(absv(a), absv(b))
    return z3.If((a < 0) == (b < 0), q, z3.If(r == 0, -q, -q - 1))


def _floormod(a, b):
    r = z3.URem(absv(a), absv(b))
    s = z3.If(b < 0, -r, r)
    return z3.If((a < 0) == (b < 0), s, z3.If(r == 0, r, b - s))


def absv(a):
    # an absolute value is recognised, so that equal quotients are equal terms
    if a.num_args() == 3 and a.decl().kind() == z3.Z3_OP_ITE and a.get_id() in _ABS:
        return a
    if z3.is_bv_value(a):
        return z3.simplify(z3.If(a < 0, -a, a))
    r = z3.simplify(z3.If(a < 0, -a, a))
    _ABS[r.get_id()] = r
    return r


_ABS = {}


class BInt(int):
    """an int whose value is a 64-bit two's complement term"""

    def __new__(cls, t):
        o = int.__new__(cls, 0x5ca1ab1e)
        o.t = z3.simplify(t)
        return o

    def b(self):
        return self.t

    def _op(self, o, f):
        return BInt(f(self.t, bv(o))) if num(o) else NotImplemented

    def _rop(self, o, f):
        return BInt(f(bv(o), self.t)) if num(o) else NotImplemented

    def _cmp(self, o, f):
        return BBool(z3.simplify(f(self.t, bv(o)))) if num(o) else NotImplemented

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rop(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rop(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rop(o, lambda a, b: a * b)

    @staticmethod
    def _nz(o):
        if BBool(z3.simplify(bv(o) == 0)):
            raise ZeroDivisionError()

    def __floordiv__(self, o):
        self._nz(o)
        return self._op(o, _floordiv)

    def __rfloordiv__(self, o):
        self._nz(self)
        return self._rop(o, _floordiv)

    def __mod__(self, o):
        self._nz(o)
        return self._op(o, _floormod)

    def __rmod__(self, o):
        self._nz(self)
        return self._rop(o, _floormod)

    def __divmod__(self, o): return self // o, self % o
    def __truediv__(self, o): raise pyvc.Opaque('true division')
    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        if isinstance(o, BInt):
            raise pyvc.Opaque('symbolic exponent')
        r = z3.BitVecVal(1, N)
        if o < 0:
            raise pyvc.Opaque('negative exponent')
        for _ in range(o):
            r = r * self.t
        return BInt(r)

    def __rpow__(self, o, m=None): raise pyvc.Opaque('symbolic exponent')
    def __neg__(self): return BInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return BInt(absv(self.t))
    def __invert__(self): return BInt(~self.t)

    @staticmethod
    def _sh(a, b, f):
        if not num(a) or not num(b):
            return NotImplemented
        if BBool(z3.simplify(bv(b) < 0)):
            raise ValueError('negative shift count')
        return BInt(f(bv(a), bv(b)))

    def __lshift__(self, o): return self._sh(self, o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._sh(o, self, lambda a, b: a << b)
    def __rshift__(self, o): return self._sh(self, o, lambda a, b: a >> b)
    def __rrshift__(self, o): return self._sh(o, self, lambda a, b: a >> b)
    def __and__(self, o): return self._op(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._op(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._op(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b) if num(o) else False
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b) if num(o) else True
    def __hash__(self): return id(self)      # visitors cache by identity
    def __bool__(self): return bool(BBool(z3.simplify(self.t != 0)))
    def __int__(self): raise pyvc.Opaque('int() of a symbolic integer')
    __trunc__ = __index__ = __float__ = __int__
    def bit_length(self): raise pyvc.Opaque('bit_length')

    def __str__(self):
        neg = bool(BBool(z3.simplify(self.t < 0)))
        k = 'k\u00b7%d\u00b7' % len(TOKENS)
        TOKENS.append(z3.simplify(-self.t if neg else self.t))
        return ('-' if neg else '') + k
    __repr__ = __str__
    def __format__(self, s): return str(self)


BInt.__name__ = 'int'
TOKENS = []


class _Lift(ast.NodeTransformer):
    def visit_Constant(self, n):
        return ast.copy_location(ast.Name('__true__' if n.value else '__false__', ast.Load()), n) if isinstance(n.value, bool) else n


def lifted(f):
    """the same function with the literals True and False as symbolic truth
    values (a Python bool on the left of ^ would not see a symbolic operand)"""
    t = ast.parse(textwrap.dedent(inspect.getsource(f)))
    t.body[0].decorator_list = []
    t = ast.fix_missing_locations(_Lift().visit(t))
    g = dict(f.__globals__, __true__=BBool(z3.BoolVal(True)), __false__=BBool(z3.BoolVal(False)))
    exec(compile(t, inspect.getsourcefile(f), 'exec'), g)
    return g[f.__name__]


def ivar(name):
    return BInt(z3.SignExt(N - 32, z3.BitVec(name, 32)))


# ------------------------------------------------- what Verilog makes of it --
def low(t, w):
    return z3.Extract(w - 1, 0, t)


ONE, ZERO = z3.BitVecVal(1, N), z3.BitVecVal(0, N)
B = lambda c: z3.If(c, ONE, ZERO)
in32 = lambda t: z3.And(t >= -(1 << 31), t < (1 << 31))


# (the four definitions above and below agree with z3's own bvsdiv, bvsrem and
# bvsmod: checked at 8 bits for every pair, unit 'division')
def tdiv(a, b):          # toward zero
    q = z3.UDiv(absv(a), absv(b))
    return z3.If((a < 0) == (b < 0), q, -q)


def trem(a, b):          # sign of the dividend
    r = z3.URem(absv(a), absv(b))
    return z3.If(a < 0, -r, r)


def vpow(a, k):
    """Verilog ** on integers (IEEE 1364 table 5-6)"""
    if k >= 0:
        r = ONE
        for _ in range(k):
            r = r * a
        return r, z3.BoolVal(True)
    neg1 = z3.BitVecVal(-1, N)
    return (z3.If(a == 1, ONE, z3.If(a == neg1, neg1 if k % 2 else ONE, ZERO)), a != 0)


BINARY = {   # class -> (value, condition under which it is defined in 32 bits)
    'Times': (lambda a, b: a * b, None),
    'Divide': (tdiv, lambda a, b: b != 0),
    'Mod': (trem, lambda a, b: b != 0),
    'Plus': (lambda a, b: a + b, None),
    'Minus': (lambda a, b: a - b, None),
    'Sll': (lambda a, b: a << b, lambda a, b: z3.And(b >= 0, b < 32)),
    'Srl': (lambda a, b: a >> b, lambda a, b: z3.And(b >= 0, b < 64, a >= 0)),
    'Sra': (lambda a, b: a >> b, lambda a, b: z3.And(b >= 0, b < 64)),
    'LessThan': (lambda a, b: B(a < b), None),
    'GreaterThan': (lambda a, b: B(a > b), None),
    'LessEq': (lambda a, b: B(a <= b), None),
    'GreaterEq': (lambda a, b: B(a >= b), None),
    'Eq': (lambda a, b: B(a == b), None),
    'NotEq': (lambda a, b: B(a != b), None),
    'Eql': (lambda a, b: B(a == b), None),
    'NotEql': (lambda a, b: B(a != b), None),
    'And': (lambda a, b: a & b, None),
    'Or': (lambda a, b: a | b, None),
    'Xor': (lambda a, b: a ^ b, None),
    'Xnor': (lambda a, b: ~(a ^ b), None),
    'Land': (lambda a, b: B(z3.And(a != 0, b != 0)), None),
    'Lor': (lambda a, b: B(z3.Or(a != 0, b != 0)), None),
}
TRUTH = {'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'Land', 'Lor', 'Ulnot',
         'Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor'}


def bits(a, w):
    return [z3.Extract(i, i, a) for i in range(w)]


def xorall(a, w):
    r = z3.BitVecVal(0, 1)
    for x in bits(a, w):
        r = r ^ x
    return r == 1


UNARY = {
    'Uplus': lambda a, w: a,
    'Uminus': lambda a, w: -a,
    'Unot': lambda a, w: ~a,
    'Ulnot': lambda a, w: B(a == 0),
    'Uand': lambda a, w: B(low(~a, w) == 0),
    'Unand': lambda a, w: B(low(~a, w) != 0),
    'Uor': lambda a, w: B(low(a, w) != 0),
    'Unor': lambda a, w: B(low(a, w) == 0),
    'Uxor': lambda a, w: B(xorall(a, w)),
    'Uxnor': lambda a, w: B(z3.Not(xorall(a, w))),
}
OPS = dict(list(BINARY.items()) + list(UNARY.items()))


def has_op(c):
    return isinstance(c, type) and 'op' in c.__dict__


def cexi(*names):
    def f(model):
        return {n: model.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in names}
    return f


# -------------------------------------------------- contracts of the op()s --
def same_value(a, b, exact):
    return (bv(a) == b) if exact else low(bv(a), 32) == low(b, 32)


def prove_op(rec, name, call, spec, hyps, names, concrete, exact=True):
    """every path of the real function returns the specified number"""
    try:
        paths = explore(call, hyps)
    except (pyvc.Opaque, AttributeError, TypeError) as ex:
        return bounded_op(rec, name, spec, hyps, names, concrete, ex)
    ok = True
    for i, (pc, r) in enumerate(paths):
        if isinstance(r, (pyvc.Opaque, AttributeError, TypeError)):
            return bounded_op(rec, name, spec, hyps, names, concrete, r)
        if isinstance(r, Exception) or not num(r):
            goal = z3.Implies(z3.And(*(list(hyps) + pc)), z3.BoolVal(False))
        else:
            goal = z3.Implies(z3.And(*(list(hyps) + pc)), same_value(r, spec, exact))

        def on_fail(model):
            v = cexi(*names)(model)
            try:
                got = concrete(v)
            except Exception as ex:
                got = repr(ex)
            want = model.eval(spec, model_completion=True).as_signed_long()
            if got != want:
                return dict(kind='op', function=name, arguments=v, returned=str(got), verilog=want)
            return None
        sv = z3.Solver()
        sv.add(z3.Not(goal))
        if sv.check() == z3.sat and on_fail(sv.model()) is None:
            # the real function returns the right number: the symbolic integers do not follow this body
            return bounded_op(rec, name, spec, hyps, names, concrete, 'the counterexample is not one of the real code')
        ok &= rec.prove('%s: path %d' % (name, i), goal, on_fail=on_fail)
    return ok


EDGES = [0, 1, 2, 3, 5, 6, 7, 8, 15, 16, 31, 32, 100, 255, 1 << 15, (1 << 30) + 5, (1 << 31) - 1, -1, -2, -3, -4, -7, -8, -100, -(1 << 15), -(1 << 31) + 1, -(1 << 31)]


def bounded_op(rec, name, spec, hyps, names, concrete, why):
    """a body the symbolic integers cannot run: all tuples of edge values instead
    (bounded, reported as such)"""
    ts = [ivar(n).t for n in names]
    n, hyp = 0, z3.And(list(hyps) + [z3.BoolVal(True)])
    for vs in itertools.product(EDGES if len(names) < 3 else EDGES[::4], repeat=len(names)):
        sub = [(z3.BitVec(x, 32), z3.BitVecVal(v, 32)) for x, v in zip(names, vs)]
        if not z3.is_true(z3.simplify(z3.substitute(hyp, *sub))):
            continue
        want = z3.simplify(z3.substitute(spec, *sub)).as_signed_long()
        n += 1
        try:
            got = concrete(dict(zip(names, vs)))
        except Exception as ex:
            got = repr(ex)
        if got != want:
            return rec.holds('%s: %s' % (name, dict(zip(names, vs))), False, 'returned %s' % (got,),
                             dict(kind='op', function=name, arguments=dict(zip(names, vs)), returned=str(got), verilog=want))
    rec.ran(name, 'edge values, the body is not within reach of symbolic integers: %s' % str(why)[:100], n)
    return True


def op_contracts(rec, which):
    a, b = ivar('a'), ivar('b')
    found = [c.__name__ for c in vars(vt).values() if has_op(c)]
    for nm in sorted(found):
        c = getattr(vt, nm)
        op = lifted(c.op)
        rec.function('vtypes.%s.op' % nm, 'veriloggen/core/vtypes.py')
        if nm in BINARY and which == 'binary':
            f, dom = BINARY[nm]
            spec = f(a.t, b.t)
            hyps = [in32(spec)] + ([dom(a.t, b.t)] if dom else [])
            prove_op(rec, '%s.op' % nm, lambda: op(a, b, 32, 32), spec, hyps, ('a', 'b'), lambda v: c.op(v['a'], v['b'], 32, 32))
        elif nm in UNARY and which == 'unary':
            for w in ((32,) if UNARY[nm](a.t, 32) is not None and nm in ('Uplus', 'Uminus', 'Unot', 'Ulnot') else (1, 2, 7, 31, 32)):
                spec = UNARY[nm](a.t, w)
                prove_op(rec, '%s.op, %d bits' % (nm, w), lambda: op(a, w), spec, [in32(spec)], ('a',), lambda v: c.op(v['a'], w))
        elif nm == 'Power' and which == 'power':
            for k in list(range(-3, 8)):
                spec, dom = vpow(a.t, k)
                # exponents up to 7: the base small enough for the result to fit 32 bits
                hyps = [dom, in32(spec)] + ([z3.And(a.t > -(1 << 12), a.t < (1 << 12))] if k > 1 else [])
                if k >= 0:
                    prove_op(rec, 'Power.op, exponent %d' % k, lambda: op(a, k, 32, 32), spec, hyps, ('a',), lambda v: c.op(v['a'], k, 32, 32))
                else:
                    bad = [(x, k, r, w) for x in list(range(-9, 0)) + list(range(1, 10)) for r, w in [(c.op(x, k, 32, 32), (1 if x == 1 else (-1) ** (-k) if x == -1 else 0))]
                           if r != w or isinstance(r, float)]
                    rec.holds('Power.op, exponent %d (bases -9..9)' % k, not bad, str(bad[:3]),
                              dict(kind='op', function='Power.op', cases=[str(x) for x in bad[:5]]) if bad else None)
        elif nm == 'Pointer' and which == 'select':
            for p in (0, 1, 5, 31):
                prove_op(rec, 'Pointer.op [%d]' % p, lambda: op(a, p), z3.ZeroExt(N - 1, z3.Extract(p, p, a.t)), [], ('a',),
                         lambda v: vt.Pointer.op(v['a'], p))
        elif nm == 'Slice' and which == 'select':
            for m, l in ((0, 0), (3, 0), (7, 4), (31, 0), (31, 31), (30, 1)):
                prove_op(rec, 'Slice.op [%d:%d]' % (m, l), lambda: op(a, m, l), z3.ZeroExt(N - (m - l + 1), z3.Extract(m, l, a.t)), [], ('a',),
                         lambda v: vt.Slice.op(v['a'], m, l))
        elif nm == 'Cat' and which == 'select':
            for ws in ((1,), (4,), (4, 8), (1, 1, 1), (8, 3, 5), (16, 16)):
                vs = [ivar('v%d' % i) for i in range(len(ws))]
                spec = z3.Concat(*[low(v.t, w) for v, w in zip(vs, ws)]) if len(ws) > 1 else low(vs[0].t, ws[0])
                prove_op(rec, 'Cat.op %s' % (ws,), lambda: op(list(vs), list(ws)), z3.ZeroExt(N - sum(ws), spec), [], ['v%d' % i for i in range(len(ws))],
                         lambda v: vt.Cat.op([v['v%d' % i] for i in range(len(ws))], list(ws)))
        elif nm == 'Repeat' and which == 'select':
            for w, n in ((1, 1), (1, 5), (4, 3), (8, 2), (32, 2)):
                one = low(a.t, w)
                spec = z3.Concat(*[one] * n) if n > 1 else one
                prove_op(rec, 'Repeat.op %d x %d bits' % (n, w), lambda: op(a, w, n), z3.ZeroExt(N - w * n, spec), [], ('a',),
                         lambda v: vt.Repeat.op(v['a'], w, n))
        elif nm == 'Cond' and which == 'select':
            cc = ivar('c')
            prove_op(rec, 'Cond.op', lambda: op(cc, a, b), z3.If(cc.t != 0, a.t, b.t), [], ('a', 'b', 'c'), lambda v: vt.Cond.op(v['c'], v['a'], v['b']))
        elif nm not in BINARY and nm not in UNARY and nm not in ('Power', 'Pointer', 'Slice', 'Cat', 'Repeat', 'Cond'):
            rec.holds('%s.op has a meaning' % nm, False, 'constant evaluation of an operator without a specification')


def division(rec):
    """the quotient and remainder used here are the SMT-LIB (IEEE 1364) ones"""
    a, b = z3.BitVecs('a b', 8)
    rec.prove('quotient toward zero is bvsdiv', z3.Implies(b != 0, tdiv(a, b) == a / b))
    rec.prove('remainder of the dividend sign is bvsrem', z3.Implies(b != 0, trem(a, b) == z3.SRem(a, b)))
    rec.prove('Python remainder is bvsmod', z3.Implies(b != 0, _floormod(a, b) == a % b))
    rec.prove("Python quotient is the floor",
              z3.Implies(z3.And(b != 0, z3.Not(z3.And(a == -128, b == -1))), _floordiv(a, b) * b + _floormod(a, b) == a))


# ------------------------------------------------------ the optimiser --
class KConst(optimizer.DFIntConst):
    """an integer literal of the data-flow tree whose digits stand for a
    symbolic integer (assumed of pyverilog: DFIntConst(str(n)).eval() == n)"""

    def __init__(self, v):
        self.value = 'k'
        self.k = v

    def eval(self):
        return self.k

    def width(self):
        return 32

    def __eq__(self, o):
        return self is o or (isinstance(o, KConst) and bool(self.k == o.k))

    def __ne__(self, o):
        return not self == o

    __hash__ = optimizer.DFNode.__hash__


VARS = ('x', 'y', 'u')       # x, y signed, u unsigned


class Shape(object):
    """an expression tree: leaves are names; k* are constants"""

    def __init__(self, op, *kids):
        self.op, self.kids = op, kids

    def build(self, env):
        return getattr(vt, self.op)(*[k.build(env) if isinstance(k, Shape) else env[k] for k in self.kids])

    def const(self):
        return all(k.const() if isinstance(k, Shape) else k[0] == 'k' for k in self.kids)

    def unsigned(self):
        if self.op in TRUTH:
            return True
        kids = self.kids[:1] if self.op in ('Sll', 'Srl', 'Sra', 'Power') else self.kids
        return any(k.unsigned() if isinstance(k, Shape) else k == 'u' for k in kids)

    def __str__(self):
        return '%s(%s)' % (self.op, ', '.join(map(str, self.kids)))


def val(s, env, dom):
    """number of a constant subtree; dom collects where 32-bit Verilog has it"""
    if not isinstance(s, Shape):
        return env[s].t if isinstance(env[s], BInt) else bv(env[s])
    vs = [val(k, env, dom) for k in s.kids]
    if s.op in UNARY:
        r = UNARY[s.op](vs[0], 32)
    elif s.op == 'Power':
        r, d = vpow(vs[0], env[s.kids[1]])
        dom.append(d)
    else:
        f, d = BINARY[s.op]
        if d:
            dom.append(d(*vs))
        r = f(*vs)
    dom.append(in32(r))
    if s.op in ('Plus', 'Minus', 'Times', 'Divide', 'Mod', 'Unot', 'Uminus', 'Xnor', 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Sra') \
            and any(isinstance(k, Shape) and k.unsigned() for k in s.kids):
        dom.append(z3.And([v >= 0 for v in vs]))
    if s.unsigned():
        dom.append(r >= 0)
    return r


def domain(s, env):
    """constant subtrees have their value in 32 bits; shift counts are in range"""
    dom = []

    def go(s):
        if not isinstance(s, Shape):
            return
        if s.const():
            val(s, env, dom)
            return
        for k in s.kids:
            go(k)
        if s.op in ('Sll', 'Srl', 'Sra') and (s.kids[1].const() if isinstance(s.kids[1], Shape) else s.kids[1][0] == 'k'):
            v = val(s.kids[1], env, [])
            dom.append(z3.And(v >= 0, v < 32))
        if s.op in ('Divide', 'Mod') and (s.kids[1].const() if isinstance(s.kids[1], Shape) else s.kids[1][0] == 'k'):
            v = val(s.kids[1], env, [])
            dom.append(v != 0)
            if s.op == 'Divide' and not (s.kids[0].unsigned() if isinstance(s.kids[0], Shape) else s.kids[0] == 'u'):
                # unit 'division by a power of two'
                pow2 = z3.And(v > 1, v & (v - 1) == 0)
                dom.append(z3.Implies(pow2, z3.BitVec(s.kids[0], 32) >= 0 if not isinstance(s.kids[0], Shape) else z3.BoolVal(False)))
    go(s)
    return z3.And(dom) if dom else z3.BoolVal(True)


def okshape(s):
    """a truth value that may turn out constant is an operand of && || ! or
    stands alone: Verilog has it as a 1-bit unsigned number, the optimiser as
    the integer 0 or 1"""
    if not isinstance(s, Shape):
        return True
    for k in s.kids:
        if isinstance(k, Shape):
            if k.op in TRUTH and s.op not in ('Land', 'Lor', 'Ulnot'):
                return False
            if not okshape(k):
                return False
    return True


def top(env):
    m = V.Module('opt')
    for n in VARS:
        env[n] = m.Input(n, 32, signed=(n != 'u'))
    env['z'] = m.Input('z', 32, signed=True)
    return m


CONTEXTS = (('p', '32 bits'), ('w', '40 bits'), ('c', 'in a comparison'))


def put(m, env, p, k, e, s):
    m.Output('%sp%d' % (p, k), 32, signed=True).assign(e)
    m.Output('%sw%d' % (p, k), 40, signed=True).assign(e)
    m.Output('%sc%d' % (p, k), 1).assign(vt.LessThan(e, env['z']) if s.op not in TRUTH else e)


def one(rec, s):
    """the optimised tree has the value of the tree, for every constant"""
    name = str(s)
    names = sorted({k for k in leaves(s) if k[0] == 'k'})
    env = {k: ivar(k) for k in names}
    hyp = domain(s, env)
    if z3.is_false(z3.simplify(hyp)):
        return

    def run():
        TOKENS[:] = []
        m = top(env)
        e = s.build(env)
        b = s.build(env)
        put(m, env, 'a', 0, e, s)
        try:
            r = optimizer.optimize(b)
        except pyvc.Opaque:
            raise
        except Exception:
            return None                   # try_optimize returns the tree itself
        put(m, env, 'b', 0, r, s)
        return m.to_verilog(), list(TOKENS)
    save = optimizer.DFIntConst
    optimizer.DFIntConst = _const
    optimizer.int = _int
    try:
        paths = explore(run, [hyp])
    except pyvc.Opaque as ex:
        return rec.holds('%s: within reach' % name, False, repr(ex))
    finally:
        optimizer.DFIntConst = save
        del optimizer.int
    for i, (pc, r) in enumerate(paths):
        if isinstance(r, Exception):
            rec.holds('%s: path %d' % (name, i), False, repr(r))
        elif r is not None:
            compare_opt(rec, '%s: path %d' % (name, i), r[0], r[1], z3.And([hyp] + pc), names, s)


def leaves(s):
    return [x for k in s.kids for x in (leaves(k) if isinstance(k, Shape) else [k])]


_real_const = optimizer.DFIntConst


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        return x if isinstance(x, BInt) else BInt(x.b()) if isinstance(x, BBool) else int(x, *a)


class _int(metaclass=_IMeta):
    """stands for the builtin int in the optimiser"""


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_const)

    def __call__(cls, v):
        m = re.fullmatch('(-?)k\u00b7(\\d+)\u00b7', v) if isinstance(v, str) else None
        if m is None:
            return _real_const(v)
        t = TOKENS[int(m.group(2))]
        return KConst(BInt(-t if m.group(1) else t))


class _const(metaclass=_Meta):
    """stands for DFIntConst in the optimiser"""


def compare_opt(rec, name, text, toks, hyp, names, s):
    text = re.sub("\\d*'sdk\u00b7(\\d+)\u00b7", lambda m: 'tok%s' % m.group(1), text)
    text = re.sub('k\u00b7(\\d+)\u00b7', lambda m: 'tok%s' % m.group(1), text)
    for n in sorted(set(re.findall(r'\btok\d+\b', text))):
        text = text.replace('input signed [32-1:0] z,', 'input signed [32-1:0] z,\n  input signed [32-1:0] %s,' % n, 1)
    D = vsem.Design(text, 'opt')
    ts = [n for n in D.inputs if n.startswith('tok')]
    num = lambda n: toks[int(n[3:])]
    c = D.ctx(equiv.FixedX(), dict({n: z3.BitVec(n, 32) for n in VARS + ('z',)}, **{n: low(num(n), 32) for n in ts}))
    # the literal of -2^31 is the negation of one that needs 33 bits: left out
    small = z3.And([num(n) < (1 << 31) for n in ts] or [z3.BoolVal(True)])
    rec.prove('%s: literals are the digits of 32-bit numbers' % name, z3.Implies(hyp, z3.And([z3.And(num(n) >= 0, num(n) <= (1 << 31)) for n in ts] or [z3.BoolVal(True)])))
    for o, what in CONTEXTS:
        def on_fail(model, o=o):
            v = {n: model.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in list(VARS) + ['z'] + names}
            return replay_opt(s, v, o)
        rec.prove('%s: %s' % (name, what), z3.Implies(z3.And(hyp, small), c.val('a%s0' % o) == c.val('b%s0' % o)), on_fail=on_fail)


def replay_opt(s, v, o):
    """tree and optimised tree in iverilog with these numbers"""
    env = {k: v[k] for k in leaves(s) if k[0] == 'k'}
    m = top(env)
    e, b = s.build(env), optimizer.try_optimize(s.build(env))
    put(m, env, 'a', 0, e, s)
    put(m, env, 'b', 0, b, s)
    t = m.to_verilog()
    tb = 'module tb; reg signed [31:0] x=%d, y=%d, z=%d; reg [31:0] u=%d; wire signed [31:0] ap0, bp0; wire signed [39:0] aw0, bw0; wire ac0, bc0;\n' % (
        v['x'], v['y'], v['z'], v['u'] & 0xffffffff) + 'opt dut(%s);\ninitial begin #1 $display("%%d %%d", a%s0, b%s0); end endmodule' % (
        ', '.join('.%s(%s)' % (n, n) for n in list(VARS) + ['z', 'ap0', 'aw0', 'ac0', 'bp0', 'bw0', 'bc0']), o, o)
    r = equiv.trace(t + '\n' + tb, 'tb')
    w = r.split()
    if len(w) != 2 or w[0] != w[1]:
        return dict(kind='expression', tree=str(s), values=v, original=str(e), optimised=str(b), context=dict(CONTEXTS)[o], iverilog_original_and_optimised=r[:400])
    return None


def shapes(part, thorough):
    bins = [n for n in BINARY if n in optimizer.operators or True]
    una = ['Uplus', 'Uminus', 'Unot', 'Ulnot']
    out = []
    if part == 'flat':
        for b in bins:
            for l, r in (('x', 'y'), ('x', 'x'), ('u', 'x'), ('x', 'k1'), ('k1', 'x'), ('u', 'k1'), ('k1', 'u'), ('k1', 'k2'), ('k1', 'k1')):
                out.append(Shape(b, l, r))
        for u in una:
            out += [Shape(u, 'x'), Shape(u, 'u'), Shape(u, 'k1')]
    elif part == 'nested':
        inner = [Shape(b, *p) for b in bins for p in (('x', 'y'), ('x', 'k1'), ('k1', 'x'), ('k1', 'k2'))]
        inner += [Shape(u, l) for u in una for l in ('x', 'k1')]
        for s in inner:
            for u in una:
                out.append(Shape(u, s))
            for b in bins:
                for o in ('x', 'k1', 'k3'):
                    out += [Shape(b, s, o), Shape(b, o, s)]
    elif part == 'logic':
        at = ['x', 'y', Shape('Ulnot', 'x'), Shape('Ulnot', 'y'), Shape('Unot', 'x'), Shape('Eq', 'x', 'k1'), Shape('Eq', 'k2', 'x'), Shape('Ulnot', Shape('Eq', 'x', 'k3')), 'k1',
              Shape('LessThan', 'x', 'y'), Shape('Land', 'x', 'y'), Shape('Land', Shape('Ulnot', 'x'), 'y'), Shape('Land', 'y', Shape('Ulnot', 'x')), Shape('Lor', 'x', 'y')]
        for o in ('Land', 'Lor', 'And', 'Or', 'Xor'):
            for a in at:
                for b in at:
                    out.append(Shape(o, a, b))
                    out.append(Shape('Plus', Shape(o, a, b), 'x'))
    return [s for s in out if okshape(s)]


KVALS = [0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 100, 1 << 30, (1 << 31) - 1, -1, -2, -3, -4, -8, -(1 << 31)]


MULDIV = {'Times', 'Divide', 'Mod', 'Power'}


def digits(s):
    """the optimiser looks at the digits of a factor or divisor"""
    return isinstance(s, Shape) and (s.op in MULDIV or any(digits(k) for k in s.kids))


def products(f):
    """products of two non-constant terms as an uninterpreted function of their
    operands: a weaker formula, so proving it proves f"""
    done = {}

    def go(t):
        if t.get_id() in done:
            return done[t.get_id()]
        kids = [go(k) for k in t.children()]
        if t.decl().kind() == z3.Z3_OP_BMUL and len(kids) == 2 and not any(z3.is_bv_value(z3.simplify(k)) for k in kids):
            g = z3.Function('product%d' % t.size(), t.sort(), t.sort(), t.sort())
            r = g(*kids)
        else:
            r = t.decl()(*kids) if kids else t
        done[t.get_id()] = r
        return r
    return go(f)


def abstracted(f):
    g = products(f)
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(z3.Not(g))
    return g if s.check() == z3.unsat else f


def times(s):
    return isinstance(s, Shape) and (s.op == 'Times' and not any(k.const() if isinstance(k, Shape) else k[0] == 'k' for k in s.kids) or any(times(k) for k in s.kids))


def many(rec, cases):
    """trees with these constants, all in one module: the optimised tree and the
    tree itself have the same value in every context"""
    env = {}
    m = top(env)
    todo = []
    for s, cv in cases:
        e = dict(env, **cv)
        dom = z3.simplify(domain(s, e))
        if z3.is_false(dom):
            continue
        a, b = s.build(e), s.build(e)
        try:
            r = optimizer.optimize(b)
        except Exception:
            continue                        # try_optimize returns the tree itself
        k = len(todo)
        put(m, env, 'a', k, a, s)
        put(m, env, 'b', k, r, s)
        todo.append((s, cv, dom))
    if not todo:
        return
    D = vsem.Design(m.to_verilog(), 'opt')
    c = D.ctx(equiv.FixedX(), {n: z3.BitVec(n, 32) for n in VARS + ('z',)})
    for k, (s, cv, dom) in enumerate(todo):
        for o, what in CONTEXTS:
            def on_fail(model, o=o, s=s, cv=cv):
                v = {n: model.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in list(VARS) + ['z']}
                return replay_opt(s, dict(v, **cv), o)
            f = z3.Implies(dom, c.val('a%s%d' % (o, k)) == c.val('b%s%d' % (o, k)))
            rec.prove('%s %s: %s' % (s, ', '.join('%s=%d' % x for x in sorted(cv.items())), what), abstracted(f) if times(s) else f, on_fail=on_fail)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def opt_unit(rec, part, i, n):
    for f in ('makeDFTree', 'optimize', 'makeASTTree', 'getOp', 'try_optimize'):
        rec.function('optimizer.%s' % f, 'veriloggen/optimizer/optimizer.py')
    cases = []
    for j, s in enumerate(shapes(part, rec.thorough)):
        if j % n != i:
            continue
        ks = sorted({k for k in leaves(s) if k[0] == 'k'})
        if (digits(s) or len(ks) > 2) and ks:
            flat = part == 'flat'
            pick = (sorted(set(KVALS + [1 << b for b in range(31)])) if len(ks) == 1 else KVALS) if flat else \
                   KVALS if rec.thorough and len(ks) == 1 else [0, 1, 2, 3, 8, -1, -2, -5] if len(ks) == 1 or rec.thorough else [0, 1, 2, -3, 8]
            if s.op == 'Power':
                pick = [k for k in pick if -4 <= k <= 4]
            cases += [(s, dict(zip(ks, vs))) for vs in itertools.product(pick, repeat=len(ks))]
        elif ks:
            one(rec, s)
        else:
            cases.append((s, {}))
    for c in chunks(cases, 40):
        many(rec, c)


# ----------------------------------------------------- resolver visitors --
class StubC(vt._Numeric):
    """a child the visitor turns into the constant v"""

    def __init__(self, v, w=32):
        vt._Numeric.__init__(self)
        self.v, self.w = v, w

    def get_width(self):
        return self.w


class StubV(vt._Numeric):
    """a child that stays as it is"""

    def __init__(self, w=32):
        vt._Numeric.__init__(self)
        self.w = w

    def get_width(self):
        return self.w


def visitor(base):
    class Vis(base):
        def visit_StubC(self, node):
            return node.v

        def visit_StubV(self, node):
            return node
    return Vis({})


FIELDS = {'Pointer': ('var', 'pos'), 'Slice': ('var', 'msb', 'lsb'), 'Cond': ('condition', 'true_value', 'false_value'), 'Repeat': ('var', 'times')}


class OpSpy(object):
    """records the call of the operator's constant evaluation"""

    def __init__(self, cls):
        self.cls, self.calls = cls, []

    def __enter__(self):
        self.save = self.cls.__dict__['op']
        self.cls.op = staticmethod(lambda *a: self.calls.append(a) or ('RESULT', a))
        return self

    def __exit__(self, *a):
        self.cls.op = self.save


def mk(nm, kids):
    c = getattr(vt, nm)
    if nm in ('Pointer', 'Slice'):
        n = c(vt.Reg(8, name='r'), *kids[1:])
        n.var = kids[0]
        return n
    return c(*kids)


def visitors(rec):
    """every expression visitor: children first, then the operator's own constant
    evaluation on the children's values and widths when all are constant;
    otherwise the node itself, with (ReplaceVisitor) exactly the constant
    children replaced"""
    names = sorted(list(BINARY) + ['Power'] + list(UNARY)) + ['Pointer', 'Slice', 'Cond', 'Repeat', 'Cat']
    for base in (resolver.ConstantVisitor, resolver.ReplaceVisitor, resolver.ForReplaceVisitor):
        for nm in names:
            cls = getattr(vt, nm)
            rec.function('%s.visit_%s' % (base.__name__, nm if nm in FIELDS or nm == 'Cat' else '__UnaryOperator' if nm in UNARY else '__BinaryOperator'), 'veriloggen/resolver/resolver.py')
            arity = 1 if nm in UNARY else 2 if nm in BINARY or nm == 'Power' else 3 if nm == 'Cat' else len(FIELDS[nm])
            fields = FIELDS.get(nm) or (('right',) if nm in UNARY else ('left', 'right') if nm != 'Cat' else None)
            for mask in itertools.product((0, 1), repeat=arity):
                kids = [StubC(object.__new__(object) if False else 1000 + i, 5 + i) if c else StubV(9 + i) for i, c in enumerate(mask)]
                what = '%s.%s%s' % (base.__name__, nm, list('vc'[c] for c in mask))
                try:
                    n = mk(nm, kids)
                    with OpSpy(cls) as spy:
                        r = visitor(base).visit(n)
                except Exception as ex:
                    rec.holds('%s: visited' % what, False, repr(ex), dict(kind='visitor', node=what, error=repr(ex)[:400]))
                    continue
                vals = [1000 + i for i in range(arity)]
                wid = [5 + i for i in range(arity)]
                if all(mask):
                    if nm == 'Cat':
                        ok = len(spy.calls) == 1 and list(spy.calls[0][0]) == vals and list(spy.calls[0][1]) == wid
                    elif nm == 'Repeat':
                        ok = spy.calls == [(vals[0], wid[0], vals[1])]
                    elif nm in FIELDS:
                        ok = spy.calls == [tuple(vals)]
                    else:
                        ok = spy.calls == [tuple(vals + wid)]
                    ok = ok and r == ('RESULT', spy.calls[0])
                    rec.holds('%s: the constant evaluation of the operator on the values and widths of the operands' % what, ok, str(spy.calls)[:300],
                              None if ok else dict(kind='visitor', node=what, calls=str(spy.calls)[:300]))
                    continue
                rec.holds('%s: not evaluated' % what, r is n and not spy.calls, repr(r)[:200], None if r is n and not spy.calls else dict(kind='visitor', node=what, returned=repr(r)[:200]))
                if nm == 'Cat':
                    got = list(n.vars)
                else:
                    got = [getattr(n, f) for f in fields]
                keep = base is resolver.ConstantVisitor
                bad = []
                for i, (g, k, c) in enumerate(zip(got, kids, mask)):
                    if g is k:
                        continue
                    if keep or not c or not (g == 1000 + i or (isinstance(g, vt.Int) and g.value == 1000 + i and nm == 'Cat' and g.width == wid[i])):
                        bad.append((i, repr(g)[:60]))
                rec.holds('%s: operands kept, or replaced by their value' % what, not bad, str(bad), dict(kind='visitor', node=what, operands=str(bad)) if bad else None)
    # leaves
    rec.function('ConstantVisitor._visit_param', 'veriloggen/resolver/resolver.py')
    for base in (resolver.ConstantVisitor, resolver.ReplaceVisitor, resolver.ForReplaceVisitor):
        for cls in (vt.Parameter, vt.Localparam, vt.AnyType):
            mkv = (lambda n: vt.AnyType(name=n)) if cls is vt.AnyType else (lambda n: cls(3, name=n))
            a, b = mkv('A'), mkv('B')
            v = base({'A': 77})
            ok = v.visit(a) == 77 and v.visit(b) is b
            rec.holds('%s.%s: the value of its name, itself when it has none' % (base.__name__, cls.__name__), ok, '', None if ok else dict(kind='visitor', node=cls.__name__))
        for cls in (vt.Reg, vt.Wire, vt.Input, vt.Integer, vt.Genvar):
            a = cls(8, name='A') if cls not in (vt.Integer, vt.Genvar) else cls(name='A')
            want = base is resolver.ForReplaceVisitor
            r = base({'A': 77}).visit(a)
            ok = (r == 77 and not isinstance(r, vt.VeriloggenNode)) if want else r is a
            rec.holds('%s.%s: %s' % (base.__name__, cls.__name__, 'the loop variable is its value' if want else 'a signal stays a signal'), ok, repr(r)[:100], None if ok else dict(kind='visitor', node=cls.__name__))


# ------------------------------------------------------- resolved designs --
def d_ops(P, Q):
    """every operator in a local parameter, a width and an expression"""
    m = V.Module('top')
    A, Bq = m.Parameter('A', P), m.Parameter('B', Q)
    x = m.Input('x', 8, signed=True)
    k = 0
    for nm in list(BINARY) + ['Power']:
        if nm in ('Divide', 'Mod') and Q == 0 or nm in ('Sll', 'Srl', 'Sra') and not (0 <= Q < 20) or nm == 'Srl' and P < 0:
            continue
        if nm == 'Power' and not 0 <= Q < 6:
            continue
        c = getattr(vt, nm)
        L = m.Localparam('L%d' % k, c(A, Bq))
        o = m.Output('o%d' % k, 40, signed=True)
        o.assign(vt.Plus(L, x) if nm not in TRUTH else L)
        e = m.Output('e%d' % k, 40, signed=True)
        e.assign(vt.Plus(c(A, Bq), x) if nm not in TRUTH else c(A, Bq))
        k += 1
    for nm in UNARY:
        c = getattr(vt, nm)
        L = m.Localparam('L%d' % k, c(A))
        o = m.Output('o%d' % k, 40, signed=True)
        o.assign(vt.Plus(L, x) if nm not in TRUTH else L)
        k += 1
    o = m.Output('s0', 32, signed=True)
    o.assign(vt.Mux(A > Bq, A - x, Bq + x))
    return m


def d_widths():
    m = V.Module('top')
    W = m.Parameter('W', 6)
    D = m.Parameter('D', vt.Int(1) << 2)
    H = m.Localparam('H', W // 2 + D)
    L = m.Localparam('L', vt.Mux(H > 5, H, W))
    clk = m.Input('CLK')
    a = m.Input('a', W)
    o = m.OutputReg('o', W + 4)
    b = m.Wire('b', H)
    b.assign(vt.Cat(a, a))
    c = m.Reg('c', L + 1)
    mem = m.Reg('mem', W, D)
    t = m.Wire('t', W * 2)
    t.assign(vt.Cat(a, vt.Repeat(b[0], W)))
    m.Always(vt.Posedge(clk))(
        mem[a[1:0] if False else vt.Slice(a, D - 3, 0)](t),
        c(b + W),
        o(vt.Slice(t, W - 1, H - 2) + c + mem[vt.Slice(b, 1, 0)] + b[D - 1])
    )
    return m


def d_select():
    """bits of parameters, concatenations with parameters, parameters as indexes"""
    m = V.Module('top')
    A = m.Parameter('A', 0xa5)
    N_ = m.Parameter('N', 3)
    S = m.Parameter('S', 5, width=4)
    i = m.Input('i', 3)
    x = m.Input('x', 8)
    m.Output('o0', 1).assign(A[i])
    m.Output('o1', 1).assign(x[N_])
    m.Output('o2', 1).assign(A[N_])
    m.Output('o3', 4).assign(vt.Slice(A, N_ + 2, N_ - 1))
    m.Output('o4', 4).assign(vt.Slice(x, N_ + 2, N_ - 1))
    m.Output('o5', 12).assign(vt.Cat(x, S))
    m.Output('o6', 12).assign(vt.Repeat(vt.Slice(x, 3, 0), N_))
    m.Output('o7', 12).assign(vt.Repeat(S, N_))
    return m


def d_statements():
    m = V.Module('top')
    A = m.Parameter('A', 3)
    B_ = m.Localparam('B', A * 2 + 1)
    clk, rst = m.Input('CLK'), m.Input('RST')
    x = m.Input('x', 4)
    r = m.OutputReg('r', 8)
    q = m.OutputReg('q', 8)
    s = m.OutputReg('s', 8)
    w = m.OutputReg('w', 8)
    m.Always(vt.Posedge(clk))(
        vt.If(rst)(r(A), q(B_)).Elif(x == A)(r(r + B_), vt.If(x > B_)(q(1)).Else(q(A - 1))).Elif(x == B_)(r(0)).Else(
            vt.If(A > 2)(r(r - A)).Else(r(A))))
    m.Always(vt.Posedge(clk))(
        vt.Case(x)(vt.When(A)(s(s + A)), vt.When(B_, A + 1)(s(B_ - 1)), vt.When()(s(x + B_))))
    m.Always()(vt.Case(x[0])(vt.When(1)(w(A, blk=True)), vt.When(0)(w(x * B_, blk=True))))
    return m


def d_casex():
    m = V.Module('top')
    A = m.Parameter('A', 3)
    x = m.Input('x', 4)
    w = m.OutputReg('w', 8)
    m.Always()(vt.Casex(x)(vt.When(vt.Int("4'b1xx0"))(w(A, blk=True)), vt.When(A + 1)(w(A + 7, blk=True)), vt.When()(w(x - A, blk=True))))
    return m


def d_for(start=0, step=1, nest=False):
    m = V.Module('top')
    W = m.Parameter('W', 4)
    clk, rst = m.Input('CLK'), m.Input('RST')
    x = m.Input('x', 8)
    o = m.OutputReg('o', 16)
    p = m.OutputReg('p', 16)
    mem = m.Reg('mem', 8, W)
    i, j = m.Integer('i'), m.Integer('j')
    m.Always(vt.Posedge(clk))(
        vt.If(rst)(vt.For(i(start), i < W, i.add(step))(mem[i](i + W))).Else(
            vt.For(i(start), i < W, i(i + step))(vt.If(x > i)(mem[i](x + i)).Else(mem[i](mem[(i + 1) % W])))))
    m.Always(vt.Posedge(clk))(
        o(0, blk=True),
        vt.For(i(start), i < W, i(i + step))(
            o(o + mem[i], blk=True), *([vt.For(j(0), j < i, j.inc())(o(o ^ (x << (i - j)), blk=True))] if nest else [])))
    m.Always(vt.Posedge(clk))(
        vt.For(i(W - 1), i >= 0, i.dec())(vt.If(x[i])(p(i * W))))
    return m


def d_hier(pa, pb, named=True):
    inner = V.Module('inner')
    K = inner.Parameter('K', 2)
    W = inner.Parameter('W', 8)
    KW = inner.Localparam('KW', K + W)
    a = inner.Input('a', W)
    y = inner.Output('y', W)
    y.assign(a * K + KW)
    mid = V.Module('mid')
    K = mid.Parameter('K', 3)
    a = mid.Input('a', 8)
    y = mid.Output('y', 8)
    t = mid.Wire('t', 8)
    mid.Instance(inner, 'u', params=[('K', K - 1)], ports=[('a', a), ('y', t)])
    y.assign(t + K)
    m = V.Module('top')
    P = m.Parameter('P', 5)
    a = m.Input('a', 8)
    y0, y1, y2, y3 = [m.Output('y%d' % i, 8) for i in range(4)]
    m.Instance(mid, 'm0', params=[('K', P + pa)], ports=[('a', a), ('y', y0)])
    m.Instance(mid, 'm1', params=[('K', pb)], ports=[('a', a), ('y', y1)])
    m.Instance(mid, 'm2', ports=[('a', a + P), ('y', y2)])
    m.Instance(inner, 'i0', params=[('K', P), ('W', 8)] if named else [(None, P), (None, 8)], ports=[('a', a), ('y', y3)])
    return m


def d_generate(same):
    """a generate block keeps its instances; the same module is instantiated outside too"""
    sub = V.Module('sub')
    K = sub.Parameter('K', 2)
    a = sub.Input('a', 8)
    y = sub.Output('y', 8)
    y.assign(a + K)
    m = V.Module('top')
    P = m.Parameter('P', 3)
    a = m.Input('a', 8)
    y = m.Output('y', 8)
    z = m.Output('z', 16)
    g = m.Genvar('g')
    gf = m.GenerateFor(g(0), g < 2, g.inc(), scope='blk')
    gf.Instance(sub, 'u', params=[('K', g + P)], ports=[('a', a), ('y', vt.Slice(z, g * 8 + 7, g * 8))])
    if same:
        m.Instance(sub, 'v', params=[('K', P + 4)], ports=[('a', a), ('y', y)])
    else:
        y.assign(a - P)
    gi = m.GenerateIf(P > 2, scope='gi')
    w = gi.Wire('w', P)
    gi.Assign(w(a))
    return m


def d_function():
    m = V.Module('top')
    P = m.Parameter('P', 3)
    a = m.Input('a', 8)
    y = m.Output('y', 8)
    f = m.Function('f', 8)
    i = f.Input('i', 8)
    f.Body(f(i + P))
    y.assign(f.call(a * P))
    return m


def d_loop_after():
    """statements around a resolved loop, and a loop whose bound is a signal"""
    m = V.Module('top')
    W = m.Parameter('W', 3)
    clk = m.Input('CLK')
    x = m.Input('x', 8)
    o = m.OutputReg('o', 8)
    n = m.OutputReg('n', 8)
    i = m.Integer('i')
    m.Always(vt.Posedge(clk))(
        n(x), o(W, blk=True),
        vt.For(i(0), i < W, i.inc())(o(o + (x >> i), blk=True)),
        o(o * W))
    return m


DESIGNS = {'widths': d_widths, 'select': d_select, 'statements': d_statements, 'casex': d_casex, 'function': d_function, 'around a loop': d_loop_after,
           'generate': lambda: d_generate(False), 'generate and instance': lambda: d_generate(True),
           'hierarchy': lambda: d_hier(1, 7), 'hierarchy, equal parameters': lambda: d_hier(0, 5), 'hierarchy, parameters in order': lambda: d_hier(1, 7, False),
           'loop': d_for, 'loop from 1': lambda: d_for(1), 'loop by 2': lambda: d_for(0, 2), 'nested loops': lambda: d_for(0, 1, True)}
for _p in (0, 1, 7, -3, -8):
    for _q in (1, 2, 3, -2, -1):
        DESIGNS['operators %d, %d' % (_p, _q)] = lambda _p=_p, _q=_q: d_ops(_p, _q)


def resolved(rec, *names):
    for f in ('resolve', 'ModuleReplaceVisitor.*', 'ReplaceVisitor.*', 'ConstantVisitor.*', 'ForReplaceVisitor.visit__Variable'):
        rec.function('resolver.%s' % f, 'veriloggen/resolver/resolver.py')
    for n in names:
        m = DESIGNS[n]()
        ref = m.to_verilog()
        try:
            t = resolver.resolve(DESIGNS[n]()).to_verilog()
        except Exception as ex:
            t = ex
        equiv.compare(rec, n, t, ref, 'top', 'resolved design: %s' % n, ignore=('i', 'j'), sensitivity=not n.startswith('hier') and 'instance' not in n)


def div_pow2(rec):
    """the optimiser turns a division by a power of two into an arithmetic right
    shift, which is another number when the dividend is negative: its own unit,
    so that the obligations of every other tree stay exact"""
    rec.function('optimizer.optimize', 'veriloggen/optimizer/optimizer.py')
    for x in VARS:
        env = {}
        m = top(env)
        for k in range(1, 31):
            s = Shape('Divide', x, 'k1')
            e = dict(env, k1=1 << k)
            put(m, env, 'a', k, s.build(e), s)
            put(m, env, 'b', k, optimizer.optimize(s.build(e)), s)
        D = vsem.Design(m.to_verilog(), 'opt')
        c = D.ctx(equiv.FixedX(), {n: z3.BitVec(n, 32) for n in VARS + ('z',)})
        neg = z3.BitVec(x, 32) < 0
        for o, what in CONTEXTS:
            same = z3.And([c.val('a%s%d' % (o, k)) == c.val('b%s%d' % (o, k)) for k in range(1, 31)])
            def on_fail(model, o=o, s=s, x=x):
                for k in range(1, 31):
                    v = {n: model.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in list(VARS) + ['z']}
                    r = replay_opt(s, dict(v, k1=1 << k), o)
                    if r:
                        return r
                return None
            if x == 'u':
                rec.prove('u / 2**k: %s' % what, same, on_fail=on_fail)
            else:
                rec.prove('%s / 2**k, %s >= 0: %s' % (x, x, what), z3.Implies(z3.Not(neg), same), on_fail=on_fail)
                rec.prove('%s / 2**k, %s < 0: %s' % (x, x, what), z3.Implies(neg, same), on_fail=on_fail)


UNITS = [Unit('division', division), Unit('division by a power of two', div_pow2)] + [Unit('op() %s' % w, op_contracts, (w,), timeout=600) for w in ('binary', 'unary', 'power', 'select')]
UNITS += [Unit('resolver visitors', visitors)]
UNITS += [Unit('resolved: %s' % n, resolved, (n,), timeout=400) for n in DESIGNS if not n.startswith('operators')]
UNITS += [Unit('resolved: operators %d' % k, resolved, tuple(n), timeout=400) for k, n in enumerate(chunks([n for n in DESIGNS if n.startswith('operators')], 5))]
UNITS += [Unit('optimiser flat', opt_unit, ('flat', 0, 1), timeout=800)]
UNITS += [Unit('optimiser nested %d' % i, opt_unit, ('nested', i, 12), timeout=800) for i in range(12)]
UNITS += [Unit('optimiser logic %d' % i, opt_unit, ('logic', i, 3), timeout=800) for i in range(3)]

if __name__ == '__main__':
    sys.exit(main('C04', UNITS,
                  ['pyverilog optimizer (executed, its result is what is proved)', 'pyverilog parser', 'lib/vsem.py Verilog semantics (cross-checked with iverilog)', 'lib/pyvc.py symbolic integers', 'z3', 'iverilog'],
                  ['32-bit integer values: no intermediate number of the constant expression leaves the signed 32-bit range',
                   'logical right shift of nonnegative numbers only, shift counts from 0 to 31, divisors not zero',
                   'a truth value that may turn out constant is an operand of && || ! or the whole expression',
                   'parameters without an explicit width (their width is lost when they are resolved); loop variables used only in their loop',
                   'DFIntConst(str(n)).eval() == n (the symbolic constant of the optimiser units stands for it)',
                   'trees of depth two compose to any depth (a subtree enters its parent only through its value, width, sign and node type)']))
