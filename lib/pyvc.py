"""Path-complete symbolic execution of real Python functions on symbolic
integers.  SymInt is an int subclass (isinstance(x, int) holds), its operators
build z3 terms, and every truth test of a symbolic comparison splits the path:
explore() re-runs the function once per feasible decision sequence, so for a
loop-free function the set of paths is complete and each one yields a VC."""
import vpath
import z3


class PathLimit(Exception):
    pass


class Opaque(Exception):
    """the code needed the concrete value of a symbolic integer"""


class _Engine(object):
    def __init__(self, hyps, limit):
        self.hyps, self.limit = list(hyps), limit
        self.trail, self.pos, self.pc = [], 0, []

    def start(self):
        self.pos, self.pc = 0, []

    def feasible(self, c):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.hyps)
        s.add(*self.pc)
        s.add(c)
        return s.check() != z3.unsat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            v = t
            self.trail.append([v, t and f])     # value, other side still open
        self.pos += 1
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def advance(self):
        del self.trail[self.pos:]
        while self.trail and not self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1] = [not self.trail[-1][0], False]
        return True


_eng = [None]


def explore(fn, hyps=(), limit=2000):
    """-> list of (path condition, result or exception)"""
    e = _Engine(hyps, limit)
    out = []
    while True:
        e.start()
        _eng[0] = e
        try:
            r = fn()
        except (PathLimit, Opaque):
            raise
        except Exception as x:
            r = x
        finally:
            _eng[0] = None
        out.append((list(e.pc), r))
        if len(out) > limit:
            raise PathLimit('more than %d paths' % limit)
        if not e.advance():
            return out


def term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Opaque('not an integer: %r' % (x,))


def is_intlike(x):
    return isinstance(x, (int, SymBool))


class SymBool(object):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _eng[0].decide(self.t)

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(z3.And(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(o)))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(z3.Or(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(o)))
        return self._i() | o
    __ror__ = __or__

    def __eq__(self, o): return self._i() == o
    def __ne__(self, o): return self._i() != o
    def __hash__(self): raise Opaque('hash of a symbolic value')
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __int__(self): raise Opaque('int() of a symbolic value')
    def __index__(self): raise Opaque('index of a symbolic value')


def _floordiv(a, b):
    # Python floor division on z3 integers (z3 div is Euclidean)
    q = a / b
    r = a - b * q
    return z3.If(z3.And(b < 0, r != 0), q - 1, q)


def _pow2(n):
    r = z3.IntVal(0)
    for i in range(POW_MAX, -1, -1):
        r = z3.If(n == i, z3.IntVal(1 << i), r)
    return r


POW_MAX = 130


class SymInt(int):
    """an int whose value is a z3 integer term"""

    def __new__(cls, t):
        o = int.__new__(cls, 0x5EED)
        o.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
        return o

    def _b(self, o, f):
        if not is_intlike(o):
            return NotImplemented
        return SymInt(z3.simplify(f(self.t, term(o))))

    def _rb(self, o, f):
        if not is_intlike(o):
            return NotImplemented
        return SymInt(z3.simplify(f(term(o), self.t)))

    def _c(self, o, f):
        if not is_intlike(o):
            return NotImplemented
        return SymBool(f(self.t, term(o)))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rb(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rb(o, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rb(o, lambda a, b: a * b)
    def _nz(self, b):
        if SymBool(term(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    def __floordiv__(self, o):
        if not is_intlike(o): return NotImplemented
        self._nz(o)
        return self._b(o, _floordiv)
    def __rfloordiv__(self, o):
        if not is_intlike(o): return NotImplemented
        self._nz(self)
        return self._rb(o, _floordiv)
    def __mod__(self, o):
        if not is_intlike(o): return NotImplemented
        self._nz(o)
        return self._b(o, lambda a, b: a - b * _floordiv(a, b))
    def __rmod__(self, o):
        if not is_intlike(o): return NotImplemented
        self._nz(self)
        return self._rb(o, lambda a, b: a - b * _floordiv(a, b))
    def __divmod__(self, o): return self // o, self % o
    def __truediv__(self, o): raise Opaque('true division of a symbolic integer')
    def __rtruediv__(self, o): raise Opaque('true division of a symbolic integer')
    def __pow__(self, o, m=None):
        if not isinstance(o, SymInt) and isinstance(o, int) and 0 <= o <= 64 and m is None:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return SymInt(z3.simplify(r))
        raise Opaque('power of a symbolic integer')
    def __rpow__(self, o, m=None):
        if o == 2:
            return SymInt(_pow2(self.t))
        raise Opaque('power of a symbolic integer')
    def __neg__(self): return SymInt(z3.simplify(-self.t))
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t < 0, -self.t, self.t))
    def __invert__(self): return SymInt(z3.simplify(-self.t - 1))
    def __lshift__(self, o): return self._shl(self, o)
    def __rlshift__(self, o): return self._shl(o, self)
    def __rshift__(self, o): return self._shr(self, o)
    def __rrshift__(self, o): return self._shr(o, self)

    @staticmethod
    def _shl(a, b):
        if not is_intlike(a) or not is_intlike(b):
            return NotImplemented
        if SymBool(term(b) < 0):
            raise ValueError('negative shift count')
        if not isinstance(b, SymInt):
            return SymInt(z3.simplify(term(a) * (1 << int(b))))
        return SymInt(term(a) * _pow2(term(b)))

    @staticmethod
    def _shr(a, b):
        if not is_intlike(a) or not is_intlike(b):
            return NotImplemented
        if SymBool(term(b) < 0):
            raise ValueError('negative shift count')
        if not isinstance(b, SymInt):
            return SymInt(z3.simplify(_floordiv(term(a), z3.IntVal(1 << int(b)))))
        return SymInt(_floordiv(term(a), _pow2(term(b))))

    # bitwise operators through a wide two's complement vector
    @staticmethod
    def _bits(a, b, f):
        if not is_intlike(a) or not is_intlike(b):
            return NotImplemented
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, (SymInt, SymBool)) and x >= 0 and (x & (x + 1)) == 0 and f is _and:
                return SymInt(z3.simplify(term(y) - (x + 1) * (term(y) / z3.IntVal(x + 1))))   # y mod 2^k
        va, vb = z3.Int2BV(term(a), BITS), z3.Int2BV(term(b), BITS)
        return SymInt(z3.BV2Int(f(va, vb), is_signed=True))

    def __and__(self, o): return self._bits(self, o, _and)
    def __rand__(self, o): return self._bits(o, self, _and)
    def __or__(self, o): return self._bits(self, o, _or)
    def __ror__(self, o): return self._bits(o, self, _or)
    def __xor__(self, o): return self._bits(self, o, _xor)
    def __rxor__(self, o): return self._bits(o, self, _xor)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return SymBool(self.t == term(o))

    def __ne__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return SymBool(self.t != term(o))

    def __hash__(self): raise Opaque('hash of a symbolic integer')
    def __bool__(self): return bool(SymBool(self.t != 0))
    def __int__(self): raise Opaque('int() of a symbolic integer')
    def __trunc__(self): raise Opaque('trunc of a symbolic integer')
    def __index__(self): raise Opaque('a concrete value of a symbolic integer is needed')
    def __float__(self): raise Opaque('float of a symbolic integer')
    def bit_length(self):
        a = z3.If(self.t < 0, -self.t, self.t)
        r = z3.IntVal(BITS)
        for k in range(BITS - 1, -1, -1):
            r = z3.If(a < (1 << k), z3.IntVal(k), r)
        return SymInt(r)
    def __str__(self): return token(self, 10)
    __repr__ = __str__
    def __format__(self, spec):
        base = {'': 10, 'd': 10, 'x': 16, 'o': 8, 'b': 2}.get(spec)
        if base is None:
            raise Opaque('format of a symbolic integer')
        return token(self, base)


BITS = 160
def _and(a, b): return a & b
def _or(a, b): return a | b
def _xor(a, b): return a ^ b


# text of a symbolic integer: an opaque token for its digits
_tokens = {}


def token(x, base):
    neg = bool(SymBool(x.t < 0))
    t = -x.t if neg else x.t
    k = '\u27e6%d\u27e7' % len(_tokens)
    _tokens[k] = (z3.simplify(t), base)
    return ('-' if neg else '') + {10: '', 16: '', 8: '', 2: ''}[base] + k


def token_value(k):
    return _tokens[k]


def sym_bin(x): return _pre(x, 2, '0b') if isinstance(x, SymInt) else bin(x)
def sym_hex(x): return _pre(x, 16, '0x') if isinstance(x, SymInt) else hex(x)
def sym_oct(x): return _pre(x, 8, '0o') if isinstance(x, SymInt) else oct(x)


def _pre(x, base, p):
    s = token(x, base)
    return '-' + p + s[1:] if s.startswith('-') else p + s


def var(name):
    return SymInt(z3.Int(name))


SymInt.__name__ = 'int'   # visitors dispatch on the class name


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if not a and isinstance(x, SymInt):
            return x
        if not a and isinstance(x, SymBool):
            return x._i()
        return int(x, *a)


class sym_int(metaclass=_IntMeta):
    """stands for the builtin int in a module under symbolic execution"""
