"""vsem: a definitional semantics of the synthesizable Verilog-2005 subset that
veriloggen emits, parameterised over a value algebra.

The input is Verilog *text* (what veriloggen really emits); it is parsed with
pyverilog's parser, elaborated (parameters, instances, functions, generate-if /
constant generate-for) and turned into a synchronous transition system:

    D = Design(text, top)
    D.inputs, D.state           names
    ctx = D.ctx(alg, env)       env: state and input name -> value
    ctx.val(name)               value of any net or register in that cycle
    ctx.next()                  dict: next value of every state element

The width and sign rules are those of IEEE 1364-2005 section 5.4/5.5.  Values
are two-state; every place where Verilog would produce x (out-of-range array or
bit select, division by zero, undriven net, uninitialised register) yields an
unconstrained fresh value, so a proof covers whatever hardware does there.
"""
import os
import tempfile
import atexit
import shutil
import z3

import pyverilog.vparser.parser as vparser
import pyverilog.vparser.ast as va


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- parser ----
_parser = [None]


def parse(text):
    if _parser[0] is None:
        d = tempfile.mkdtemp(prefix='vsem_ply_')
        try:
            _parser[0] = vparser.VerilogParser(outputdir=d, debug=False)
            _parser[0].parse('module __warm(); endmodule')
        finally:
            shutil.rmtree(d, True)
    p = _parser[0]
    p.lexer.lexer.lineno = 1
    lines = [l for l in text.split('\n') if not l.strip().startswith('`')]
    try:
        return p.parse('\n'.join(lines))
    except Exception as e:
        # a fresh parser: the old one may be left in a broken lexer state
        _parser[0] = None
        raise


# --------------------------------------------------------------- algebras ----
class Z3Alg(object):
    """Symbolic values: z3 bit vectors."""
    symbolic = True

    def __init__(self):
        self.nfresh = 0

    def fresh(self, w, hint='x'):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (hint, self.nfresh), w)

    def const(self, v, w):
        return z3.BitVecVal(v, w)

    def width(self, a):
        return a.size()

    def ext(self, a, w, signed):
        n = a.size()
        if n == w:
            return a
        if n > w:
            return z3.Extract(w - 1, 0, a)
        return z3.SignExt(w - n, a) if signed else z3.ZeroExt(w - n, a)

    def b2v(self, b):
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def and_(self, a, b): return a & b
    def or_(self, a, b): return a | b
    def xor(self, a, b): return a ^ b
    def not_(self, a): return ~a
    def neg(self, a): return -a

    def div(self, a, b, s):
        z = b == z3.BitVecVal(0, b.size())
        q = (a / b) if s else z3.UDiv(a, b)
        if z3.is_bv_value(b) and b.as_long() != 0:
            return q
        return z3.If(z, self.fresh(a.size(), 'divx'), q)

    def mod(self, a, b, s):
        z = b == z3.BitVecVal(0, b.size())
        q = z3.SRem(a, b) if s else z3.URem(a, b)
        if z3.is_bv_value(b) and b.as_long() != 0:
            return q
        return z3.If(z, self.fresh(a.size(), 'modx'), q)

    def shift(self, a, b, kind):
        # b self-determined unsigned, any width
        w = max(a.size(), b.size())
        aa = z3.SignExt(w - a.size(), a) if kind == 'sra' and w > a.size() else self.ext(a, w, False)
        bb = self.ext(b, w, False)
        r = {'sll': lambda: aa << bb, 'srl': lambda: z3.LShR(aa, bb), 'sra': lambda: aa >> bb}[kind]()
        return self.ext(r, a.size(), False)

    def lt(self, a, b, s): return (a < b) if s else z3.ULT(a, b)
    def le(self, a, b, s): return (a <= b) if s else z3.ULE(a, b)
    def eq(self, a, b): return a == b
    def truth(self, a):
        return a != z3.BitVecVal(0, a.size())
    def bnot(self, b): return z3.Not(b)
    def band(self, a, b): return z3.And(a, b)
    def bor(self, a, b): return z3.Or(a, b)

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b or (hasattr(a, 'eq') and a.eq(b)):
            return a
        return z3.If(c, a, b)

    def is_true(self, c):
        c = z3.simplify(c)
        return True if z3.is_true(c) else (False if z3.is_false(c) else None)

    def concat(self, xs):
        return xs[0] if len(xs) == 1 else z3.Concat(*xs)

    def extract(self, a, hi, lo): return z3.Extract(hi, lo, a)

    def redxor(self, a):
        r = z3.Extract(0, 0, a)
        for i in range(1, a.size()):
            r = r ^ z3.Extract(i, i, a)
        return r

    def as_int(self, a):
        a = z3.simplify(a)
        return a.as_long() if z3.is_bv_value(a) else None

    # memories
    def mem_const(self, iw, w, v):
        return z3.K(z3.BitVecSort(iw), z3.BitVecVal(v, w))

    def mem_var(self, name, iw, w):
        return z3.Array(name, z3.BitVecSort(iw), z3.BitVecSort(w))

    def mem_read(self, mem, idx, iw): return z3.Select(mem, idx)
    def mem_write(self, mem, idx, v, iw): return z3.Store(mem, idx, v)


class IV(object):
    """Concrete value: int with a width."""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v & ((1 << w) - 1)
        self.w = w

    def size(self):
        return self.w

    def s(self):
        return self.v - (1 << self.w) if self.v >> (self.w - 1) else self.v

    def __repr__(self):
        return "%d'd%d" % (self.w, self.v)

    def __eq__(self, o):
        return isinstance(o, IV) and o.v == self.v and o.w == self.w

    def __hash__(self):
        return hash((self.v, self.w))


class IntAlg(object):
    """Concrete values; x is represented by a caller-chosen value."""
    symbolic = False

    def __init__(self, xvalue=0):
        self.xvalue = xvalue
        self.xseen = 0

    def fresh(self, w, hint='x'):
        self.xseen += 1
        return IV(self.xvalue, w)

    def const(self, v, w): return IV(v, w)
    def width(self, a): return a.w

    def ext(self, a, w, signed):
        return IV(a.s() if signed and w > a.w else a.v, w)

    def b2v(self, b): return IV(1 if b else 0, 1)
    def add(self, a, b): return IV(a.v + b.v, a.w)
    def sub(self, a, b): return IV(a.v - b.v, a.w)
    def mul(self, a, b): return IV(a.v * b.v, a.w)
    def and_(self, a, b): return IV(a.v & b.v, a.w)
    def or_(self, a, b): return IV(a.v | b.v, a.w)
    def xor(self, a, b): return IV(a.v ^ b.v, a.w)
    def not_(self, a): return IV(~a.v, a.w)
    def neg(self, a): return IV(-a.v, a.w)

    def div(self, a, b, s):
        if b.v == 0:
            return self.fresh(a.w)
        x, y = (a.s(), b.s()) if s else (a.v, b.v)
        q = abs(x) // abs(y)
        return IV(q if (x < 0) == (y < 0) else -q, a.w)

    def mod(self, a, b, s):
        if b.v == 0:
            return self.fresh(a.w)
        x, y = (a.s(), b.s()) if s else (a.v, b.v)
        r = abs(x) % abs(y)
        return IV(-r if x < 0 else r, a.w)

    def shift(self, a, b, kind):
        n = min(b.v, a.w + 1)
        if kind == 'sll':
            return IV(a.v << n, a.w)
        return IV((a.s() if kind == 'sra' else a.v) >> n, a.w)

    def lt(self, a, b, s): return (a.s() < b.s()) if s else a.v < b.v
    def le(self, a, b, s): return (a.s() <= b.s()) if s else a.v <= b.v
    def eq(self, a, b): return a.v == b.v
    def truth(self, a): return a.v != 0
    def bnot(self, b): return not b
    def band(self, a, b): return a and b
    def bor(self, a, b): return a or b
    def ite(self, c, a, b): return a if c else b
    def is_true(self, c): return bool(c)

    def concat(self, xs):
        v = 0
        w = 0
        for x in xs:
            v = (v << x.w) | x.v
            w += x.w
        return IV(v, w)

    def extract(self, a, hi, lo): return IV(a.v >> lo, hi - lo + 1)
    def redxor(self, a): return IV(bin(a.v).count('1') & 1, 1)
    def as_int(self, a): return a.v

    def mem_const(self, iw, w, v): return {}
    def mem_var(self, name, iw, w): return {}

    def mem_read(self, mem, idx, iw):
        r = mem.get(idx.v)
        return r if r is not None else mem.get('default')

    def mem_write(self, mem, idx, v, iw):
        m = dict(mem)
        m[idx.v] = v
        return m


# ------------------------------------------------------------ elaboration ----
class Decl(object):
    def __init__(self, name, kind, msb, lsb, signed, dims):
        self.name = name
        self.kind = kind       # input output inout wire reg integer
        self.msb = msb
        self.lsb = lsb
        self.width = abs(msb - lsb) + 1
        self.signed = signed
        self.dims = dims       # list of (lo, hi)

    @property
    def depth(self):
        n = 1
        for lo, hi in self.dims:
            n *= hi - lo + 1
        return n

    @property
    def iw(self):
        return max(1, (self.depth - 1).bit_length())


class Scope(object):
    def __init__(self, design, prefix):
        self.design = design
        self.prefix = prefix
        self.params = {}        # name -> (int value, width or None, signed)
        self.functions = {}
        self.names = set()

    def full(self, n):
        return self.prefix + n


_BIN_CTX = {'Plus': 'add', 'Minus': 'sub', 'Times': 'mul', 'And': 'and_', 'Or': 'or_', 'Xor': 'xor'}
_REL = {'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql'}
_SHIFT = {'Sll': 'sll', 'Srl': 'srl', 'Sla': 'sll', 'Sra': 'sra'}
_RED = {'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor'}


def parse_int(txt):
    """-> (value, width or None, signed)"""
    t = txt.replace('_', '').strip()
    if "'" not in t:
        return int(t), None, True
    size, rest = t.split("'", 1)
    rest = rest.lower()
    signed = False
    if rest[0] == 's':
        signed = True
        rest = rest[1:]
    base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[rest[0]]
    digits = rest[1:].strip()
    if any(c in 'xz?' for c in digits):
        raise Unsupported('x/z literal ' + txt)
    return int(digits, base), (int(size) if size.strip() else None), signed


def xlit(txt):
    """x/z digits in a literal: (width or None, signed, base, digits) or None"""
    t = txt.replace('_', '').replace(' ', '').lower()
    if "'" not in t:
        return None
    size, rest = t.split("'", 1)
    signed = rest[0] == 's'
    if signed:
        rest = rest[1:]
    if not any(c in 'xz?' for c in rest[1:]):
        return None
    return (int(size) if size else None), signed, rest[0], rest[1:]


class Design(object):
    def __init__(self, text, top, params=None, max_loop=4096):
        self.text = text
        self.ast = parse(text) if isinstance(text, str) else text
        self.mods = {}
        for d in self.ast.description.definitions:
            if isinstance(d, va.ModuleDef):
                self.mods[d.name] = d
        if top not in self.mods:
            raise Unsupported('no module %s in emitted text' % top)
        self.top = top
        self.decls = {}
        self.assigns = {}      # full name -> list of (scope, lhs var ast, rhs, rhs scope)
        self.combs = []        # (scope, stmt)
        self.seqs = []         # (scope, clk name, stmt)
        self.initials = []
        self.max_loop = max_loop
        self.clocks = set()
        self.alias = {}        # child input name -> (scope, rhs)
        self.iports = []
        self.oports = []
        self._calg = IntAlg()
        self._elab(top, '', params or {}, top=True)
        self._finish()

    # -- constants
    def const(self, e, scope):
        c = Ctx(self, self._calg, {}, const=True)
        w, s = c.size(e, scope)
        v = c.ev(e, scope, w, s)
        return v.s() if s else v.v

    def _decl(self, scope, kind, n):
        """n: vast Variable"""
        full = scope.full(n.name)
        if kind == 'integer':
            msb, lsb, signed = 31, 0, True
        elif n.width is None:
            msb, lsb, signed = 0, 0, bool(n.signed)
        else:
            msb, lsb = self.const(n.width.msb, scope), self.const(n.width.lsb, scope)
            signed = bool(n.signed)
        dims = []
        if getattr(n, 'dimensions', None) is not None:
            for l in n.dimensions.lengths:
                a, b = self.const(l.msb, scope), self.const(l.lsb, scope)
                dims.append((min(a, b), max(a, b)))
        if full in self.decls:
            old = self.decls[full]
            # "output x; reg x;" style redeclaration
            if kind == 'reg' or kind == 'wire':
                if n.width is not None:
                    old.msb, old.lsb, old.width = msb, lsb, abs(msb - lsb) + 1
                old.signed = old.signed or signed
                if kind == 'reg':
                    old.isreg = True
                return old
        d = Decl(full, kind, msb, lsb, signed, dims)
        d.isreg = kind in ('reg', 'integer')
        self.decls[full] = d
        scope.names.add(n.name)
        return d

    def _param(self, scope, p, override):
        name = p.name
        if name in override:
            v, w0, s0 = override[name]
        else:
            e = p.value.var if isinstance(p.value, va.Rvalue) else p.value
            c = Ctx(self, self._calg, {}, const=True)
            w0, s0 = c.size(e, scope)
            v = self.const(e, scope)
        if p.width is not None:
            w = abs(self.const(p.width.msb, scope) - self.const(p.width.lsb, scope)) + 1
            s = bool(p.signed)
        else:
            # 4.10.1: no range -> type of the final value assigned
            w, s = w0, s0 or bool(p.signed)
        scope.params[name] = (v, w, s)

    def _elab(self, modname, prefix, override, top=False):
        mod = self.mods[modname]
        scope = Scope(self, prefix)
        scope.modname = modname
        for d in (mod.paramlist.params if mod.paramlist else ()):
            for p in (d.list if isinstance(d, va.Decl) else [d]):
                self._param(scope, p, override)
        ports = []
        for p in (mod.portlist.ports if mod.portlist else ()):
            if isinstance(p, va.Ioport):
                kind = type(p.first).__name__.lower()
                dd = self._decl(scope, kind, p.first)
                if p.second is not None and isinstance(p.second, va.Reg):
                    dd.isreg = True
                    dd.signed = dd.signed or bool(p.second.signed)
                ports.append((p.first.name, kind))
            else:
                ports.append((p.name, None))
        items = list(mod.items or ())
        self._items(scope, items, override)
        ports = [(n, k or self.decls[scope.full(n)].kind) for n, k in ports]
        scope.ports = ports
        if top:
            for n, k in ports:
                if k == 'input':
                    self.iports.append(n)
                elif k == 'output':
                    self.oports.append(n)
        return scope

    def _items(self, scope, items, override):
        insts = []
        for it in items:
            if isinstance(it, va.Decl):
                for v in it.list:
                    if isinstance(v, va.Localparam) or isinstance(v, va.Parameter):
                        self._param(scope, v, {} if isinstance(v, va.Localparam) else override)
                    elif isinstance(v, va.Genvar):
                        pass
                    elif isinstance(v, va.Real):
                        pass
                    elif isinstance(v, va.Variable):
                        kind = type(v).__name__.lower()
                        d = self._decl(scope, kind, v)
                        if getattr(v, 'value', None) is not None:
                            self.initials.append((scope, va.BlockingSubstitution(
                                va.Lvalue(va.Identifier(v.name)), v.value)))
                    elif isinstance(v, va.Assign):
                        self._assign(scope, v.left.var, v.right.var, scope)
                    else:
                        raise Unsupported('decl %s' % type(v).__name__)
            elif isinstance(it, va.Assign):
                self._assign(scope, it.left.var, it.right.var, scope)
            elif isinstance(it, va.Always):
                self._always(scope, it)
            elif isinstance(it, va.Initial):
                self.initials.append((scope, it.statement))
            elif isinstance(it, va.Function):
                scope.functions[it.name] = it
            elif isinstance(it, va.InstanceList):
                insts.extend(it.instances)
            elif isinstance(it, va.GenerateStatement):
                self._generate(scope, it.items, override)
            elif isinstance(it, (va.Task, va.Pragma)):
                pass
            elif isinstance(it, va.Block):
                self._items(scope, it.statements, override)
            elif isinstance(it, (va.IfStatement, va.ForStatement)):
                self._generate(scope, [it], override)
            else:
                raise Unsupported('item %s' % type(it).__name__)
        for inst in insts:
            self._instance(scope, inst)

    def _generate(self, scope, items, override):
        for it in items:
            if isinstance(it, va.IfStatement):
                st = it.true_statement if self.const(it.cond, scope) else it.false_statement
                if st is None:
                    continue
                self._gblock(scope, st, override, None)
            elif isinstance(it, va.ForStatement):
                var = it.pre.left.var.name
                saved = scope.params.get(var)
                val = self.const(it.pre.right.var, scope)
                n = 0
                while True:
                    scope.params[var] = (val, 32, True)
                    if not self.const(it.cond, scope):
                        break
                    self._gblock(scope, it.statement, override, (var, val))
                    val = self.const(it.post.right.var, scope)
                    n += 1
                    if n > self.max_loop:
                        raise Unsupported('generate loop')
                if saved is None:
                    del scope.params[var]
                else:
                    scope.params[var] = saved
            else:
                self._items(scope, [it], override)

    def _gblock(self, scope, st, override, loop):
        name = getattr(st, 'scope', None)
        sts = st.statements if isinstance(st, va.Block) else [st]
        sub = GenScope(self, scope, '%s%s.' % (name or '__gen%d' % id(st),
                                               '[%d]' % loop[1] if loop else ''))
        if loop:
            sub.params[loop[0]] = (loop[1], 32, True)
        self._items(sub, sts, override)

    def _assign(self, scope, lhs, rhs, rscope):
        for n in self._lhs_names(lhs):
            self.assigns.setdefault(scope_full(scope, n), []).append((scope, lhs, rhs, rscope))

    def _lhs_names(self, lhs):
        if isinstance(lhs, va.Identifier):
            return [lhs.name]
        if isinstance(lhs, (va.Pointer, va.Partselect)):
            return self._lhs_names(lhs.var)
        if isinstance(lhs, va.Concat):
            r = []
            for x in lhs.list:
                r += self._lhs_names(x)
            return r
        if isinstance(lhs, va.Lvalue):
            return self._lhs_names(lhs.var)
        raise Unsupported('lvalue %s' % type(lhs).__name__)

    def _always(self, scope, it):
        sl = it.sens_list.list if it.sens_list is not None else []
        types = set(s.type for s in sl)
        if types and types <= {'posedge', 'negedge'}:
            if len(sl) != 1:
                raise Unsupported('multiple edges')
            if sl[0].type != 'posedge':
                raise Unsupported('negedge')
            self.seqs.append((scope, sl[0].sig.name, it.statement))
        elif types <= {'all', 'level'} and types:
            self.combs.append((scope, it.statement))
        else:
            raise Unsupported('sensitivity %s' % types)

    def _instance(self, scope, inst):
        if inst.module not in self.mods:
            raise Unsupported('unknown module %s' % inst.module)
        mod = self.mods[inst.module]
        override = {}
        pl = list(inst.parameterlist or ())
        pnames = [p.name for d in (mod.paramlist.params if mod.paramlist else ())
                  for p in (d.list if isinstance(d, va.Decl) else [d])]
        for i, a in enumerate(pl):
            n = a.paramname if a.paramname is not None else pnames[i]
            c = Ctx(self, self._calg, {}, const=True)
            w, s = c.size(a.argname, scope)
            override[n] = (self.const(a.argname, scope), w, s)
        child = self._elab(inst.module, scope.full(inst.name + '.'), override)
        kinds = dict(child.ports)
        for i, a in enumerate(inst.portlist or ()):
            n = a.portname if a.portname is not None else child.ports[i][0]
            if a.argname is None:
                continue
            if n not in kinds:
                raise Unsupported('port %s' % n)
            if kinds[n] == 'input':
                self._assign(child, va.Identifier(n), a.argname, scope)
            elif kinds[n] == 'output':
                self._assign(scope, a.argname, va.Identifier(n), child)
            else:
                raise Unsupported('inout')

    # -- classification
    def _finish(self):
        self.state = {}
        self.driver = {}        # name -> ('comb', index)
        for i, (scope, clk, st) in enumerate(self.seqs):
            self.clocks.add(self._resolve_clk(scope, clk))
            for n in self._assigned(st, scope):
                if n in self.driver and self.driver[n] != ('seq',):
                    raise Unsupported('mixed drivers of %s' % n)
                self.driver[n] = ('seq',)
                self.state[n] = self.decls[n]
        if len(self.clocks) > 1:
            raise Unsupported('several clocks %s' % sorted(self.clocks))
        for i, (scope, st) in enumerate(self.combs):
            for n in self._assigned(st, scope):
                if n in self.driver:
                    raise Unsupported('several drivers of %s' % n)
                self.driver[n] = ('comb', i)
        # registers written only by initial blocks are constants
        for scope, st in self.initials:
            for n in self._assigned(st, scope):
                if n not in self.driver and n in self.decls:
                    self.driver[n] = ('seq',)
                    self.state[n] = self.decls[n]
        self.inputs = {}
        for n, d in self.decls.items():
            if n in self.driver or n in self.assigns:
                continue
            self.inputs[n] = d
        for c in self.clocks:
            pass

    def _resolve_clk(self, scope, name):
        full = scope_full(scope, name)
        for _ in range(100):
            a = self.assigns.get(full)
            if a is None:
                return full
            _, lhs, rhs, rs = a[0]
            if not isinstance(rhs, va.Identifier):
                return full
            full = scope_full(rs, rhs.name)
        return full

    def _assigned(self, st, scope):
        out = []
        stack = [st]
        while stack:
            s = stack.pop()
            if s is None:
                continue
            if isinstance(s, va.Substitution):
                out += [scope_full(scope, n) for n in self._lhs_names(s.left)]
            elif isinstance(s, va.Block):
                stack += list(s.statements)
            elif isinstance(s, va.IfStatement):
                stack += [s.true_statement, s.false_statement]
            elif isinstance(s, va.CaseStatement):
                stack += [c.statement for c in s.caselist]
            elif isinstance(s, (va.ForStatement,)):
                stack += [s.statement]
                # the loop variable is evaluated at elaboration
            elif isinstance(s, va.WhileStatement):
                stack += [s.statement]
        return list(dict.fromkeys(out))

    def is_mem(self, n):
        return bool(self.decls[n].dims)

    def ctx(self, alg, env):
        return Ctx(self, alg, env)

    # -- helpers for users
    def sym_state(self, alg, suffix=''):
        env = {}
        for n, d in self.state.items():
            if d.dims:
                env[n] = alg.mem_var(n + suffix, d.iw, d.width)
            else:
                env[n] = z3.BitVec(n + suffix, d.width)
        return env

    def sym_inputs(self, alg, suffix='', skip=()):
        env = {}
        for n, d in self.inputs.items():
            if n in skip:
                continue
            if d.dims:
                env[n] = alg.mem_var(n + suffix, d.iw, d.width)
            else:
                env[n] = z3.BitVec(n + suffix, d.width)
        return env

    def initial_state(self, alg, default=None):
        """State after the initial blocks; registers they do not set are
        default (None: fresh)."""
        env = {}
        for n, d in self.state.items():
            if d.dims:
                if alg.symbolic:
                    env[n] = alg.mem_var(n + '@init', d.iw, d.width)
                else:
                    env[n] = {'default': IV(default or 0, d.width)}
            else:
                env[n] = alg.fresh(d.width, n + '@init') if default is None else alg.const(default, d.width)
        c = Ctx(self, alg, env)
        for scope, st in self.initials:
            ex = Exec(c, scope)
            ex.run(st)
            for k, v in list(ex.b.items()) + list(ex.nb.items()):
                env[k] = v
            c = Ctx(self, alg, env)
        return env


class GenScope(Scope):
    """Scope of a generate block: names resolve here, then outwards."""

    def __init__(self, design, parent, label):
        Scope.__init__(self, design, parent.prefix + label)
        self.parent = parent
        self.params = ChainDict(parent.params)
        self.functions = parent.functions

    def full(self, n):
        return self.prefix + n


class ChainDict(dict):
    def __init__(self, parent):
        dict.__init__(self, parent)


def scope_full(scope, n):
    s = scope
    while True:
        f = s.prefix + n
        if f in scope.design.decls or not hasattr(s, 'parent'):
            return f
        s = s.parent


# -------------------------------------------------------------- evaluation ----
class Ctx(object):
    def __init__(self, design, alg, env, const=False):
        self.d = design
        self.alg = alg
        self.env = env
        self.memo = {}
        self.busy = set()
        self.local = None      # overriding environment (inside statements)
        self.constmode = const
        self.combdone = {}

    # -- names
    def val(self, n):
        """value of a fully qualified net or register"""
        if self.local is not None and n in self.local:
            return self.local[n]
        if n in self.memo:
            return self.memo[n]
        if n in self.env:
            return self.env[n]
        if n not in self.d.decls:
            raise Unsupported('unknown name %s' % n)
        if n in self.busy:
            raise Unsupported('combinational loop at %s' % n)
        self.busy.add(n)
        saved = self.local
        self.local = None
        try:
            d = self.d.decls[n]
            drv = self.d.driver.get(n)
            if n in self.d.assigns:
                v = self._assigned_value(n, d)
            elif drv is not None and drv[0] == 'comb':
                scope, st = self.d.combs[drv[1]]
                ex = Exec(self, scope)
                ex.run(st)
                for k, x in ex.b.items():
                    self.memo[k] = x
                for k, x in ex.nb.items():
                    self.memo[k] = x
                v = self.memo[n]
            else:
                if d.dims:
                    v = self.alg.mem_var('%s@free' % n, d.iw, d.width)
                else:
                    v = self.alg.fresh(d.width, n)
        finally:
            self.busy.discard(n)
            self.local = saved
        self.memo[n] = v
        return v

    def _assigned_value(self, n, d):
        drivers = self.d.assigns[n]
        alg = self.alg
        if d.dims:
            raise Unsupported('assign to array net %s' % n)
        if len(drivers) == 1 and isinstance(drivers[0][1], va.Identifier):
            scope, lhs, rhs, rs = drivers[0]
            return self.rhs(rhs, rs, d.width)
        cur = alg.fresh(d.width, n + '@undriven')
        for scope, lhs, rhs, rs in drivers:
            w = lhs_width(self, lhs, scope)
            v = self.rhs(rhs, rs, w)
            upd = {}
            write_lhs(self, lhs, scope, v, lambda k: cur if k == n else alg.const(0, self.d.decls[k].width), upd)
            cur = upd[n]
        return cur

    def resolve(self, scope, name):
        return scope_full(scope, name)

    def value(self, name):
        """value of a name as an int (concrete algebra) or z3 term"""
        return self.val(name)

    def next(self):
        """one posedge of the clock"""
        nb = {}
        b = {}
        for scope, clk, st in self.d.seqs:
            ex = Exec(self, scope)
            # memories may be written by several blocks: updates are applied in
            # source order (callers exclude conflicting writes by hypothesis)
            ex.nb.update({k: v for k, v in nb.items() if self.d.is_mem(k)})
            ex.run(st)
            for k, v in ex.b.items():
                if k in self.d.state:
                    b[k] = v
            for k, v in ex.nb.items():
                if k in nb and not self.d.is_mem(k):
                    raise Unsupported('%s driven by two always blocks' % k)
                nb[k] = v
        out = {}
        for n in self.d.state:
            if n in nb:
                out[n] = nb[n]
            elif n in b:
                out[n] = b[n]
            else:
                out[n] = self.env[n]
        return out

    # -- sizing (5.4, 5.5)
    def size(self, e, scope):
        t = type(e).__name__
        if isinstance(e, va.Rvalue) or isinstance(e, va.Lvalue):
            return self.size(e.var, scope)
        if isinstance(e, va.IntConst):
            x = xlit(e.value)
            if x is not None:
                return x[0] or 32, x[1]
            v, w, s = parse_int(e.value)
            if w is None:
                w = max(32, v.bit_length() + (1 if s else 0))
            return w, s
        if isinstance(e, va.Identifier):
            return self._name_size(e, scope)
        if isinstance(e, va.Pointer):
            d = self._array_base(e, scope)
            if d is not None:
                return d.width, d.signed
            return 1, False
        if isinstance(e, va.Partselect):
            m, l = self._cpart(e, scope)
            return abs(m - l) + 1, False
        if isinstance(e, va.Concat):
            return sum(self.size(x, scope)[0] for x in e.list), False
        if isinstance(e, va.Repeat):
            return self.d.const(e.times, scope) * self.size(e.value, scope)[0], False
        if t in ('Uplus', 'Uminus', 'Unot'):
            return self.size(e.right, scope)
        if t == 'Ulnot' or t in _RED or t in _REL or t in ('Land', 'Lor'):
            return 1, False
        if t in _BIN_CTX or t in ('Divide', 'Mod', 'Xnor'):
            w1, s1 = self.size(e.left, scope)
            w2, s2 = self.size(e.right, scope)
            return max(w1, w2), s1 and s2
        if t in _SHIFT or t == 'Power':
            return self.size(e.left, scope)
        if isinstance(e, va.Cond):
            w1, s1 = self.size(e.true_value, scope)
            w2, s2 = self.size(e.false_value, scope)
            return max(w1, w2), s1 and s2
        if isinstance(e, va.SystemCall):
            if e.syscall == 'signed':
                return self.size(e.args[0], scope)[0], True
            if e.syscall == 'unsigned':
                return self.size(e.args[0], scope)[0], False
            raise Unsupported('$%s' % e.syscall)
        if isinstance(e, va.FunctionCall):
            f = self._func(e, scope)
            if f.retwidth is None:
                return 1, False
            return abs(self.d.const(f.retwidth.msb, scope) - self.d.const(f.retwidth.lsb, scope)) + 1, False
        if isinstance(e, va.StringConst):
            raise Unsupported('string')
        if isinstance(e, va.FloatConst):
            raise Unsupported('real')
        raise Unsupported('expression %s' % t)

    def _func(self, e, scope):
        n = e.name.name
        if n not in scope.functions:
            raise Unsupported('function %s' % n)
        return scope.functions[n]

    def _name_size(self, e, scope):
        lp = self._localparam(self._idname(e, scope), scope)
        if lp is not None:
            v, w, s = lp
            return w, s
        n = self.resolve(scope, self._idname(e, scope))
        if n not in self.d.decls:
            raise Unsupported('undeclared %s' % n)
        d = self.d.decls[n]
        return d.width, d.signed

    def _idname(self, e, scope):
        if e.scope is None:
            return e.name
        out = ''
        for l in e.scope.labellist:
            out += l.name
            if l.loop is not None:
                out += '[%d]' % self.d.const(l.loop, scope)
            out += '.'
        return out + e.name

    def _localparam(self, name, scope):
        if self.local is not None:
            f = scope_full(scope, name)
            if f in self.local:
                return None
        s = scope
        if name in s.params:
            return s.params[name]
        return None

    def _array_base(self, e, scope):
        """declaration if e selects exactly one word of an array"""
        n = 0
        x = e
        while isinstance(x, va.Pointer):
            n += 1
            x = x.var
        if not isinstance(x, va.Identifier):
            return None
        if self._localparam(self._idname(x, scope), scope) is not None:
            return None
        f = self.resolve(scope, self._idname(x, scope))
        if f not in self.d.decls:
            raise Unsupported('undeclared %s' % f)
        d = self.d.decls[f]
        return d if d.dims and len(d.dims) == n else None

    def _cpart(self, e, scope):
        c = self
        if not self.constmode:
            m = self._cint(e.msb, scope)
            l = self._cint(e.lsb, scope)
        else:
            m, l = self.d.const(e.msb, scope), self.d.const(e.lsb, scope)
        return m, l

    def _cint(self, e, scope):
        w, s = self.size(e, scope)
        v = self.alg.as_int(self.ev(e, scope, w, s))
        if v is None:
            raise Unsupported('non constant part select')
        return v - (1 << w) if s and (v >> (w - 1)) else v

    # -- evaluation
    def rhs(self, e, scope, lw):
        w, s = self.size(e, scope)
        W = max(w, lw)
        return self.alg.ext(self.ev(e, scope, W, s), lw, False)

    def selfdet(self, e, scope):
        w, s = self.size(e, scope)
        return self.ev(e, scope, w, s)

    def cond(self, e, scope):
        return self.alg.truth(self.selfdet(e, scope))

    def ev(self, e, scope, W, S):
        """value of e in a context of width W and sign S"""
        alg = self.alg
        t = type(e).__name__
        if isinstance(e, (va.Rvalue, va.Lvalue)):
            return self.ev(e.var, scope, W, S)
        if t in _BIN_CTX:
            a = self.ev(e.left, scope, W, S)
            b = self.ev(e.right, scope, W, S)
            return getattr(alg, _BIN_CTX[t])(a, b)
        if t == 'Xnor':
            return alg.not_(alg.xor(self.ev(e.left, scope, W, S), self.ev(e.right, scope, W, S)))
        if t == 'Divide':
            return alg.div(self.ev(e.left, scope, W, S), self.ev(e.right, scope, W, S), S)
        if t == 'Mod':
            return alg.mod(self.ev(e.left, scope, W, S), self.ev(e.right, scope, W, S), S)
        if t in _SHIFT:
            a = self.ev(e.left, scope, W, S)
            b = self.selfdet(e.right, scope)
            k = _SHIFT[t]
            if k == 'sra' and not S:
                k = 'srl'
            return alg.shift(a, b, k)
        if t == 'Power':
            a = self.ev(e.left, scope, W, S)
            n = alg.as_int(self.selfdet(e.right, scope))
            if n is None or n > 4096:
                raise Unsupported('power with variable exponent')
            r = alg.const(1, W)
            for _ in range(n):
                r = alg.mul(r, a)
            return r
        if t == 'Uplus':
            return self.ev(e.right, scope, W, S)
        if t == 'Uminus':
            return alg.neg(self.ev(e.right, scope, W, S))
        if t == 'Unot':
            return alg.not_(self.ev(e.right, scope, W, S))
        if isinstance(e, va.Cond):
            c = self.cond(e.cond, scope)
            tv = alg.is_true(c) if not alg.symbolic else None
            if tv is not None:
                return self.ev(e.true_value if tv else e.false_value, scope, W, S)
            return alg.ite(c, self.ev(e.true_value, scope, W, S), self.ev(e.false_value, scope, W, S))
        if isinstance(e, va.IntConst):
            x = xlit(e.value)
            if x is not None and x[0] is None and set(x[3]) <= set('xz?'):
                return alg.fresh(W, 'x')      # x extends to the context width
        # self-determined primaries
        return alg.ext(self._prim(e, scope, t), W, S)

    def _prim(self, e, scope, t):
        alg = self.alg
        if isinstance(e, va.IntConst):
            x = xlit(e.value)
            if x is not None:
                return self._xvalue(x)
            v, w, s = parse_int(e.value)
            if w is None:
                w = max(32, v.bit_length() + (1 if s else 0))
            return alg.const(v, w)
        if isinstance(e, va.Identifier):
            lp = self._localparam(self._idname(e, scope), scope)
            if lp is not None:
                return alg.const(lp[0], lp[1])
            n = self.resolve(scope, self._idname(e, scope))
            if self.constmode:
                raise Unsupported('not a constant: %s' % n)
            if self.d.decls.get(n) is not None and self.d.decls[n].dims:
                raise Unsupported('array used as value: %s' % n)
            return self.val(n)
        if isinstance(e, va.Pointer):
            return self._pointer(e, scope)
        if isinstance(e, va.Partselect):
            base, lsb, msb0 = self._base(e.var, scope)
            m, l = self._cpart(e, scope)
            if lsb > msb0:
                raise Unsupported('descending range')
            lo, hi = l - lsb, m - lsb
            if lo > hi:
                raise Unsupported('reversed part select')
            n = alg.width(base)
            if lo < 0 or hi >= n:
                parts = []
                if hi >= n:
                    parts.append(alg.fresh(hi - max(n, lo) + 1, 'oob'))
                if lo < n and hi >= 0:
                    parts.append(alg.extract(base, min(hi, n - 1), max(lo, 0)))
                if lo < 0:
                    parts.append(alg.fresh(min(-1, hi) - lo + 1, 'oob'))
                return alg.concat(parts)
            return alg.extract(base, hi, lo)
        if isinstance(e, va.Concat):
            return alg.concat([self.selfdet(x, scope) for x in e.list])
        if isinstance(e, va.Repeat):
            n = self.d.const(e.times, scope)
            if n < 1:
                raise Unsupported('zero replication')
            return alg.concat([self.selfdet(e.value, scope)] * n)
        if t == 'Ulnot':
            return alg.b2v(alg.bnot(self.cond(e.right, scope)))
        if t == 'Land':
            return alg.b2v(alg.band(self.cond(e.left, scope), self.cond(e.right, scope)))
        if t == 'Lor':
            return alg.b2v(alg.bor(self.cond(e.left, scope), self.cond(e.right, scope)))
        if t in _REL:
            w1, s1 = self.size(e.left, scope)
            w2, s2 = self.size(e.right, scope)
            w, s = max(w1, w2), s1 and s2
            a = self.ev(e.left, scope, w, s)
            b = self.ev(e.right, scope, w, s)
            r = {'LessThan': lambda: alg.lt(a, b, s), 'GreaterThan': lambda: alg.lt(b, a, s),
                 'LessEq': lambda: alg.le(a, b, s), 'GreaterEq': lambda: alg.le(b, a, s),
                 'Eq': lambda: alg.eq(a, b), 'Eql': lambda: alg.eq(a, b),
                 'NotEq': lambda: alg.bnot(alg.eq(a, b)),
                 'NotEql': lambda: alg.bnot(alg.eq(a, b))}[t]()
            return alg.b2v(r)
        if t in _RED:
            a = self.selfdet(e.right, scope)
            w = alg.width(a)
            ones = alg.eq(a, alg.const((1 << w) - 1, w))
            r = {'Uand': lambda: alg.b2v(ones), 'Unand': lambda: alg.b2v(alg.bnot(ones)),
                 'Uor': lambda: alg.b2v(alg.truth(a)), 'Unor': lambda: alg.b2v(alg.bnot(alg.truth(a))),
                 'Uxor': lambda: alg.redxor(a), 'Uxnor': lambda: alg.not_(alg.redxor(a))}[t]()
            return r
        if isinstance(e, va.SystemCall):
            return self.selfdet(e.args[0], scope)
        if isinstance(e, va.FunctionCall):
            return self._call(e, scope)
        raise Unsupported('expression %s' % t)

    def _xvalue(self, x):
        """a literal with x digits: those bits are unconstrained"""
        alg = self.alg
        w, _, base, digits = x
        w = w or 32
        per = {'b': 1, 'o': 3, 'h': 4}.get(base)
        if per is None:
            return alg.fresh(w, 'x')
        parts = []
        for c in digits:
            parts.append(alg.fresh(per, 'x') if c in 'xz?' else alg.const(int(c, 16), per))
        v = alg.concat(parts)
        n = alg.width(v)
        if n < w and digits[0] in 'xz?':
            return alg.concat([alg.fresh(w - n, 'x'), v])
        return alg.ext(v, w, False)

    def _base(self, e, scope):
        """value, lsb, msb of the vector a bit/part select applies to"""
        if isinstance(e, va.Identifier):
            lp = self._localparam(self._idname(e, scope), scope)
            if lp is not None:
                return self.alg.const(lp[0], lp[1]), 0, lp[1] - 1
            n = self.resolve(scope, self._idname(e, scope))
            d = self.d.decls[n]
            if d.dims:
                raise Unsupported('select on array')
            return self.val(n), d.lsb, d.msb
        if isinstance(e, va.Pointer):
            d = self._array_base(e, scope)
            if d is not None:
                return self._pointer(e, scope), d.lsb, d.msb
        v = self.selfdet(e, scope)
        return v, 0, self.alg.width(v) - 1

    def _pointer(self, e, scope):
        alg = self.alg
        d = self._array_base(e, scope)
        if d is not None:
            mem = self.val(d.name)
            idx, ok = mem_index(self, e, scope, d)
            v = alg.mem_read(mem, idx, d.iw)
            if ok is not None:
                tv = alg.is_true(ok)
                if tv is None:
                    return alg.ite(ok, v, alg.fresh(d.width, 'oob'))
                if not tv:
                    return alg.fresh(d.width, 'oob')
            if v is None:
                return alg.fresh(d.width, 'uninit')
            return v
        base, lsb, msb = self._base(e.var, scope)
        if lsb > msb:
            raise Unsupported('descending range')
        w = alg.width(base)
        iw_, is_ = self.size(e.ptr, scope)
        idx = self.ev(e.ptr, scope, iw_, is_)
        ci = alg.as_int(idx)
        if ci is not None:
            if is_ and ci >> (iw_ - 1):
                ci -= 1 << iw_
            ci -= lsb
            if not 0 <= ci < w:
                return alg.fresh(1, 'oob')
            return alg.extract(base, ci, ci)
        if lsb:
            idx = alg.sub(idx, alg.const(lsb, iw_))
        inb = None
        if (1 << iw_) > w:
            inb = alg.lt(idx, alg.const(w, iw_), False)
        bit = alg.extract(alg.shift(base, idx, 'srl'), 0, 0)
        if inb is None:
            return bit
        return alg.ite(inb, bit, alg.fresh(1, 'oob'))

    def _call(self, e, scope):
        f = self._func(e, scope)
        sts = f.statement
        local = {}
        prefix = '%s%s.' % (scope.prefix, f.name)
        fs = Scope(self.d, prefix)
        fs.parent = scope
        fs.params = scope.params
        fs.functions = scope.functions
        ins = []
        body = []
        rw, _ = self.size(e, scope)
        saved_decl = dict(self.d.decls)
        try:
            self.d.decls[prefix + f.name] = Decl(prefix + f.name, 'reg', rw - 1, 0, False, [])
            for s in sts:
                if isinstance(s, va.Decl):
                    for v in s.list:
                        kind = type(v).__name__.lower()
                        dd = self.d._decl(fs, kind, v)
                        if kind == 'input':
                            ins.append(dd)
                elif isinstance(s, va.Ioport):
                    dd = self.d._decl(fs, 'input', s.first)
                    ins.append(dd)
                else:
                    body.append(s)
            if len(ins) != len(e.args):
                raise Unsupported('arity of %s' % f.name)
            vals = [self.rhs(a, scope, d.width) for a, d in zip(e.args, ins)]
            ex = Exec(self, fs)
            for d, v in zip(ins, vals):
                ex.b[d.name] = v
            ex.b[prefix + f.name] = self.alg.fresh(rw, 'fret')
            for s in body:
                ex.run(s)
            return ex.b[prefix + f.name]
        finally:
            self.d.decls.clear()
            self.d.decls.update(saved_decl)


def mem_index(ctx, e, scope, d):
    """flat index of an array word select; (index, in-range condition or None)"""
    alg = ctx.alg
    ptrs = []
    x = e
    while isinstance(x, va.Pointer):
        ptrs.append(x.ptr)
        x = x.var
    ptrs.reverse()
    flat = None
    ok = None
    for p, (lo, hi) in zip(ptrs, d.dims):
        w, s = ctx.size(p, scope)
        W = max(w, d.iw + 1, (hi + 1).bit_length() + 1)
        v = ctx.ev(p, scope, w, s)
        v = alg.ext(v, W, s)
        n = hi - lo + 1
        if lo:
            v = alg.sub(v, alg.const(lo, W))
        # in range, as an unsigned comparison (negative signed values wrap high)
        if not ((1 << w) <= n and not s and lo == 0):
            c = alg.lt(v, alg.const(n, W), False)
            ok = c if ok is None else alg.band(ok, c)
        v = alg.ext(v, d.iw, False)
        flat = v if flat is None else alg.add(alg.mul(flat, alg.const(n, d.iw)), v)
    return flat, ok


def lhs_width(ctx, lhs, scope):
    if isinstance(lhs, va.Lvalue):
        return lhs_width(ctx, lhs.var, scope)
    if isinstance(lhs, va.Concat):
        return sum(lhs_width(ctx, x, scope) for x in lhs.list)
    return ctx.size(lhs, scope)[0]


def write_lhs(ctx, lhs, scope, v, get, upd):
    """upd[name] = value of name after assigning v to lhs; get(name) is the
    value before."""
    alg = ctx.alg
    d_ = ctx.d.decls
    if isinstance(lhs, va.Lvalue):
        return write_lhs(ctx, lhs.var, scope, v, get, upd)

    def cur(n):
        return upd[n] if n in upd else get(n)

    if isinstance(lhs, va.Identifier):
        n = ctx.resolve(scope, lhs.name)
        if n not in d_:
            raise Unsupported('assignment to undeclared %s' % n)
        if d_[n].dims:
            raise Unsupported('assignment to whole array')
        upd[n] = alg.ext(v, d_[n].width, False)
        return
    if isinstance(lhs, va.Concat):
        hi = alg.width(v)
        for x in lhs.list:
            w = lhs_width(ctx, x, scope)
            write_lhs(ctx, x, scope, alg.extract(v, hi - 1, hi - w), get, upd)
            hi -= w
        return
    if isinstance(lhs, va.Pointer):
        d = ctx._array_base(lhs, scope)
        if d is not None:
            mem = cur(d.name)
            idx, ok = mem_index(ctx, lhs, scope, d)
            new = alg.mem_write(mem, idx, alg.ext(v, d.width, False), d.iw)
            upd[d.name] = new if ok is None else alg.ite(ok, new, mem)
            return
        _write_bits(ctx, lhs.var, scope, ('bit', lhs.ptr), v, cur, upd)
        return
    if isinstance(lhs, va.Partselect):
        _write_bits(ctx, lhs.var, scope, ('part', lhs), v, cur, upd)
        return
    raise Unsupported('lvalue %s' % type(lhs).__name__)


def _write_bits(ctx, base, scope, sel, v, cur, upd):
    alg = ctx.alg
    if isinstance(base, va.Identifier):
        n = ctx.resolve(scope, base.name)
        d = ctx.d.decls[n]
        if d.dims:
            raise Unsupported('partial select of array')
        old = cur(n)
    elif isinstance(base, va.Pointer) and ctx._array_base(base, scope) is not None:
        d = ctx._array_base(base, scope)
        n = d.name
        idx, ok = mem_index(ctx, base, scope, d)
        old = alg.mem_read(cur(n), idx, d.iw)
    else:
        raise Unsupported('nested select lvalue')
    w = d.width
    lsb = d.lsb
    if sel[0] == 'bit':
        iw_, is_ = ctx.size(sel[1], scope)
        i = ctx.ev(sel[1], scope, iw_, is_)
        ci = alg.as_int(i)
        if ci is not None:
            if is_ and ci >> (iw_ - 1):
                ci -= 1 << iw_
            ci -= lsb
            if not 0 <= ci < w:
                new = old
            else:
                parts = []
                if ci < w - 1:
                    parts.append(alg.extract(old, w - 1, ci + 1))
                parts.append(alg.ext(v, 1, False))
                if ci:
                    parts.append(alg.extract(old, ci - 1, 0))
                new = alg.concat(parts)
        else:
            if lsb:
                i = alg.sub(i, alg.const(lsb, iw_))
            mask = alg.shift(alg.const(1, w), i, 'sll')
            bit = alg.shift(alg.ext(alg.ext(v, 1, False), w, False), i, 'sll')
            new = alg.or_(alg.and_(old, alg.not_(mask)), bit)
    else:
        m, l = ctx._cpart(sel[1], scope)
        m -= lsb
        l -= lsb
        if not 0 <= l <= m < w:
            raise Unsupported('part select lvalue out of range')
        parts = []
        if m < w - 1:
            parts.append(alg.extract(old, w - 1, m + 1))
        parts.append(alg.ext(v, m - l + 1, False))
        if l:
            parts.append(alg.extract(old, l - 1, 0))
        new = alg.concat(parts)
    if isinstance(base, va.Identifier):
        upd[n] = new
    else:
        nm = alg.mem_write(cur(n), idx, new, d.iw)
        upd[n] = nm if ok is None else alg.ite(ok, nm, cur(n))


class Exec(object):
    """Executes one procedural block; b: blocking results, nb: non-blocking."""

    def __init__(self, ctx, scope):
        self.ctx = ctx
        self.scope = scope
        self.b = {}
        self.nb = {}

    def _with_local(self, f):
        saved = self.ctx.local
        merged = self.b
        if saved:
            merged = dict(saved)
            merged.update(self.b)
        self.ctx.local = merged
        try:
            return f()
        finally:
            self.ctx.local = saved

    def run(self, st):
        ctx, alg = self.ctx, self.ctx.alg
        if st is None:
            return
        if isinstance(st, va.Block):
            for s in st.statements:
                self.run(s)
            return
        if isinstance(st, va.Substitution):
            blocking = isinstance(st, va.BlockingSubstitution)
            if st.ldelay is not None or st.rdelay is not None:
                raise Unsupported('delay in assignment')
            lhs = st.left

            def go():
                w = lhs_width(ctx, lhs, self.scope)
                return ctx.rhs(st.right, self.scope, w)
            v = self._with_local(go)
            tgt = self.b if blocking else self.nb

            def get(n):
                if n in tgt:
                    return tgt[n]
                if not blocking:
                    # a partial nonblocking update starts from the old value
                    saved = ctx.local
                    ctx.local = None
                    try:
                        return ctx.val(n)
                    finally:
                        ctx.local = saved
                if n in ctx.env or n in self.b:
                    return self.b[n] if n in self.b else ctx.env[n]
                d = ctx.d.decls[n]
                return alg.mem_var(n + '@latch', d.iw, d.width) if d.dims else alg.fresh(d.width, n + '@latch')
            upd = {}
            self._with_local(lambda: write_lhs(ctx, lhs, self.scope, v, get, upd))
            tgt.update(upd)
            return
        if isinstance(st, va.IfStatement):
            c = self._with_local(lambda: ctx.cond(st.cond, self.scope))
            self._branch(c, lambda: self.run(st.true_statement), lambda: self.run(st.false_statement))
            return
        if isinstance(st, va.CaseStatement):
            self._case(st)
            return
        if isinstance(st, va.ForStatement):
            self.run(st.pre)
            n = 0
            while True:
                c = self._with_local(lambda: ctx.cond(st.cond, self.scope))
                tv = alg.is_true(c)
                if tv is None:
                    raise Unsupported('loop condition not constant')
                if not tv:
                    break
                self.run(st.statement)
                self.run(st.post)
                n += 1
                if n > ctx.d.max_loop:
                    raise Unsupported('loop bound')
            return
        if isinstance(st, va.WhileStatement):
            n = 0
            while True:
                c = self._with_local(lambda: ctx.cond(st.cond, self.scope))
                tv = alg.is_true(c)
                if tv is None:
                    raise Unsupported('loop condition not constant')
                if not tv:
                    break
                self.run(st.statement)
                n += 1
                if n > ctx.d.max_loop:
                    raise Unsupported('loop bound')
            return
        if isinstance(st, va.SingleStatement):
            if isinstance(st.statement, va.SystemCall):
                return
            return self.run(st.statement)
        if isinstance(st, va.SystemCall):
            return
        raise Unsupported('statement %s' % type(st).__name__)

    def _branch(self, c, f, g):
        alg = self.ctx.alg
        tv = alg.is_true(c)
        if tv is True:
            return f()
        if tv is False:
            return g()
        b0, n0 = dict(self.b), dict(self.nb)
        f()
        b1, n1 = self.b, self.nb
        self.b, self.nb = dict(b0), dict(n0)
        g()
        b2, n2 = self.b, self.nb
        self.b = self._merge(c, b1, b2, True)
        self.nb = self._merge(c, n1, n2, False)

    def _merge(self, c, x, y, blocking):
        alg, ctx = self.ctx.alg, self.ctx
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            def base():
                saved = ctx.local
                ctx.local = None
                try:
                    if k in ctx.env or not blocking:
                        return ctx.val(k)
                    d = ctx.d.decls[k]
                    return alg.mem_var(k + '@latch', d.iw, d.width) if d.dims else alg.fresh(d.width, k + '@latch')
                finally:
                    ctx.local = saved
            a = x[k] if k in x else base()
            b = y[k] if k in y else base()
            out[k] = alg.ite(c, a, b)
        return out

    def _case(self, st):
        ctx, alg = self.ctx, self.ctx.alg
        isx = isinstance(st, (va.CasexStatement, va.CasezStatement))
        exprs = [st.comp]
        for c in st.caselist:
            for e in (c.cond or ()):
                exprs.append(e)

        def wild(e):
            return isinstance(e, va.IntConst) and "'" in e.value and any(ch in 'xzXZ?' for ch in e.value.split("'")[1])

        def sizes():
            W, S = 0, True
            for e in exprs:
                if wild(e):
                    w, s = int(e.value.split("'")[0]), False
                else:
                    w, s = ctx.size(e, self.scope)
                W, S = max(W, w), S and s
            return W, S
        W, S = self._with_local(sizes)
        comp = self._with_local(lambda: ctx.ev(st.comp, self.scope, W, S))

        def match(e):
            if wild(e):
                if not isx:
                    raise Unsupported('x in case item')
                t = e.value.split("'")[1].lower()
                if t[0] != 'b':
                    raise Unsupported('casex base')
                bits = t[1:].replace('_', '')
                bits = bits.rjust(W, '0')
                mask = int(''.join('0' if ch in 'xz?' else '1' for ch in bits), 2)
                val = int(''.join('1' if ch == '1' else '0' for ch in bits), 2)
                return alg.eq(alg.and_(comp, alg.const(mask, W)), alg.const(val, W))
            return alg.eq(comp, self._with_local(lambda: ctx.ev(e, self.scope, W, S)))

        default = [c for c in st.caselist if c.cond is None]
        items = [c for c in st.caselist if c.cond is not None]

        def go(i):
            if i == len(items):
                if default:
                    self.run(default[0].statement)
                return
            m = None
            for e in items[i].cond:
                x = match(e)
                m = x if m is None else alg.bor(m, x)
            self._branch(m, lambda: self.run(items[i].statement), lambda: go(i + 1))
        go(0)
