"""C03: The emitted module is the module that was described."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vpath
import random, itertools, re
import z3
import vsem, pyvc, equiv
import pyverilog.vparser.ast as va
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.verilog.to_verilog as tv


# ------------------------------------------------- declarations (all ints) --
TOK = re.compile('\u27e6(\\d+)\u27e7')


def zeval(e):
    """a constant expression of the emitted text over the integers"""
    if e is None:
        return None
    if isinstance(e, va.Rvalue):
        return zeval(e.var)
    if isinstance(e, va.IntConst):
        return z3.IntVal(vsem.parse_int(e.value)[0])
    if isinstance(e, va.Identifier):
        m = re.match(r'tok_(\d+)_$', e.name)
        return pyvc.token_value('\u27e6%s\u27e7' % m.group(1))[0] if m else z3.Int(e.name)
    k = type(e).__name__
    if k == 'Uminus':
        return -zeval(e.right)
    a, b = zeval(e.left), zeval(e.right)
    return {'Plus': lambda: a + b, 'Minus': lambda: a - b, 'Times': lambda: a * b, 'Sll': lambda: a * 2 if False else a}[k]()


def decls_of(text):
    """every declaration of module dut: (kind, name, signed, range, dims, value)"""
    text = TOK.sub(lambda m: 'tok_%s_' % m.group(1), text)
    mod = equiv.modules(text)['dut']
    out = []

    def one(v, sec=None):
        kind = type(v).__name__ + ('Reg' if sec is not None and isinstance(sec, va.Reg) else '')
        w = getattr(v, 'width', None)
        d = getattr(v, 'dimensions', None)
        val = getattr(v, 'value', None)
        sg = bool(getattr(v, 'signed', False)) or (sec is not None and bool(sec.signed))
        out.append((kind, v.name, sg, (zeval(w.msb), zeval(w.lsb)) if w is not None else None,
                    [(zeval(l.msb), zeval(l.lsb)) for l in d.lengths] if d is not None else [], zeval(val)))
    for d in (mod.paramlist.params if mod.paramlist else ()):
        for p in (d.list if isinstance(d, va.Decl) else [d]):
            one(p)
    for p in (mod.portlist.ports if mod.portlist else ()):
        one(p.first, p.second)
    for it in equiv.flat_items(mod):
        if isinstance(it, (va.Variable, va.Parameter)):
            one(it)
    return out


def zeq(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return a == b


WKINDS = ['none', 'sym', 'param', 'paramexpr', 'raw', 'rawsym']
DKINDS = ['none', 'sym', 'sym2', 'tuple1', 'param', 'raw']
CALLS = [('Input', 'Input'), ('Output', 'Output'), ('OutputReg', 'OutputReg'), ('Inout', 'Inout'), ('Wire', 'Wire'), ('Reg', 'Reg'),
         ('TmpWire', 'Wire'), ('TmpReg', 'Reg')]


def u_decl(rec, meth, kind):
    """one declaring method: for every width and array length"""
    rec.function('Module.%s' % meth, 'VerilogModuleVisitor.visit_%s' % kind, 'VerilogModuleVisitor.make_width', 'VerilogModuleVisitor.make_dims')
    tmp = meth.startswith('Tmp')
    for wk, dk, sg in itertools.product(WKINDS, DKINDS, (False, True)):
        if meth in ('Input', 'Output', 'OutputReg', 'Inout') and dk != 'none':
            continue      # a port cannot be an array in Verilog-2005
        w, n0, n1, ra, rb = (pyvc.var(x) for x in ('w', 'n0', 'n1', 'ra', 'rb'))
        hyp = [w.t >= 1, n0.t >= 1, n1.t >= 1]
        if (wk.startswith('raw') or dk == 'raw') and meth in ('TmpWire',):
            pass

        def build():
            V.reset()
            m = V.Module('dut')
            P = m.Parameter('P', 8)
            width = {'none': None, 'sym': w, 'param': P, 'paramexpr': P + 2, 'raw': None, 'rawsym': None}[wk]
            dims = {'none': None, 'sym': n0, 'sym2': (n0, n1), 'tuple1': (n0,), 'param': (P, n1), 'raw': None}[dk]
            kw = dict(width=width, dims=dims, signed=sg)
            o = getattr(m, meth)(**kw) if tmp else getattr(m, meth)('x', **kw)
            objs = [o] + ([m.io_variable['x']] if meth == 'OutputReg' else [])
            for o in objs:
                if wk == 'raw':
                    o.raw_width = (9, 2)
                if wk == 'rawsym':
                    o.raw_width = (ra, rb)
                if dk == 'raw':
                    o.raw_dims = ((3, 7), (ra, rb))
            return objs[0].name, m.to_verilog()
        P_ = z3.Int('P')
        want_r = {'none': None, 'sym': (w.t - 1, z3.IntVal(0)), 'param': (P_ - 1, z3.IntVal(0)), 'paramexpr': (P_ + 1, z3.IntVal(0)),
                  'raw': (z3.IntVal(9), z3.IntVal(2)), 'rawsym': (ra.t, rb.t)}[wk]
        z0 = z3.IntVal(0)
        want_d = {'none': [], 'sym': [(z0, n0.t - 1)], 'sym2': [(z0, n0.t - 1), (z0, n1.t - 1)], 'tuple1': [(z0, n0.t - 1)],
                  'param': [(z0, P_ - 1), (z0, n1.t - 1)], 'raw': [(z3.IntVal(3), z3.IntVal(7)), (ra.t, rb.t)]}[dk]
        nm = '%s width=%s dims=%s signed=%s' % (meth, wk, dk, sg)
        try:
            paths = pyvc.explore(build, hyp)
        except Exception as ex:
            rec.holds(nm + ': emitted', False, repr(ex), dict(kind='declaration', call=nm, error=repr(ex)[:600]))
            continue
        for k, (pc, r) in enumerate(paths):
            if isinstance(r, Exception):
                rec.prove('%s: path %d emits' % (nm, k), False, hyp + pc)
                continue
            name, text = r
            ds = [d for d in decls_of(text) if d[0] not in ('Parameter',)]
            info = dict(kind='declaration', call=nm, emitted=text)
            if not rec.holds('%s: one declaration, of its kind, under its name (path %d)' % (nm, k), [(d[0], d[1]) for d in ds] == [(kind, name)], str(ds), info):
                continue
            d = ds[0]
            rec.holds('%s: signedness' % nm, d[2] == sg, str(d), info)

            def cex(model):
                def cv(o):
                    return model.eval(o, True).as_long() if o is not None else None
                return dict(info, values={str(x): str(model[x]) for x in model.decls()}, emitted_range=str([cv(x) for x in d[3] or ()]),
                            emitted_dims=str([(cv(a), cv(b)) for a, b in d[4]]))
            cl = z3.BoolVal((d[3] is None) == (want_r is None)) if d[3] is None or want_r is None else z3.And(d[3][0] == want_r[0], d[3][1] == want_r[1])
            rec.prove('%s: range (path %d)' % (nm, k), cl, hyp + pc, on_fail=cex)
            cl = z3.And([z3.And(a == p, b == q) for (a, b), (p, q) in zip(d[4], want_d)]) if len(d[4]) == len(want_d) else z3.BoolVal(False)
            rec.prove('%s: array dimensions (path %d)' % (nm, k), cl, hyp + pc, on_fail=cex)
    rec.sample('%s: [w-1:0] x [0:n-1] for every w, n >= 1' % meth)


def u_decl_others(rec):
    rec.function('Module.Integer', 'Module.Real', 'Module.Genvar', 'Module.Parameter', 'Module.Localparam', 'Module.TmpLocalparam', 'Module.TmpInteger',
                 'Module.TmpReal', 'Module.TmpGenvar')
    v, w = pyvc.var('v'), pyvc.var('w')
    for meth, kind in (('Parameter', 'Parameter'), ('Localparam', 'Localparam'), ('TmpLocalparam', 'Localparam')):
        for wk, sg in itertools.product(('none', 'sym', 'param', 'rawsym'), (False, True)):
            ra, rb = pyvc.var('ra'), pyvc.var('rb')

            def build():
                V.reset()
                m = V.Module('dut')
                Q = m.Parameter('Q', 5)
                width = {'none': None, 'sym': w, 'param': Q, 'rawsym': None}[wk]
                o = m.TmpLocalparam(v, width, sg) if meth.startswith('Tmp') else getattr(m, meth)('x', v, width, sg)
                if wk == 'rawsym':
                    o.raw_width = (ra, rb)
                return o.name, m.to_verilog()
            Q_ = z3.Int('Q')
            want = {'none': None, 'sym': (w.t - 1, z3.IntVal(0)), 'param': (Q_ - 1, z3.IntVal(0)), 'rawsym': (ra.t, rb.t)}[wk]
            nm = '%s width=%s signed=%s' % (meth, wk, sg)
            for k, (pc, r) in enumerate(pyvc.explore(build, [w.t >= 1])):
                name, text = r
                ds = [d for d in decls_of(text) if d[1] != 'Q']
                info = dict(kind='declaration', call=nm, emitted=text)
                if not rec.holds('%s: declared (path %d)' % (nm, k), [(d[0], d[1]) for d in ds] == [(kind, name)], str(ds), info):
                    continue
                d = ds[0]
                rec.holds('%s: signed (path %d)' % (nm, k), d[2] == sg, str(d), info)
                rec.prove('%s: value (path %d)' % (nm, k), zeq(d[5], v.t), pc)
                rec.prove('%s: range (path %d)' % (nm, k), z3.BoolVal(want is None and d[3] is None) if d[3] is None or want is None else
                          z3.And(d[3][0] == want[0], d[3][1] == want[1]), pc + [w.t >= 1])
    for meth, kind in (('Integer', 'Integer'), ('Real', 'Real'), ('Genvar', 'Genvar'), ('TmpInteger', 'Integer'), ('TmpReal', 'Real'), ('TmpGenvar', 'Genvar')):
        V.reset()
        m = V.Module('dut')
        o = getattr(m, meth)() if meth.startswith('Tmp') else getattr(m, meth)('x')
        ds = decls_of(m.to_verilog())
        if kind == 'Real':     # the parser of the trusted library loses the name
            rec.holds('%s: declared' % meth, re.search(r'\breal\s+%s\s*;' % o.name, m.to_verilog()) is not None, m.to_verilog())
            continue
        rec.holds('%s: declared' % meth, [(d[0], d[1]) for d in ds] == [(kind, o.name)], str(ds), dict(kind='declaration', call=meth, emitted=m.to_verilog()))
    # the ...Like methods give the same declaration as the source
    for meth, kind in CALLS + [('Parameter', 'Parameter'), ('Localparam', 'Localparam')]:
        par = meth in ('Parameter', 'Localparam')
        for src_k, sg, dk in itertools.product(('Reg', 'Wire', 'Input', 'Output'), (False, True), ('none', 'sym')):
            if (par or meth in ('Input', 'Output', 'OutputReg', 'Inout') or src_k in ('Input', 'Output')) and dk != 'none':
                continue
            n0 = pyvc.var('n0')

            def build():
                V.reset()
                s = V.Module('src')
                src = getattr(s, src_k)('x', w, dims=n0 if dk == 'sym' else None, signed=sg, value=v if par else None)
                m = V.Module('dut')
                o = getattr(m, meth + 'Like')(src, **(dict(signed=None) if par else {}))
                return o.name, m.to_verilog()
            nm = '%sLike of a %s dims=%s signed=%s' % (meth, src_k, dk, sg)
            for k, (pc, r) in enumerate(pyvc.explore(build, [w.t >= 1, n0.t >= 1])):
                name, text = r
                ds = decls_of(text)
                info = dict(kind='declaration', call=nm, emitted=text)
                if not rec.holds('%s: declared (path %d)' % (nm, k), [(d[0], d[1]) for d in ds] == [(kind, name)] and (meth.startswith('Tmp') or name == 'x'), str(ds), info):
                    continue
                d = ds[0]
                ok = d[3] is not None and len(d[4]) == (1 if dk == 'sym' else 0)
                rec.holds('%s: signed (path %d)' % (nm, k), d[2] == sg, str(d), info)
                cl = z3.And([d[3][0] == w.t - 1, d[3][1] == 0] + [z3.And(a == 0, b == n0.t - 1) for a, b in d[4]]) if ok else z3.BoolVal(False)
                rec.prove('%s: range and dimensions (path %d)' % (nm, k), cl, pc + [w.t >= 1, n0.t >= 1], on_fail=lambda mo: info)
                if par:
                    rec.prove('%s: value (path %d)' % (nm, k), zeq(d[5], v.t), pc, on_fail=lambda mo: info)


# -------------------------------------------------------------- statements --
class S(object):
    def __init__(self, py, text, what):
        self.py, self.text, self.what = py, text, what


NR = 6


def leaf(i, blk=False):
    """r_i gets a value that depends on another register (order matters)"""
    j = (i + 1) % NR
    o = '=' if blk else '<='
    return S(lambda e: e['r%d' % i](e['r%d' % j] + e['d%d' % (i % 3)], blk=blk), 'r%d %s (r%d + d%d);' % (i, o, j, i % 3), 'r%d%s' % (i, '=' if blk else '<='))


def opaque(i):
    """a statement the visitor cannot look into"""
    t = 'r%d <= r%d ^ d%d;' % (i, (i + 2) % NR, i % 3)
    return S(lambda e: vt.EmbeddedCode(t), t, '<code %d>' % i)


CN = ['c0', 'c1', 'rst', 'my_reset']


def cnd(k):
    """conditions: plain names, names with a reset in them, expressions"""
    opts = [(lambda e: e['c0'], 'c0'), (lambda e: e['c1'], 'c1'), (lambda e: e['d0'] > 3, '(d0 > 3)'), (lambda e: e['my_reset'], 'my_reset'),
            (lambda e: vt.Not(e['c1']), '(!c1)'), (lambda e: e['d1'] == e['d2'], '(d1 == d2)'), (lambda e: e['srst'], 'srst')]
    return opts[k % len(opts)]


def lst(x):
    return x if isinstance(x, (list, tuple)) else [x]


def blk(xs):
    return 'begin\n%s\nend' % '\n'.join(x.text for x in lst(xs))


def wh(xs):
    return ' '.join(x.what for x in lst(xs))


def pys(e, xs):
    return [x.py(e) for x in lst(xs)]


def s_if(k, t):
    c = cnd(k)
    return S(lambda e: vt.If(c[0](e))(*pys(e, t)), 'if (%s) %s' % (c[1], blk(t)), 'If(%s){%s}' % (c[1], wh(t)))


def s_ifelse(k, t, f, form=0):
    c = cnd(k)

    def py(e):
        if form == 0:
            return vt.If(c[0](e))(*pys(e, t))(*pys(e, f))
        if form == 1:
            return vt.If(c[0](e))(*pys(e, t)).Else(*pys(e, f))
        if form == 2:
            return vt.If(c[0](e)).set_true_statement(*pys(e, t)).set_false_statement(*pys(e, f))
        if form == 3:
            return vt.PatternIf((c[0](e), pys(e, t)), (None, pys(e, f)))
        return vt.PatternIf([(c[0](e), tuple(pys(e, t))), (None, pys(e, f))])
    return S(py, 'if (%s) %s else %s' % (c[1], blk(t), blk(f)), 'If%d(%s){%s}else{%s}' % (form, c[1], wh(t), wh(f)))


def s_elif(ks, bodies, els=None, form=0):
    cs = [cnd(k) for k in ks]

    def py(e):
        if form == 0:
            r = vt.If(cs[0][0](e))(*pys(e, bodies[0]))
            for c, b in zip(cs[1:], bodies[1:]):
                r = r.Elif(c[0](e))(*pys(e, b))
            return r.Else(*pys(e, els)) if els else r
        if form == 1:
            r = vt.If(cs[0][0](e))(*pys(e, bodies[0]))
            for c, b in zip(cs[1:], bodies[1:]):
                r.Elif(c[0](e))
                r(*pys(e, b))
            if els:
                r(*pys(e, els))
            return r
        ps = [(c[0](e), pys(e, b)) for c, b in zip(cs, bodies)] + ([(None, pys(e, els))] if els else [])
        return vt.PatternIf(*ps) if form == 2 else vt.PatternIf(ps)
    t = ' else '.join('if (%s) %s' % (c[1], blk(b)) for c, b in zip(cs, bodies)) + (' else %s' % blk(els) if els else '')
    # written out with explicit nesting
    t = blk(els) if els else None
    for c, b in reversed(list(zip(cs, bodies))):
        t = 'if (%s) %s%s' % (c[1], blk(b), ' else begin\n%s\nend' % t if t else '')
    return S(py, t, 'Elif%d[%s]%s' % (form, '; '.join('%s{%s}' % (c[1], wh(b)) for c, b in zip(cs, bodies)), 'else{%s}' % wh(els) if els else ''))


def s_case(comp, whens, x=False, form=0):
    """whens: [(list of label texts or None, body)]"""
    C = vt.Casex if x else vt.Case

    def lab(e, l):
        if isinstance(l, str) and l in e:
            return e[l]
        return vt.Int(l) if isinstance(l, str) else l

    def py(e):
        ws = []
        for ls, b in whens:
            w = vt.When(*[lab(e, l) for l in ls]) if ls is not None else (vt.When() if form != 1 else vt.When(None))
            if form == 2:
                for s in pys(e, b):
                    w.add(s)
            else:
                w = w(*pys(e, b))
            ws.append(w)
        c = C(e[comp])
        if form == 2:
            for w in ws:
                c.add(w)
            return c
        return c(*ws)
    t = '%s(%s)\n%s\nendcase' % ('casex' if x else 'case', comp, '\n'.join(
        '%s: %s' % (', '.join(str(l) for l in ls) if ls is not None else 'default', blk(b)) for ls, b in whens))
    return S(py, t, '%s%d(%s)[%s]' % ('Casex' if x else 'Case', form, comp, '; '.join('%s{%s}' % (ls, wh(b)) for ls, b in whens)))


def s_for(n, body, form=0):
    def py(e):
        i = e['i']
        f = vt.For(i(0), i < n, i(i + 1))
        if form:
            for s in pys(e, body):
                f.add(s)
            return f
        return f(*pys(e, body))
    return S(py, 'for (i = 0; i < %d; i = i + 1) %s' % (n, blk(body)), 'For(%d){%s}' % (n, wh(body)))


def s_while(n, body):
    def py(e):
        j = e['j']
        return [j(0, blk=True), vt.While(j < n)(*(pys(e, body) + [j(j + 1, blk=True)]))]
    return S(py, 'begin j = 0; while (j < %d) begin\n%s\nj = j + 1;\nend end' % (n, '\n'.join(x.text for x in lst(body))), 'While(%d){%s}' % (n, wh(body)))


def loopleaf():
    return S(lambda e: e['mem'][e['i']](e['mem'][e['i']] + e['d0'] + e['i']), 'mem[i] <= mem[i] + d0 + i;', 'mem[i]')


def s_list(xs):
    return S(lambda e: pys(e, xs), blk(xs), '[%s]' % wh(xs))


DECL = """input CLK; input c0; input c1; input my_reset; input srst; input [7:0] d0; input [7:0] d1; input [7:0] d2;
output reg [7:0] y; %s reg [7:0] mem [0:7]; integer i; integer j; reg signed [11:0] sr; reg [31:0] w; wire [3:0] n0;
assign n0 = d0[3:0];""" % ' '.join('reg [7:0] r%d;' % i for i in range(NR))


def env_module():
    V.reset()
    m = V.Module('dut')
    e = {}
    for n in ('CLK', 'c0', 'c1', 'my_reset', 'srst'):
        e[n] = m.Input(n)
    for n in ('d0', 'd1', 'd2'):
        e[n] = m.Input(n, 8)
    e['y'] = m.OutputReg('y', 8)
    for i in range(NR):
        e['r%d' % i] = m.Reg('r%d' % i, 8)
    e['mem'] = m.Reg('mem', 8, dims=8)
    e['i'] = m.Integer('i')
    e['j'] = m.Integer('j')
    e['sr'] = m.Reg('sr', 12, signed=True)
    e['w'] = m.Reg('w', 32)
    e['n0'] = m.Wire('n0', 4)
    e['n0'].assign(e['d0'][3:0] if False else e['d0'][0:4])
    return m, e


def emit_always(prog, kind='seq'):
    try:
        m, e = env_module()
        a = m.Always(vt.Posedge(e['CLK'])) if kind == 'seq' else m.Always(vt.SensitiveAll()) if kind == 'all' else m.Always()
        a(*pys(e, prog))
        return m.to_verilog()
    except Exception as ex:
        return ex


def ref_always(prog, kind='seq'):
    return 'module dut(CLK, c0, c1, my_reset, srst, d0, d1, d2, y);\n%s\nalways @(%s) %s\nendmodule' % (
        DECL, 'posedge CLK' if kind == 'seq' else '*', blk(prog))


def constructs(a, b, c, k):
    """every statement constructor over the sub statements a, b, c"""
    out = [s_if(k, [a]), s_if(k + 3, [a, b])]
    out += [s_ifelse(k + q, [a], [b], f) for f in range(5) for q in (0, 3)]
    out += [s_ifelse(k, [a, b], [c]), s_ifelse(k + 6, [a], [b, c])]
    out += [s_elif([k, k + 1], [[a], [b]], None, f) for f in range(4)]
    out += [s_elif([k, k + 2], [[a], [b]], [c], f) for f in range(4)]
    out += [s_elif([k, k + 1, k + 3], [[a], [b], [c]], [a], f) for f in range(4)]
    out += [s_elif([k, k + 1, k + 2], [[a], [b, c], [c]], None, f) for f in (0, 2)]
    out += [s_case('d0', [([1], [a]), ([2, 5], [b]), (None, [c])], f % 2 == 1 and False, f) for f in range(3)]
    out += [s_case('n0', [(["4'b1xx0"], [a]), (["4'b01x1", "4'bx01x"], [b]), (None, [c])], True, f) for f in range(3)]
    out += [s_case('d0', [(['d1'], [a]), (['d2', 7], [b, c])], False, 0), s_case('n0', [([0], [a]), ([0, 1], [b])], False, 2)]
    out += [s_list([a, b]), s_list([s_list([a]), b, s_list([])])]
    return out


def u_stmt1(rec, nm, kind):
    rec.function('VerilogCommonVisitor.visit_If', 'visit_Case', 'visit_Casex', 'visit_When', 'visit_For', 'visit_While', 'visit_list', '_optimize_block',
                 'VerilogAlwaysVisitor.visit_Subst', 'vtypes.If', 'vtypes.Elif', 'vtypes.Else', 'vtypes.Case', 'vtypes.When', 'vtypes.PatternIf', 'visit_EmbeddedCode')
    b = kind != 'seq'
    mk = (lambda i: leaf(i, b)) if not (kind == 'op') else opaque
    if kind == 'op':
        mk = opaque
    progs = []
    for k in range(3):
        for s in constructs(mk(0), mk(1), mk(2), k):
            progs.append([s])
            progs.append([mk(3), s, mk(4), mk(0)])
    for n in (0, 1, 3, 8):
        for f in (0, 1):
            progs.append([s_for(n, [loopleaf()], f), mk(0)])
            progs.append([mk(1), s_for(n, [loopleaf(), S(lambda e: e['r2'](e['r2'] + e['i'], blk=True), 'r2 = r2 + i;', 'r2+=i')], f)])
        progs.append([s_while(n, [S(lambda e: e['r2'](e['r2'] + e['j'], blk=True), 'r2 = r2 + j;', 'r2+=j')])])
    for i, p in enumerate(progs):
        if kind in ('all', 'default') and any('For' in s.what or 'While' in s.what for s in p):
            continue
        if kind in ('all', 'default'):
            p = [defaults()] + p
        equiv.compare(rec, '%s %d %s' % (nm, i, ' ; '.join(s.what for s in p)[-80:]), emit_always(p, kind if kind in ('all', 'default') else 'seq'),
                      ref_always(p, kind if kind in ('all', 'default') else 'seq'), 'dut', what=' ; '.join(s.what for s in p),
                      ignore=('i', 'j'))


def defaults():
    """a combinational block assigns everything first"""
    return S(lambda e: [e['r%d' % i](e['d%d' % (i % 3)] + i, blk=True) for i in range(NR)],
             '\n'.join('r%d = d%d + %d;' % (i, i % 3, i) for i in range(NR)), 'defaults')


def u_stmt2(rec, part, parts):
    """every constructor directly below every other (the flattening of blocks
    and of else-if chains looks one level down)"""
    rec.function('VerilogCommonVisitor.visit_If', '_optimize_block')
    n = 0
    inner = constructs(leaf(0), leaf(1), leaf(2), 1)
    jobs = []
    for ii, x in enumerate(inner):
        for oo, s in enumerate(constructs(x, leaf(3), x, 0) + constructs(leaf(4), x, leaf(5), 2)):
            jobs.append((ii, oo, s))
    if not rec.thorough:
        jobs = [j for q, j in enumerate(jobs) if q % 3 == rec.seed % 3 or j[1] % 7 == 2]
    for q, (ii, oo, s) in enumerate(jobs):
        if q % parts != part:
            continue
        p = [s, leaf(5)]
        equiv.compare(rec, 'nest %d.%d' % (ii, oo), emit_always(p), ref_always(p), 'dut', what=s.what, ignore=('i', 'j'), decls=(q % 40 == part))


def u_random(rec, part, count):
    rng = random.Random('%s stmt %d' % (rec.seed, part))

    def stmt(d, blkk):
        if d == 0 or rng.random() < 0.15:
            return leaf(rng.randrange(NR), blkk)
        return rng.choice(constructs(stmt(d - 1, blkk), stmt(d - 1, blkk), stmt(d - 1, blkk), rng.randrange(7)))
    for i in range(count):
        bk = rng.random() < 0.4
        p = [stmt(rng.choice([2, 3, 4]), bk) for _ in range(rng.randrange(1, 4))]
        equiv.compare(rec, 'random %d' % i, emit_always(p), ref_always(p), 'dut', what=' ; '.join(s.what for s in p)[:2000], ignore=('i', 'j'), decls=False)


def lhs_progs(b):
    o = '=' if b else '<='

    def A(f, t):
        return S(f, t, t)
    return [
        A(lambda e: e['r0'](e['d0'], blk=b), 'r0 %s d0;' % o),
        A(lambda e: e['r0'].write(e['d0'], blk=b), 'r0 %s d0;' % o),
        A(lambda e: e['r0'][2](e['c0'], blk=b), 'r0[2] %s c0;' % o),
        A(lambda e: e['r0'][e['n0']](e['c0'], blk=b), 'r0[n0] %s c0;' % o),
        A(lambda e: e['r0'][-1](e['c0'], blk=b), 'r0[7] %s c0;' % o),
        A(lambda e: e['r0'][1:4](e['d0'], blk=b), 'r0[3:1] %s d0;' % o),
        A(lambda e: e['mem'][3](e['d1'], blk=b), 'mem[3] %s d1;' % o),
        A(lambda e: e['mem'][e['n0'][0:3]](e['d1'], blk=b), 'mem[n0[2:0]] %s d1;' % o),
        A(lambda e: e['mem'][e['r1'][0:3]](e['d1'] + 1, blk=b), 'mem[r1[2:0]] %s d1 + 1;' % o),
        A(lambda e: vt.Cat(e['r0'], e['r1'])(e['w'], blk=b), '{r0, r1} %s w;' % o),
        A(lambda e: vt.Cat(e['r2'][0:3], e['r3'][7], e['sr'])(e['w'] + e['d0'], blk=b), '{r2[2:0], r3[7], sr} %s w + d0;' % o),
        A(lambda e: e['sr'](e['d0'], blk=b), 'sr %s d0;' % o),
        A(lambda e: e['sr'](-1, blk=b), 'sr %s -1;' % o),
        A(lambda e: e['w'](True, blk=b), 'w %s 1;' % o),
        A(lambda e: e['r0'].inc(), 'r0 <= r0 + 1;'), A(lambda e: e['r0'].dec(), 'r0 <= r0 - 1;'),
        A(lambda e: e['r0'].add(e['d0']), 'r0 <= r0 + d0;'), A(lambda e: e['r0'].sub(e['d0']), 'r0 <= r0 - d0;'),
        A(lambda e: e['r0'](vt.EmbeddedNumeric('d0 ^ 8\'h55'), blk=b), "r0 %s d0 ^ 8'h55;" % o),
        A(lambda e: vt.Subst(e['r0'], e['d1'], blk=b), 'r0 %s d1;' % o),
        A(lambda e: e['r5'].write(vt.Mux(e['c0'], e['d0'], e['r4']), blk=b), 'r5 %s c0 ? d0 : r4;' % o),
    ]


def u_subst(rec):
    rec.function('vtypes.Subst', '_write_subst', 'Pointer.write', 'Slice.write', 'Cat.write', 'visit_Subst', 'VerilogBlockingVisitor.visit_Subst')
    for b in (False, True):
        L = lhs_progs(b)
        for i, s in enumerate(L):
            p = [s]
            equiv.compare(rec, 'assignment %s' % s.text, emit_always(p), ref_always(p), 'dut', what=s.text, ignore=('i', 'j'))
        for i in range(len(L)):
            p = [L[i], L[(i * 7 + 3) % len(L)], L[(i * 5 + 1) % len(L)]]
            equiv.compare(rec, 'assignments %d %s' % (i, b), emit_always(p), ref_always(p), 'dut', what=' '.join(x.text for x in p), ignore=('i', 'j'))


# ------------------------------------------------------------ whole modules --
MODS = []


def mod(params=None, kind='eq', tb=''):
    def d(f):
        MODS.append((f.__name__, f, f.__doc__, params, kind, tb))
        return f
    return d


def sub_module(name='sub', w=8):
    s = V.Module(name)
    P = s.Parameter('W', w)
    Q = s.Parameter('K', 3)
    clk = s.Input('CLK')
    a = s.Input('a', P)
    b = s.Input('b', P, signed=True)
    y = s.Output('y', P)
    z = s.OutputReg('z', P)
    y.assign(a + b * Q)
    s.Always(vt.Posedge(clk))(z(a - b + Q))
    return s


SUB = """module sub #(parameter W = 8, parameter K = 3) (input CLK, input [W-1:0] a, input signed [W-1:0] b, output [W-1:0] y, output reg [W-1:0] z);
assign y = a + b * K; always @(posedge CLK) z <= a - b + K; endmodule
"""


@mod()
def inst_named():
    """module dut(input CLK, input [7:0] p, input [7:0] q, output [7:0] u, output [7:0] v);
    sub #(.W(8), .K(5)) i0 (.CLK(CLK), .a(p), .b(q), .y(u), .z(v)); endmodule SUB"""
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Input('q', 8)
    u, v = m.Output('u', 8), m.Output('v', 8)
    m.Instance(sub_module(), 'i0', params=[('W', 8), ('K', 5)], ports=[('CLK', clk), ('a', p), ('b', q), ('y', u), ('z', v)])
    return m


@mod()
def inst_dict():
    """module dut(input CLK, input [7:0] p, input [7:0] q, output [7:0] u, output [7:0] v);
    sub #(.K(7)) i0 (.z(v), .y(u), .CLK(CLK), .b(p), .a(q)); endmodule SUB"""
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Input('q', 8)
    u, v = m.Output('u', 8), m.Output('v', 8)
    m.Instance(sub_module(), 'i0', params={'K': 7}, ports={'z': v, 'y': u, 'CLK': clk, 'b': p, 'a': q})
    return m


@mod()
def inst_positional():
    """module dut(input CLK, input [7:0] p, input [7:0] q, output [7:0] u, output [7:0] v);
    sub #(8, 9) i0 (CLK, p, q, u, v); sub #(.W(4)) i1 (.CLK(CLK), .a(p[3:0]), .b(q[7:4]), .y(), .z()); endmodule SUB"""
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Input('q', 8)
    u, v = m.Output('u', 8), m.Output('v', 8)
    s = sub_module()
    m.Instance(s, 'i0', params=(8, 9), ports=(clk, p, q, u, v))
    m.Instance(s, 'i1', params=(4,), ports=(clk, p[0:4], q[4:8]))
    return m


@mod(dict(N=4))
def inst_params_expr():
    """module dut #(parameter N = 4) (input CLK, input [7:0] p, output [7:0] u, output [7:0] v); localparam L = N * 2;
    wire [7:0] t; assign t = p ^ 8'd3;
    sub #(.W(L), .K(N + 1)) i0 (.CLK(CLK), .a(t), .b(p + 1), .y(u), .z(v)); endmodule SUB"""
    m = V.Module('dut')
    N = m.Parameter('N', 4)
    L = m.Localparam('L', N * 2)
    clk, p = m.Input('CLK'), m.Input('p', 8)
    u, v = m.Output('u', 8), m.Output('v', 8)
    t = m.Wire('t', 8)
    t.assign(p ^ vt.Int(3, width=8))
    m.Instance(sub_module(), 'i0', params=[('W', L), ('K', N + 1)], ports=[('CLK', clk), ('a', t), ('b', p + 1), ('y', u), ('z', v)])
    return m


@mod()
def two_variants():
    """module dut(input CLK, input [7:0] p, output [7:0] u, output [7:0] v, output [7:0] x);
    sub i0 (.CLK(CLK), .a(p), .b(p), .y(u), .z(x)); sub_ i1 (.CLK(CLK), .a(p), .y(v)); endmodule
    module sub_ (input CLK, input [7:0] a, output [7:0] y); assign y = ~a; endmodule SUB"""
    m = V.Module('dut')
    clk, p = m.Input('CLK'), m.Input('p', 8)
    u, v, x = m.Output('u', 8), m.Output('v', 8), m.Output('x', 8)
    s = V.Module('sub')
    c2, a = s.Input('CLK'), s.Input('a', 8)
    s.Output('y', 8).assign(~a)
    m.Instance(sub_module(), 'i0', ports=[('CLK', clk), ('a', p), ('b', p), ('y', u), ('z', x)])
    m.Instance(s, 'i1', ports=[('CLK', clk), ('a', p), ('y', v)])
    return m


@mod()
def three_levels():
    """module dut(input CLK, input [7:0] p, output [7:0] u, output [7:0] v); mid m0 (.CLK(CLK), .p(p), .u(u), .v(v)); endmodule
    module mid(input CLK, input [7:0] p, output [7:0] u, output [7:0] v); sub #(.K(2)) i0 (.CLK(CLK), .a(p), .b(8'd9), .y(u), .z(v)); endmodule SUB"""
    k = V.Module('mid')
    clk, p, u, v = k.Input('CLK'), k.Input('p', 8), k.Output('u', 8), k.Output('v', 8)
    k.Instance(sub_module(), 'i0', params=[('K', 2)], ports=[('CLK', clk), ('a', p), ('b', vt.Int(9, width=8)), ('y', u), ('z', v)])
    m = V.Module('dut')
    clk, p, u, v = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8), m.Output('v', 8)
    m.Instance(k, 'm0', ports=V.connect_same_name(clk, p, [u, v]))
    return m


def sm(nm, ref, f, params=None):
    MODS.append((nm, f, ref, params, 'eq', ''))


SMH = """module dut(input CLK, input [7:0] p, output [7:0] o); wire [7:0] x_y; wire [7:0] x_z; assign o = x_y ^ x_z;
    %s sub #(.K(4)) x (.CLK(%s), .a(%s), .b(%s), .y(x_y), .z(x_z)); endmodule SUB"""


def sub_top():
    m = V.Module('dut')
    return (m, m.Input('CLK'), m.Input('p', 8), m.Output('o', 8))


def sm_ports():
    m, clk, p, o = sub_top()
    s = V.Submodule(m, sub_module(), 'x', 'x_', arg_params=[('K', 4)], arg_ports=[('CLK', clk), ('a', p), ('b', p + 1)])
    o.assign(s['y'] ^ s['z'])
    return m


def sm_regs():
    m, clk, p, o = sub_top()
    s = V.Submodule(m, sub_module(), 'x', 'x_', arg_params=[('K', 4)], arg_ports=[('CLK', clk)])
    o.assign(s['y'] ^ s['z'])
    m.Always(vt.Posedge(clk))(s['a'](p), s['b'](p + s['a']))
    return m


def sm_wires(as_wire):
    def f():
        m, clk, p, o = sub_top()
        s = V.Submodule(m, sub_module(), 'x', 'x_', arg_params=[('K', 4)], arg_ports=[('CLK', clk)], as_wire=as_wire)
        s['a'].assign(p)
        s['b'].assign(p + 1)
        o.assign(s['y'] ^ s['z'])
        return m
    return f


def sm_attr():
    m, clk, p, o = sub_top()
    s = V.Submodule(m, sub_module(), 'x', arg_params=[('K', 4)], arg_ports=[('CLK', clk), ('a', p), ('b', p + 1)])
    o.assign(s.y ^ s.z)
    return m


sm('submodule_ports', SMH % ('', 'CLK', 'p', 'p + 1'), sm_ports)
sm('submodule_regs', SMH % ('reg [7:0] x_a; reg signed [7:0] x_b; always @(posedge CLK) begin x_a <= p; x_b <= p + x_a; end', 'CLK', 'x_a', 'x_b'), sm_regs)
sm('submodule_wire_names', SMH % ('wire [7:0] x_a; wire signed [7:0] x_b; assign x_a = p; assign x_b = p + 1;', 'CLK', 'x_a', 'x_b'), sm_wires(('a', 'b')))
sm('submodule_attributes', SMH % ('', 'CLK', 'p', 'p + 1'), sm_attr)


@mod(dict(N=4))
def gen_for():
    """module dut #(parameter N = 4) (input CLK, input [7:0] p, output [7:0] u); genvar g;
    generate for (g = 0; g < N; g = g + 1) begin : lp
      wire [7:0] t; reg [7:0] acc; assign t = p + g; always @(posedge CLK) acc <= acc ^ t; end endgenerate
    assign u = lp[1].acc; endmodule"""
    m = V.Module('dut')
    N = m.Parameter('N', 4)
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    g = m.Genvar('g')
    f = m.GenerateFor(g(0), g < N, g(g + 1), scope='lp')
    t = f.Wire('t', 8)
    acc = f.Reg('acc', 8)
    f.Assign(t(p + g))
    f.Always(vt.Posedge(clk))(acc(acc ^ t))
    u.assign(vt.Scope(f[1], acc))
    return m


@mod(dict(N=4))
def gen_for_inst():
    """module dut #(parameter N = 4) (input CLK, input [7:0] p, output [7:0] u); genvar g;
    generate for (g = 0; g < N; g = g + 1) begin : lp
      wire [7:0] y; wire [7:0] z; sub #(.K(N)) i (.CLK(CLK), .a(p), .b(p + g), .y(y), .z(z)); end endgenerate
    assign u = lp[2].z + lp[3].y; endmodule SUB"""
    m = V.Module('dut')
    N = m.Parameter('N', 4)
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    g = m.Genvar('g')
    f = m.GenerateFor(g(0), g < N, g(g + 1), scope='lp')
    y, z = f.Wire('y', 8), f.Wire('z', 8)
    f.Instance(sub_module(), 'i', params=[('K', N)], ports=[('CLK', clk), ('a', p), ('b', p + g), ('y', y), ('z', z)])
    u.assign(vt.Scope(f[2], z) + vt.Scope(f[3], y))
    return m


GENIF = """module dut #(parameter N = %d) (input CLK, input [7:0] p, output [7:0] u, output [7:0] v); reg [7:0] w; assign u = w;
    generate if (N > 2) begin : big assign v = p; wire [7:0] t; assign t = p ^ 8'd9; always @(posedge CLK) begin w <= t + 1; end end
    else begin : small reg [7:0] k; always @(posedge CLK) begin k <= p; w <= k - 1; end end endgenerate endmodule"""


def gen_if(n):
    m = V.Module('dut')
    N = m.Parameter('N', n)
    clk, p, u, v = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8), m.Output('v', 8)
    w = m.Reg('w', 8)
    u.assign(w)
    f = m.GenerateIf(N > 2, scope='big')
    f.Assign(v(p))
    t = f.Wire('t', 8)
    t.assign(p ^ vt.Int(9, width=8))
    f.Always(vt.Posedge(clk))(w(t + 1))
    e = f.Else('small')
    k = e.Reg('k', 8)
    e.Always(vt.Posedge(clk))(k(p), w(k - 1))
    return m


def gen_if_true():
    return gen_if(4)


def gen_if_false():
    return gen_if(1)


MODS.append(('gen_if_true', gen_if_true, GENIF % 4, dict(N=4), 'eq', ''))
MODS.append(('gen_if_false', gen_if_false, GENIF % 1, dict(N=1), 'eq', ''))


@mod(dict(N=1))
def gen_if_inst():
    """module dut #(parameter N = 1) (input CLK, input [7:0] p, output [7:0] u); wire [7:0] w; wire [7:0] x; wire [7:0] k; assign u = w + x + k;
    generate if (N > 2) begin : big assign k = p + 1; end else begin : small sub i (.CLK(CLK), .a(p), .b(p), .y(w), .z(x)); end endgenerate endmodule SUB"""
    m = V.Module('dut')
    N = m.Parameter('N', 1)
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    w, x, k = m.Wire('w', 8), m.Wire('x', 8), m.Wire('k', 8)
    u.assign(w + x + k)
    f = m.GenerateIf(N > 2, scope='big')
    f.Assign(k(p + 1))
    e = f.Else('small')
    e.Instance(sub_module(), 'i', ports=[('CLK', clk), ('a', p), ('b', p), ('y', w), ('z', x)])
    return m


@mod(dict(N=3))
def gen_if_inst_true():
    """module dut #(parameter N = 3) (input CLK, input [7:0] p, output [7:0] u); wire [7:0] w; wire [7:0] x; wire [7:0] k; assign u = w + x + k;
    generate if (N > 2) begin : big sub i (.CLK(CLK), .a(p), .b(p), .y(w), .z(x)); end else begin : small assign k = p; end endgenerate endmodule SUB"""
    m = V.Module('dut')
    N = m.Parameter('N', 3)
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    w, x, k = m.Wire('w', 8), m.Wire('x', 8), m.Wire('k', 8)
    u.assign(w + x + k)
    f = m.GenerateIf(N > 2, scope='big')
    f.Instance(sub_module(), 'i', ports=[('CLK', clk), ('a', p), ('b', p), ('y', w), ('z', x)])
    f.Else('small').Assign(k(p))
    return m


@mod()
def gen_nested():
    """module dut #(parameter N = 3) (input CLK, input [7:0] p, output [23:0] u); genvar g;
    generate for (g = 0; g < 3; g = g + 1) begin : lp
      if (g == 1) begin : odd assign u[(g*8)+7:g*8] = p + 7; end else begin : even assign u[(g*8)+7:g*8] = p - g; end
    end endgenerate endmodule"""
    m = V.Module('dut')
    m.Parameter('N', 3)
    m.Input('CLK')
    p, u = m.Input('p', 8), m.Output('u', 24)
    g = m.Genvar('g')
    f = m.GenerateFor(g(0), g < 3, g(g + 1), scope='lp')
    i = f.GenerateIf(g == 1, scope='odd')
    i.Assign(vt.Slice(u, g * 8 + 7, g * 8)(p + 7))
    i.Else('even').Assign(vt.Slice(u, g * 8 + 7, g * 8)(p - g))
    return m


@mod()
def functions():
    """module dut(input CLK, input [7:0] p, input [7:0] q, output [15:0] u, output reg [7:0] v);
    function [15:0] f; input [7:0] a; input signed [7:0] b; reg [7:0] t; begin t = a ^ 8'd3; if (t > b) begin f = t * 2; end else begin f = b + t; end end endfunction
    function g; input [7:0] a; begin g = a[3]; end endfunction
    assign u = f(p, q); always @(posedge CLK) v <= f(q, p + 1) + g(p); endmodule"""
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Input('q', 8)
    u, v = m.Output('u', 16), m.OutputReg('v', 8)
    f = m.Function('f', 16)
    a, b, t = f.Input('a', 8), f.Input('b', 8, signed=True), f.Reg('t', 8)
    f.Body(t(a ^ vt.Int(3, width=8)), vt.If(t > b)(f(t * 2)).Else(f(b + t)))
    g = m.Function('g')
    a = g.Input('a', 8)
    g.Body(g(a[3]))
    u.assign(f.call(p, q))
    m.Always(vt.Posedge(clk))(v(f.call(q, p + 1) + g.call(p)))
    return m


@mod()
def function_loop():
    """module dut(input CLK, input [7:0] p, output [3:0] u);
    function [3:0] cnt; input [7:0] a; integer i; begin cnt = 0; for (i = 0; i < 8; i = i + 1) begin if (a[i]) begin cnt = cnt + 1; end end end endfunction
    assign u = cnt(p); endmodule"""
    m = V.Module('dut')
    m.Input('CLK')
    p, u = m.Input('p', 8), m.Output('u', 4)
    f = m.Function('cnt', 4)
    a, i = f.Input('a', 8), f.Integer('i')
    f.Body(vt.Subst(f, 0), vt.For(i(0), i < 8, i(i + 1))(vt.If(a[i])(vt.Subst(f, vt.EmbeddedNumeric('cnt + 1')))))
    u.assign(f.call(p))
    return m


@mod(kind='run', tb="""module tb; reg CLK = 0; reg [7:0] p = 5; wire [7:0] u; dut d(CLK, p, u);
 initial begin repeat (6) begin #5 CLK = 1; #5 CLK = 0; p = p * 3 + 1; $display("%d %d", p, u); end $finish; end endmodule""")
def tasks():
    """module dut(input CLK, input [7:0] p, output reg [7:0] u);
    task t; input [7:0] a; input [7:0] b; reg [7:0] k; begin k = a + b; u = k ^ 1; end endtask
    always @(posedge CLK) begin t(p, p + 3); end endmodule"""
    m = V.Module('dut')
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.OutputReg('u', 8)
    t = m.Task('t')
    a, b, k = t.Input('a', 8), t.Input('b', 8), t.Reg('k', 8)
    t.Body(k(a + b), u(k ^ 1))
    m.Always(vt.Posedge(clk))(t.call(p, p + 3))
    return m


@mod()
def assigns():
    """module dut(input CLK, input [7:0] p, input signed [3:0] q, output [15:0] u, output signed [15:0] v, output [7:0] x, inout [3:0] io);
    wire [7:0] t0, t1; wire c; assign {c, t0} = p + q; assign u[7:0] = t0; assign u[15:8] = {8{c}}; assign v = q; assign x[0] = c; assign x[7:1] = t1[6:0]; assign t1 = p >> 1; endmodule"""
    m = V.Module('dut')
    m.Input('CLK')
    p, q = m.Input('p', 8), m.Input('q', 4, signed=True)
    u, v, x, io = m.Output('u', 16), m.Output('v', 16, signed=True), m.Output('x', 8), m.Inout('io', 4)
    t0, t1, c = m.Wire('t0', 8), m.Wire('t1', 8), m.Wire('c')
    m.Assign(vt.Cat(c, t0)(p + q))
    u[0:8].assign(t0)
    u[8:16].assign(vt.Repeat(c, 8))
    v.assign(q)
    x[0].assign(c)
    m.Assign(x[1:8](t1[0:7]))
    t1.connect(p >> 1)
    return m


@mod()
def probe():
    """module dut(input CLK, input [7:0] p, output [7:0] u); reg [7:0] r; wire [7:0] _probe_0; assign _probe_0 = r; always @(posedge CLK) begin r <= p; end assign u = _probe_0; endmodule"""
    m = V.Module('dut')
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    r = m.Reg('r', 8)
    m.Always(vt.Posedge(clk))(r(p))
    u.assign(m.Probe(r))
    return m


@mod()
def reg_connect():
    """module dut(input CLK, input [7:0] p, output [7:0] u); reg [7:0] r; wire [7:0] _tmp_0; assign _tmp_0 = p + 1; always @(*) begin r = _tmp_0; end assign u = r; endmodule"""
    m = V.Module('dut')
    m.Input('CLK')
    p, u = m.Input('p', 8), m.Output('u', 8)
    r = m.Reg('r', 8)
    r.connect(p + 1)
    u.assign(r)
    return m


@mod()
def comb_initial():
    """module dut(input CLK, input [7:0] p, output [7:0] u); reg [7:0] r; reg [7:0] k; integer i; reg [7:0] mem [0:3];
    initial begin r = 5; k = r + 2; for (i = 0; i < 4; i = i + 1) begin mem[i] = i * 3; end if (k == 7) begin r = 9; end end
    always @(posedge CLK) begin r <= r + p; end assign u = r + k + mem[p[1:0]]; endmodule"""
    m = V.Module('dut')
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    r, k, i, mem = m.Reg('r', 8), m.Reg('k', 8), m.Integer('i'), m.Reg('mem', 8, dims=4)
    ini = m.Initial(r(5), k(r + 2))
    ini.add(vt.For(i(0), i < 4, i(i + 1))(mem[i](i * 3)))
    ini.add(vt.If(k == 7)(r(9)))
    m.Always(vt.Posedge(clk))(r(r + p))
    u.assign(r + k + mem[p[0:2]])
    return m


@mod(kind='ast')
def sensitivities():
    """module dut(input CLK, input RSTN, input [7:0] p, output reg [7:0] a, output reg [7:0] b, output reg [7:0] c, output reg [7:0] d, output reg [7:0] e);
    always @(posedge CLK or negedge RSTN) begin if (!RSTN) begin a <= 0; end else begin a <= p; end end
    always @(negedge CLK) begin b <= p; end
    always @(p or a) begin c = p + a; end
    always @(*) begin d = p; end
    always @(*) begin e = p; end endmodule"""
    m = V.Module('dut')
    clk, rn, p = m.Input('CLK'), m.Input('RSTN'), m.Input('p', 8)
    a, b, c, d, e = (m.OutputReg(n, 8) for n in 'abcde')
    m.Always(vt.Posedge(clk), vt.Negedge(rn))(vt.If(vt.Not(rn))(a(0)).Else(a(p)))
    m.Always(vt.Negedge(clk))(b(p))
    m.Always(p, a)(c(p + a, blk=True))
    m.Always()(d(p, blk=True))
    m.Always(vt.SensitiveAll())(e(p, blk=True))
    return m


TIMING_TB = 'module tb; dut d(); initial begin #400 $finish; end endmodule'


@mod(kind='ast', tb=TIMING_TB)
def timing_initial():
    """module dut(); reg CLK; reg [7:0] r; reg e; integer n;
    initial begin CLK = 0; forever begin #5; CLK = !CLK; end end
    initial begin r = 0; e = 0; n = 0; #7; r = 3; @(posedge CLK); r = r + 1; @(negedge CLK); wait(e); $display("%d %d", r, n); while (n < 4) begin n = n + 1; @(posedge CLK); end
      wait(CLK) begin r = 9; end #3 r = #2 r + 5; @(r); $display("%d %d", r, $time); end
    initial begin #60; e = 1; #110; r = 77; #1; r = 78; end
    endmodule"""
    m = V.Module('dut')
    clk, r, e, n = m.Reg('CLK'), m.Reg('r', 8), m.Reg('e'), m.Integer('n')
    m.Initial(clk(0), vt.Forever(vt.Delay(5), clk(vt.Not(clk))))
    m.Initial(r(0), e(0), n(0), vt.Delay(7), r(3), vt.Event(vt.Posedge(clk)), r(r + 1), vt.Event(vt.Negedge(clk)), vt.Wait(e),
              vt.Systask('display', '%d %d', r, n), vt.While(n < 4)(n(n + 1), vt.Event(vt.Posedge(clk))),
              vt.Wait(clk)(r(9)), r(r + 5, ldelay=3, rdelay=2), vt.Event(r), vt.Display('%d %d', r, vt.SystemTask('time')))
    m.Initial(vt.Delay(60), e(1), vt.Delay(110), r(77), vt.Delay(1), r(78))
    return m


@mod(kind='ast', tb=TIMING_TB)
def timing_always():
    """module dut(); reg CLK; reg [7:0] r; reg [7:0] s;
    initial begin CLK = 0; r = 1; s = 0; forever begin #5; CLK = !CLK; end end
    always @(posedge CLK) begin r <= #2 r + 3; s = #1 r; $display("%d %d %d", $time, r, s); end endmodule"""
    m = V.Module('dut')
    clk, r, s = m.Reg('CLK'), m.Reg('r', 8), m.Reg('s', 8)
    m.Initial(clk(0), r(1), s(0), vt.Forever(vt.Delay(5), clk(vt.Not(clk))))
    m.Always(vt.Posedge(clk))(r(r + 3, rdelay=2), s(r, blk=True, rdelay=1), vt.Display('%d %d %d', vt.SystemTask('time'), r, s))
    return m


@mod(kind='ast')
def systasks():
    """module dut(input CLK, input [7:0] p); reg [7:0] r; initial begin $dumpfile("x.vcd"); $dumpvars(0, CLK, p); r = $random; $write("%x", r); $finish; end
    always @(posedge CLK) begin if (p == 3) begin $display("p=%d r=%d", p, r); end else begin $display("none"); end end endmodule"""
    m = V.Module('dut')
    clk, p, r = m.Input('CLK'), m.Input('p', 8), m.Reg('r', 8)
    m.Initial(vt.Systask('dumpfile', 'x.vcd'), vt.Systask('dumpvars', 0, clk, p), r(vt.SystemTask('random')), vt.Write('%x', r), vt.Finish())
    m.Always(vt.Posedge(clk))(vt.If(p == 3)(vt.Display('p=%d r=%d', p, r)).Else(vt.Systask('display', 'none')))
    return m


@mod(kind='ast')
def embedded_stub():
    """module dut(input CLK, input [7:0] p, output [7:0] q); wire [7:0] t; assign t = p; ext #(.A(3)) e0 (.x(t), .y(q)); ext2 #(4, 5) e1 (t, CLK); endmodule
    module ext #(parameter A = 1) (input [7:0] x, output [7:0] y); assign y = x + A; endmodule"""
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Output('q', 8)
    m.EmbeddedCode('wire [7:0] t; assign t = p;')
    t = vt.EmbeddedNumeric('t')
    st = V.StubModule('ext', 'module ext #(parameter A = 1) (input [7:0] x, output [7:0] y); assign y = x + A; endmodule')
    m.Instance(st, 'e0', params=[('A', 3)], ports=[('x', t), ('y', q)])
    m.Instance('ext2', 'e1', params=(4, 5), ports=(t, clk))
    return m


@mod()
def hooks():
    """module dut(input CLK, input [7:0] p, output [7:0] q); wire [7:0] y; wire [7:0] z; subh i(.CLK(CLK), .a(p), .y(y)); assign q = y; wire [7:0] late; assign late = p; endmodule
    module subh(input CLK, input [7:0] a, output [7:0] y); assign y = a + 1; wire [7:0] hk; assign hk = a; endmodule"""
    s = V.Module('subh')
    s.Input('CLK')
    a, y = s.Input('a', 8), s.Output('y', 8)
    y.assign(a + 1)
    h = s.Wire('hk', 8)
    s.add_hook(h.assign, (a,))
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Output('q', 8)
    y, z = m.Wire('y', 8), m.Wire('z', 8)
    m.Instance(s, 'i', ports=[('CLK', clk), ('a', p), ('y', y)])
    q.assign(y)
    late = m.Wire('late', 8)
    m.add_hook(lambda *a: None)
    late.assign(p)
    return m


@mod()
def hook_in_generate():
    """module dut(input CLK, input [7:0] p, output [15:0] q); genvar g;
    generate for (g = 0; g < 2; g = g + 1) begin : lp wire [7:0] y; subh i(.CLK(CLK), .a(p), .y(y)); end endgenerate
    assign q = {lp[1].y, lp[0].y}; endmodule
    module subh(input CLK, input [7:0] a, output reg [7:0] y); always @(posedge CLK) begin if (a > 3) begin y <= a; end end endmodule"""
    s = V.Module('subh')
    clk = s.Input('CLK')
    a, y = s.Input('a', 8), s.OutputReg('y', 8)
    q_ = V.Seq(s, 'sq', clk)
    q_.If(a > 3)(y(a))
    m = V.Module('dut')
    clk, p, q = m.Input('CLK'), m.Input('p', 8), m.Output('q', 16)
    g = m.Genvar('g')
    f = m.GenerateFor(g(0), g < 2, g(g + 1), scope='lp')
    yy = f.Wire('y', 8)
    f.Instance(s, 'i', ports=[('CLK', clk), ('a', p), ('y', yy)])
    q.assign(vt.Cat(vt.Scope(f[1], yy), vt.Scope(f[0], yy)))
    return m


@mod()
def port_then_net():
    """module dut(input CLK, input [7:0] p, output signed [7:0] a, output reg signed [7:0] b, output reg [7:0] c);
    wire [7:0] a; assign a = p; always @(posedge CLK) begin b <= p; end always @(posedge CLK) begin c <= b; end endmodule"""
    m = V.Module('dut')
    clk, p = m.Input('CLK'), m.Input('p', 8)
    a = m.Output('a', 8, signed=True)
    a2 = m.Wire('a', 8)
    m.Output('b', 8, signed=True)
    b = m.Reg('b', 8, signed=True)
    c = m.OutputReg('c', 8)
    a2.assign(p)
    m.Always(vt.Posedge(clk))(b(p))
    m.Always(vt.Posedge(clk))(c(b))
    return m


@mod(dict(A=3, B=2))
def params_in_logic():
    """module dut #(parameter A = 3, parameter [7:0] B = 2) (input CLK, input [7:0] p, output [A*B-1:0] u, output reg [7:0] v);
    localparam C = A + B; localparam signed [3:0] D = -2; assign u = p * C; always @(posedge CLK) begin case (p) A: begin v <= C; end B: begin v <= D; end default: begin v <= A - B; end endcase end endmodule"""
    m = V.Module('dut')
    A, B = m.Parameter('A', 3), m.Parameter('B', 2, width=8)
    clk, p = m.Input('CLK'), m.Input('p', 8)
    C = m.Localparam('C', A + B)
    D = m.Localparam('D', -2, width=4, signed=True)
    u, v = m.Output('u', A * B), m.OutputReg('v', 8)
    u.assign(p * C)
    m.Always(vt.Posedge(clk))(vt.Case(p)(vt.When(A)(v(C)), vt.When(B)(v(D)), vt.When()(v(A - B))))
    return m


@mod()
def module_edits():
    """module dut(input CLK, input [7:0] p, output [7:0] u); wire [7:0] k; assign k = p + 2; assign u = k; endmodule"""
    m = V.Module('dut')
    m.Input('CLK')
    p, u = m.Input('p', 8), m.Output('u', 8)
    k = m.Wire('k', 8)
    x = m.Wire('dropped', 8)
    m.remove(x)
    a = k.assign(p + 1)
    a.overwrite_right(p + 2)
    m.append(vt.Assign(u(k))) if False else u.assign(k)
    return m


@mod()
def from_string():
    """module dut(input CLK, input [7:0] p, output [7:0] u); sub i0 (.CLK(CLK), .a(p), .b(p), .y(u)); endmodule SUB"""
    m = V.Module('dut')
    clk, p, u = m.Input('CLK'), m.Input('p', 8), m.Output('u', 8)
    s = V.verilog.from_verilog.read_verilog_module_str(SUB)['sub'] if hasattr(V, 'verilog') else sub_module()
    m.Instance(s, 'i0', ports=[('CLK', clk), ('a', p), ('b', p), ('y', u)])
    return m


def u_module(rec, name, f, doc, params, kind, tb):
    rec.function('Module.to_verilog', 'VerilogModuleVisitor.visit_Module', 'visit_Instance', 'visit_Always', 'visit_Assign', 'visit_Initial', 'visit_Function', 'visit_Task',
                 'visit_GenerateFor', 'visit_GenerateIf', 'Instance.__init__', 'Module.get_modules', 'Module.find_module', 'Submodule', 'Module.Probe')
    ref = re.sub(r'\bSUB\b', SUB, doc)
    try:
        V.reset()
        t = f().to_verilog()
    except Exception as ex:
        t = ex
    if params:
        params = {k: (v, 32, True) for k, v in params.items()}
    if kind == 'run' and not isinstance(t, Exception):
        u, v = equiv.trace(t, 'tb', tb), equiv.trace(ref, 'tb', tb)
        rec.holds('%s: the same simulation' % name, u == v and len(v) > 20, u[:300], dict(kind='module', described=name, emitted=t, expected=ref, simulation_of_emitted=u[:2000], simulation_of_expected=v[:2000]))
        rec.ran('simulation of %s' % name, 'one testbench', 1)
    elif kind == 'ast' and not isinstance(t, Exception):
        equiv.fallback(rec, name, t, ref, 'tb' if tb else 'dut', dict(kind='module', described=name, emitted=t, expected=ref), 'timing constructs', tb)
    else:
        equiv.compare(rec, name, t, ref, 'dut', what=name, params=params)
        if not isinstance(t, Exception):
            ms, mr = equiv.modules(t), equiv.modules(ref)
            rec.holds('%s: exactly the modules of the design' % name, sorted(ms) == sorted(mr) and len(re.findall(r'\bendmodule\b', t)) == len(ms),
                      str((sorted(ms), sorted(mr))), dict(kind='module', described=name, emitted=t, modules=sorted(ms), expected=sorted(mr)))
            for k in (params or {}):
                for v in (1, 2, 3, 5):
                    equiv.compare(rec, '%s %s=%d' % (name, k, v), t, ref, 'dut', what=name, params={k: (v, 32, True)})


def u_reject(rec):
    """misuse is reported instead of being dropped"""
    rec.function('Instance.__init__', 'Case._type_check_statement', 'Always.set_statement', 'If.__call__')
    def m0():
        V.reset()
        return V.Module('dut')

    def case(nm, f):
        try:
            t = f()
            rec.holds('%s is rejected' % nm, False, '', dict(kind='module', described=nm, emitted=str(t)[:2000], expected='an exception'))
        except Exception:
            rec.holds('%s is rejected' % nm, True)

    def f1():
        m = m0()
        m.Instance(sub_module(), 'i', ports=[('nope', m.Wire('w'))])
        return m.to_verilog()

    def f2():
        m = m0()
        m.Instance(sub_module(), 'i', params=[('nope', 3)])
        return m.to_verilog()

    def f3():
        m = m0()
        w = m.Wire('w', 8)
        m.Instance(sub_module(), 'i', ports=(w, w, w, w, w, w, w))
        return m.to_verilog()

    def f4():
        m = m0()
        m.Instance(sub_module(), 'i', params=(1, 2, 3, 4))
        return m.to_verilog()

    def f5():
        m = m0()
        w = m.Wire('w', 8)
        w.assign(1)
        w.assign(2)
        return m.to_verilog()

    def f6():
        m = m0()
        r = m.Reg('r', 8)
        vt.If(r)(r(1)).Else(r(2)).Else(r(3))

    def f7():
        m = m0()
        r = m.Reg('r', 8)
        return vt.Case(r)(vt.When()(r(1)), vt.When(2)(r(2)))

    def f8():
        m = m0()
        r = m.Reg('r', 8)
        return vt.If(r)(r(1))(r(2))(r(3))

    def f9():
        m = m0()
        r, c = m.Reg('r', 8), m.Input('c')
        a = m.Always(vt.Posedge(c))(r(1))
        a(r(2))

    def f10():
        m = m0()
        r = m.Reg('r', 8)
        return vt.PatternIf((r, r(1)), (None, r(2)), (r, r(3)))

    def f11():
        m = m0()
        r = m.Reg('r', 8)
        return vt.PatternIf([(r, r(1)), (None, r(2)), (r, r(3))])

    def f12():
        m = m0()
        r = m.Reg('r', 8)
        r.assign(3)
    for nm, f in (('an unknown port', f1), ('an unknown parameter', f2), ('too many positional ports', f3), ('too many positional parameters', f4),
                  ('a second assign of a wire', f5), ('a second Else', f6), ('a When after the default', f7), ('a third body of an If', f8),
                  ('a second body of an Always', f9), ('a pattern after the default', f10), ('a pattern after the default of a list', f11), ('an assign to a register', f12)):
        case(nm, f)


def units(tier, seed):
    U = []

    def add(nm, f, *args):
        U.append(Unit(nm, lambda rec: f(rec, *args), timeout=600))
    for n, f, d, p, k, tb in MODS:
        add('module %s' % n, u_module, n, f, d, p, k, tb)
    for meth, kind in CALLS:
        add('declare %s' % meth, u_decl, meth, kind)
    add('other declarations', u_decl_others)
    for kind in ('seq', 'op', 'blk', 'all', 'default'):
        add('statements %s' % kind, u_stmt1, kind, kind)
    P = 8
    for i in range(P):
        add('nested statements %d' % i, u_stmt2, i, P)
    add('assignments', u_subst)
    for i in range(6 if tier == 'quick' else 24):
        add('random statements %d' % i, u_random, i, 25 if tier == 'quick' else 80)
    add('rejections', u_reject)
    return U


if __name__ == '__main__':
    main('C03', units, trusted=['lib/vsem.py (Verilog semantics)', 'lib/pyvc.py', 'lib/equiv.py', 'z3', 'pyverilog parser and code generator'],
         assumptions=['modules of one design have distinct names (except two used by the same parent)',
                      'delays, events, waits and system tasks are compared as syntax trees and by simulation'])
