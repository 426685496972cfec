"""C02: Literals keep their value, width, base and sign."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vpath
import random, re
import z3
import vsem, pyvc
from rtl import iverilog_run
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.verilog.to_verilog as tv

BASES = {None: 'd', 2: 'b', 8: 'o', 10: 'd', 16: 'h'}
_LIT = re.compile(r"^\s*(-?)\s*(?:([0-9\u27e6\u27e7]+)?\s*'([sS]?)([bdohBDOH]))?\s*(\u27e6\d+\u27e7|[0-9a-fA-FxXzZ_?]+)\s*$")


def emit(node):
    """the text the real expression visitor gives for a constant"""
    r = tv.VerilogBindVisitor().visit(node)
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    return ASTCodeGenerator().visit(r)


def sym_env():
    """the builtins that turn an integer into digits, on symbolic integers"""
    for m in (tv, vt):
        m.bin, m.hex, m.oct, m.int = pyvc.sym_bin, pyvc.sym_hex, pyvc.sym_oct, pyvc.sym_int


def plain_env():
    for m in (tv, vt):
        for n in ('bin', 'hex', 'oct', 'int'):
            if n in m.__dict__:
                del m.__dict__[n]


def denotation(neg, mag, W, signed):
    """the integer the text [-]W'[s]b<mag> denotes; mag < 2**W is separate"""
    if W is None:
        v = mag
    elif signed:
        v = z3.If(mag >= (1 << (W - 1)), mag - (1 << W), mag)
    else:
        v = mag
    return -v if neg else v


def replay_int(kw):
    """the emitted literal in iverilog, extended to 160 bits"""
    def f(model, v):
        x = model.eval(v.t, True).as_long()
        return concrete_int(x, kw)
    return f


def concrete_int(x, kw):
    plain_env()
    try:
        t = emit(vt.Int(x, **kw) if kw is not None else x)
    except Exception as ex:
        return dict(kind='literal', object='Int(%d, %s)' % (x, kw), error=repr(ex))
    m = _LIT.match(t)
    prob = []
    got = iverilog_run("module dut(y); output [199:0] y; wire signed [199:0] k; assign k = %s; assign y = k; endmodule" % t, 'dut', [{}], ['y'])[0]['y']
    if got is None or (got - x) % (1 << 200):
        prob.append('iverilog reads %s as %s' % (t, got - (1 << 200) if got is not None and got >> 199 else got))
    if not m:
        prob.append('not a literal: %r' % t)
    else:
        w = kw and kw.get('width')
        if w and m.group(2) != str(w):
            prob.append('width %s was requested' % w)
        if kw and kw.get('base') and (m.group(4) or '').lower() != BASES[kw['base']]:
            prob.append('base %s was requested' % kw['base'])
        if kw and kw.get('signed') and m.group(3).lower() != 's':
            prob.append('a signed literal was requested')
        if x < 0 and m.group(4) and not m.group(3):
            prob.append('a negative value needs a signed literal')
        if kw and not kw.get('signed') and x >= 0 and (w or kw.get('base')) and m.group(3):
            prob.append('an unsigned literal was requested')
    return dict(kind='literal', object='Int(%d, %s)' % (x, kw) if kw is not None else repr(x), emitted=t, problem=prob) if prob else None


def u_sym(rec, W, base, signed):
    """visit_Int(Int(v, width, base, signed)) for every integer v; a negative
    value makes the literal signed"""
    rec.function('Int.__init__', 'VerilogCommonVisitor.visit_Int')
    u_sym1(rec, W, base, signed, False)
    if W is not None and not signed:
        u_sym1(rec, W, base, signed, True)


def u_sym1(rec, W, base, signed, below):
    kw = dict(width=W, base=base, signed=signed)
    v = pyvc.var('v')
    sym_env()

    def run():
        return emit(vt.Int(v, **kw))
    # the representable values of the requested literal
    if W is None:
        h = [] if base is None else [v.t >= -(1 << 200), v.t < (1 << 200)]
    elif signed:
        h = [v.t >= -(1 << (W - 1)), v.t < (1 << (W - 1))]
    elif below:
        h = [v.t >= -(1 << (W - 1)), v.t < 0]
    else:
        h = [v.t >= 0, v.t < (1 << W)]
    rp = replay_int(kw)
    cex = lambda model: rp(model, v)
    paths = pyvc.explore(run, h)
    for k, (pc, t) in enumerate(paths):
        nm = ('negative, path %d' if below else 'path %d') % k
        hy = h + pc
        rec.cover(nm, hy)
        m = _LIT.match(t) if isinstance(t, str) else None
        if not m:
            rec.prove('%s: a literal is emitted (%r)' % (nm, t), False, hy, on_fail=cex)
            continue
        neg, w, s, b, dig = m.group(1) == '-', m.group(2), m.group(3) != '', (m.group(4) or '').lower(), m.group(5)
        # an unsigned literal may be emitted signed only for a negative value
        rec.prove(nm + ': the width is the requested one', (w or None) == (str(W) if W else None), hy, on_fail=cex)
        if base is not None or W is not None:
            rec.prove(nm + ': the base is the requested one', b == BASES[base], hy, on_fail=cex)
        if signed:
            rec.prove(nm + ': signed', s or (b == '' and not w), hy, on_fail=cex)
        elif b:
            rec.prove(nm + ': unsigned unless negative', z3.Implies(v.t >= 0, z3.BoolVal(not s)), hy, on_fail=cex)
        if b:
            rec.prove(nm + ': signed when negative', z3.Implies(v.t < 0, z3.BoolVal(s)), hy, on_fail=cex)
        if dig[0] != '\u27e6':
            rec.prove(nm + ': digits', z3.BoolVal(False), hy + [v.t != int(dig, {'b': 2, 'o': 8, 'h': 16}.get(b, 10))], on_fail=cex)
            continue
        mag, tb = pyvc.token_value(dig)
        want_b = {'b': 2, 'o': 8, 'h': 16, 'd': 10, '': 10}[b]
        rec.prove(nm + ': the digits are written in the base of the literal', tb == want_b, hy, on_fail=cex)
        rec.prove(nm + ': value', denotation(neg, mag, W if w else None, s) == v.t, hy, on_fail=cex)
        if w:
            rec.prove(nm + ': the digits fit', mag < (1 << W), hy, on_fail=cex)
    rec.sample('Int(v, %s) -> %s' % (kw, [p[1] for p in paths][:3]))
    plain_env()


def u_python(rec):
    """plain Python int and bool operands"""
    rec.function('VerilogCommonVisitor.visit_int', 'VerilogCommonVisitor.visit_bool')
    sym_env()
    v = pyvc.var('v')
    vis = tv.VerilogBindVisitor()
    cex = lambda model: concrete_int(model.eval(v.t, True).as_long(), None)
    for k, (pc, r) in enumerate(pyvc.explore(lambda: vis.visit_int(v))):
        t = getattr(r, 'value', None)
        m = _LIT.match(t) if isinstance(t, str) else None
        if not m or m.group(4) or not m.group(5).startswith('\u27e6'):
            rec.prove('int path %d is a plain decimal' % k, False, pc, on_fail=cex)
            continue
        mag, tb = pyvc.token_value(m.group(5))
        rec.prove('int path %d value' % k, z3.And(z3.BoolVal(tb == 10), (-mag if m.group(1) else mag) == v.t), pc, on_fail=cex)
    plain_env()
    for b in (True, False):
        t = emit(b)
        rec.holds('bool %s' % b, vsem.parse_int(t)[0] == int(b), t, dict(kind='literal', object=repr(b), emitted=t))
    for n in (0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40 + 3, 10 ** 30, -1, -2 ** 31, -2 ** 35):
        t = emit(n)
        rec.holds('int %d' % n, int(t.replace(' ', '')) == n, t, dict(kind='literal', object=repr(n), emitted=t))
    # dispatch of Python types by the visitor
    for n in (3, True, False, -7):
        rec.holds('visit(%r) dispatch' % n, int(emit(n).replace(' ', '')) == int(n))


def digits_of(v, b):
    return {'b': '{:b}', 'o': '{:o}', 'd': '{:d}', 'h': '{:x}'}[b].format(v)


def texts(rng, n):
    """literal strings of the Verilog grammar with their meaning"""
    out = []
    ws = [None, 1, 3, 4, 8, 12, 32, 64, 100]
    for w in ws:
        for s in ('', 's', 'S'):
            for b in 'bodhBODH':
                for k in range(n):
                    W = w or 32
                    v = rng.choice([0, 1, (1 << W) - 1, 1 << (W - 1), rng.getrandbits(W), rng.getrandbits(W)])
                    d = digits_of(v, b.lower())
                    if k % 3 == 1:
                        d = d.upper()
                    if k % 3 == 2 and len(d) > 1:
                        i = rng.randrange(1, len(d))
                        d = d[:i] + '_' + d[i:]
                    if k % 4 == 3:
                        d = '0' + d
                    out.append(("%s'%s%s%s" % (w or '', s, b, d), v, w, {'b': 2, 'o': 8, 'd': 10, 'h': 16}[b.lower()], s != ''))
    for v in (0, 1, 7, 10, 123456, 2 ** 31, 2 ** 40):
        out.append((str(v), v, None, None, False))
    out.append(('1_000', 1000, None, None, False))
    return out


XT = ["8'hx", "8'hxf", "8'hzz", "4'b1x0z", "4'sb1xx0", "'hx", "'bz", "'sbx", "12'o7x1", "1'bx", "1'bz", "16'hZ", "16'hX0", "8'dx", "8'sdz", "32'hx_f", "4'SB1xx0", "8'HxF", "8'BX1"]


def bad_read(text, v, w, base, s):
    try:
        i = vt.Int(text)
    except Exception as ex:
        return dict(kind='literal string', text=text, error=repr(ex))
    got = (i.value, i.width, i.base, bool(i.signed))
    if base is None:
        ok = i.value == v and i.width is None and i.base in (None, 10)
    else:
        ok = got == (v, w, base, s)
    if ok:
        t = emit(i)
        rv, rw, rs = vsem.parse_int(t)
        ok = rv == v and rw == w and (base is None or (rs == s and re.search(r"'[sS]?([bodhBODH])", t).group(1).lower() == BASES[base]))
        got = got + (t,)
    return None if ok else dict(kind='literal string', text=text, read_as=dict(value=str(i.value), width=i.width, base=i.base, signed=i.signed),
                                emitted=got[-1] if len(got) > 4 else None, verilog_meaning=dict(value=v, width=w, base=base, signed=s))


def u_read(rec):
    rec.function('str_to_value', 'str_to_width', 'str_to_signed', 'Int.__init__', 'VerilogCommonVisitor.visit_Int', 'IntX', 'IntZ')
    rng = random.Random('%s read' % rec.seed)
    n = 0
    for t, v, w, b, s in texts(rng, 6 if not rec.thorough else 40):
        bad = bad_read(t, v, w, b, s)
        n += 1
        if bad:
            rec.holds('string %s' % t, False, str(bad), bad)
    for t in XT:
        n += 1
        want = vsem.xlit(t)
        try:
            e = emit(vt.Int(t))
            got = vsem.xlit(e)
        except Exception as ex:
            e, got = repr(ex), None
        if got != want:
            rec.holds('string %s' % t, False, '%s -> %s' % (t, e), dict(kind='literal string', text=t, emitted=e, expected=str(want)))
    for w in (None, 1, 4, 9, 40):
        for b in (None, 2, 8, 16):
            for s in (False, True):
                for f, c in ((vt.IntX, 'x'), (vt.IntZ, 'z')):
                    n += 1
                    e = emit(f(w, b, s))
                    got = vsem.xlit(e)
                    if got != (w, s, BASES[b] if b else 'h', c):
                        rec.holds('%s(%s,%s,%s)' % (f.__name__, w, b, s), False, e, dict(kind='literal', object='%s(%s,%s,%s)' % (f.__name__, w, b, s), emitted=e))
    rec.ran('reading literal strings', 'enumerated widths, bases, signs and digit shapes', n)
    # overriding options of a string literal, and raw digit strings
    for t, kw, want in (("8'hff", dict(width=12), (255, 12, 16, False)), ("8'hff", dict(base=2), (255, 8, 2, False)),
                        ("8'h7f", dict(signed=True), (127, 8, 16, True)), ("255", dict(width=9), (255, 9, None, False)),
                        ("255", dict(base=16, width=10), (255, 10, 16, False)), ("17", dict(width=7, signed=True), (17, 7, None, True))):
        i = vt.Int(t, **kw)
        e = emit(i)
        v, w, s = vsem.parse_int(e)
        b = re.search(r"'[sS]?([bodhBODH])", e)
        ok = (v, w, s) == (want[0], want[1], want[3]) and b and b.group(1) == BASES[want[2]]
        rec.holds('string %s with %s' % (t, kw), ok, e, dict(kind='literal string', text=t, options=kw, emitted=e))
    for t, kw, want in (('ff', dict(width=8, base=16), "8'hff"), ('101', dict(width=3, base=2), "3'b101"), ('77', dict(width=6, base=8, signed=True), "6'so77"),
                        ('1x', dict(width=4, base=16), "4'h1x"), (19, dict(width=6, base=10), "6'd19"), (5, dict(width=4, base=2, signed=True), "4'sb101")):
        e = emit(vt.Int(t, is_raw_value=True, **kw))
        rec.holds('raw %s %s' % (t, kw), e.replace(' ', '').lower() == want, e, dict(kind='literal', text=t, options=kw, emitted=e, expected=want))
    for t in ("8'hxg", "8'b12", "'o9", "abc", "8'd1f", "", "x", "8'q12"):
        try:
            i = vt.Int(t)
            e = emit(i)
            rec.holds('malformed %r is rejected' % t, False, e, dict(kind='literal string', text=t, emitted=e, expected='an exception'))
        except Exception:
            rec.holds('malformed %r is rejected' % t, True)


def u_conc(rec):
    """concrete values in iverilog (checks the denotation function itself)"""
    rng = random.Random('%s conc' % rec.seed)
    n = 0
    for i in range(60 if not rec.thorough else 600):
        W = rng.choice([None, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100])
        base = rng.choice([None, 2, 8, 10, 16])
        signed = rng.random() < 0.5
        if W is None:
            x = rng.choice([0, 1, 5, 77, 2 ** 20 + 3])
            if signed and base in (2, 8, 16):
                base = 10   # iverilog sizes an unsized literal by its digits
        elif signed:
            x = rng.choice([-(1 << (W - 1)), (1 << (W - 1)) - 1, rng.randrange(-(1 << (W - 1)), 1 << (W - 1)), -1])
        else:
            x = rng.choice([0, (1 << W) - 1, rng.getrandbits(W)])
        n += 1
        bad = concrete_int(x, dict(width=W, base=base, signed=signed))
        if bad:
            rec.concrete('literal %s' % bad['object'], bad)
    rec.ran('literal emission in iverilog', 'random values at the corners of each width', n)


def units(tier, seed):
    U = []

    def add(nm, f, *args):
        U.append(Unit(nm, lambda rec: f(rec, *args), timeout=300))
    for W in [None, 1, 2, 3, 4, 5, 8, 13, 16, 31, 32, 33, 64, 128] + (list(range(6, 70, 7)) if tier == 'thorough' else []):
        for base in (None, 2, 8, 10, 16):
            for s in (False, True):
                add('Int width=%s base=%s signed=%s' % (W, base, s), u_sym, W, base, s)
    add('python constants', u_python)
    add('literal strings', u_read)
    add('iverilog', u_conc)
    return U


if __name__ == '__main__':
    main('C02', units, trusted=['lib/pyvc.py (path enumeration, digits of an integer as opaque tokens)', 'z3', 'pyverilog code generator'],
         assumptions=["Python's bin/hex/oct/str write an integer in that base", 'a value outside the range of the requested width is not covered',
                      'literal strings follow the Verilog grammar (no sign in the string)'])
