"""C08: reset restores every initial value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpath
import json, re, traceback
import z3
import equiv, vsem
from rtl import Sym
from vsem import Design, Unsupported
from equiv import FixedX
from prove import Unit, main, Rec
import c05, c06
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.thread as vthread

RV = 'veriloggen/seq/reset_visitor.py: ResetVisitor.'
KF = json.load(open(os.path.join(vpath.VERIF, 'known_findings.json')))
KNOWN = [f for f in KF['findings'] if f['property'] == 'C08']


def registers(m, prefix='', seen=None):
    """the register objects of a module and its instances, by flat name"""
    out = {}
    for n, v in m.variable.items():
        if isinstance(v, (vt.Reg, vt.Integer)):
            out[prefix + n] = v
    for n, v in m.io_variable.items():
        r = getattr(m, 'variable', {}).get(n)
        if isinstance(v, vt.Reg) and r is None:
            out[prefix + n] = v
    for n, i in m.instance.items():
        i = i[0] if isinstance(i, tuple) else i
        sub = getattr(i, 'module', None)
        if sub is not None and hasattr(sub, 'variable'):
            out.update(registers(sub, prefix + n + '.'))
    return out


def initial(v, top):
    """the initial value of a register object as a term of its width, or None"""
    iv = v.initval
    while isinstance(iv, vt.Int) or isinstance(iv, vt.Localparam) or (top and isinstance(iv, vt.Parameter)):
        if isinstance(iv, vt._ParameterVariable) and iv.width is not None:
            return None
        iv = iv.value
    if isinstance(iv, (bool, int)):
        return lambda w: z3.BitVecVal(int(iv), w)
    return None


def value_of(text, w, decl=''):
    """an initial value given as Verilog text, as a register of width w takes it"""
    t = 'module iv(input CLK, output [%d-1:0] o); %s reg [%d-1:0] t; always @* t = %s; assign o = t; endmodule' % (w, decl, w, text)
    D = Design(t, 'iv')
    return z3.simplify(D.ctx(FixedX(), {'CLK': z3.BitVecVal(0, 1)}).val('o')).as_long()


def check_reset(rec, name, text, top, want, rst='RST', none=(), rstv=1, whole=True, strict=()):
    """want: {register: term maker or int}.  From any state, at an edge with reset,
    every bit some assignment can change takes its bit of the initial value; other bits
    keep their value or take it; registers in `none` keep their value."""
    info = dict(kind='module', emitted=text[:5000])
    try:
        D = Design(text, top)
        on = Sym(D, '', FixedX(), {rst: rstv})
        off = Sym(D, '', FixedX(), {rst: 1 - rstv})
        aft = on.after("'")
        for n, iv in want.items():
            if n not in D.decls or D.decls[n].dims:
                continue
            w = D.decls[n].width
            iv = iv(w) if callable(iv) else z3.BitVecVal(iv, w)
            t = aft[n]
            wide = z3.BitVec(n, w) if n in D.state else None

            def cex(model, n=n, iv=iv):
                val = {k: model.eval(v, model_completion=True).as_long() for k, v in on.env.items() if z3.is_bv(v)}
                st, inp = {k: val[k] for k in D.state if k in val}, {k: val[k] for k in D.inputs if k in val}
                inp[rst] = rstv
                r = equiv.replay_state(text, top, st, inp, [n], sorted(D.clocks)[0])
                got, exp = r.get('after ' + n), z3.simplify(iv)
                if got is not None and z3.is_bv_value(exp) and got != bin(exp.as_long())[2:].zfill(w):
                    return dict(info, register=n, state=st, inputs=inp, after_reset=got, initial_value=bin(exp.as_long())[2:].zfill(w))
                return None
            s = z3.Solver()
            if rec_true(t == iv):
                rec.prove('%s: %s takes its initial value' % (name, n), t == iv)
                continue
            if n in strict:
                rec.prove('%s: %s takes its initial value' % (name, n), t == iv, on_fail=cex)
                continue
            # bit by bit: the bits assignments can change
            for i in range(w):
                b = z3.Extract(i, i, t) == z3.Extract(i, i, iv)
                if n in D.state:
                    cur, nx = z3.Extract(i, i, on.env[n]), z3.Extract(i, i, off.next[n])
                    if not changes(nx, z3.Extract(i, i, off.env[n])):
                        b = z3.Or(b, z3.Extract(i, i, t) == cur)
                rec.prove('%s: bit %d of %s takes its initial value' % (name, i, n), b, on_fail=cex)
        return D, on, off, aft
    except Unsupported as ex:
        rec.holds('%s: within the semantics' % name, False, repr(ex), None)
    except Exception as ex:
        traceback.print_exc()
        rec.holds('%s: the emitted text is legal' % name, False, repr(ex), dict(info, error=repr(ex)[:600]))


def rec_true(p):
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(z3.Not(p))
    return s.check() == z3.unsat


def changes(nx, cur):
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(nx != cur)
    return s.check() != z3.unsat


# ------------------------------------------------------- assignment shapes --
# left shapes of a register x (width W): (name, function, least width)
SHAPES = [('whole', lambda x, e: x(e['a']), 1), ('bit 0', lambda x, e: x[0](e['c']), 2), ('top bit', lambda x, e: x[x.w - 1](e['c']), 2),
          ('slice low', lambda x, e: vt.Slice(x, 1, 0)(e['a']), 3), ('slice mid', lambda x, e: vt.Slice(x, 3, 2)(e['a']), 5),
          ('slice top', lambda x, e: vt.Slice(x, x.w - 1, x.w - 2)(e['a']), 3), ('one bit slice', lambda x, e: vt.Slice(x, 2, 2)(e['c']), 4),
          ('python slice', lambda x, e: x[1:4](e['a']), 5), ('cat', lambda x, e: vt.Cat(x, e['z'])(e['a']), 1), ('cat low', lambda x, e: vt.Cat(e['z'], x)(e['a']), 1),
          ('cat of bits', lambda x, e: vt.Cat(x[1], e['z'], x[0])(e['a']), 2), ('cat of slices', lambda x, e: vt.Cat(vt.Slice(x, 3, 2), vt.Slice(x, 1, 0))(e['a']), 4),
          ('cat with a register without initial value', lambda x, e: vt.Cat(e['n'], x)(e['a']), 1), ('nested cat', lambda x, e: vt.Cat(vt.Cat(x[2], e['z']), vt.Slice(x, 1, 0))(e['a']), 3),
          ('bit of a parameter', lambda x, e: x[e['one']](e['c']), 3), ('slice of parameters', lambda x, e: vt.Slice(x, e['two'], e['one'])(e['a']), 4)]
WIDTHS = [None, 1, 4, 8, 33, 64]
INITS = [('0', lambda m: 0, '0'), ('1', lambda m: 1, '1'), ('5', lambda m: 5, '5'), ('ones', lambda m: 255, '255'), ('-1', lambda m: -1, '-1'), ('-6', lambda m: -6, '-6'),
         ('2**31', lambda m: 1 << 31, "32'h80000000"), ('2**32 + 5', lambda m: (1 << 32) + 5, "40'h100000005"), ('2**62 + 3', lambda m: (1 << 62) + 3, "64'h4000000000000003"),
         ('True', lambda m: True, '1'), ("Int(10, width=4)", lambda m: vt.Int(10, width=4), "4'd10"), ("Int(6, base=2, width=8)", lambda m: vt.Int(6, width=8, base=2), "8'b110"),
         ("Int(-3, width=8, signed)", lambda m: vt.Int(-3, width=8, signed=True), "-3"), ("Int('8'hA5')", lambda m: vt.Int("8'hA5"), "8'hA5"),
         ('parameter', lambda m: m.Parameter('P', 9), '9'), ('wide parameter', lambda m: m.Parameter('P', 0x9A, 64), "64'h9A"), ('narrow parameter', lambda m: m.Parameter('P', 2, 2), "2'd2"),
         ('signed parameter', lambda m: m.Parameter('P', -2, 3, signed=True), "(-2)"),
         ('localparam', lambda m: m.Localparam('P', 77), '77'), ('expression', lambda m: m.Parameter('P', 9) + 4, '13'), ('constant expression', lambda m: vt.Int(3) + vt.Int(4), '7'),
         ('none', lambda m: None, None)]


def make(how, m, clk, rst, stmts, x, env):
    """the object under contract assigning stmts"""
    if how == 'seq':
        V.Seq(m, 'q', clk, rst)(*stmts)
    elif how == 'seq if':
        q = V.Seq(m, 'q', clk, rst)
        q.If(env['c'])(*stmts)
        q.Else(*stmts)
    elif how == 'fsm':
        f = V.FSM(m, 'f', clk, rst)
        f(*stmts)
        f.goto_next()
        f.If(env['c'])(*stmts)
        f.goto_init()
    elif how == 'always':
        f = V.FSM(m, 'f', clk, rst)
        f.Always.If(env['c'])(*stmts)
        f.goto_init()
    elif how == 'delayed':
        V.Seq(m, 'q', clk, rst).If(env['c']).Delay(2)(*stmts)
    elif how == 'fsm delayed':
        V.FSM(m, 'f', clk, rst).If(env['c']).Delay(1).EagerVal()(*stmts)
    elif how == 'if object':
        V.Seq(m, 'q', clk, rst)(V.If(env['c'])(*stmts).Else(V.Case(env['a'])(V.When(1)(*stmts), V.When()(*stmts))))
    elif how == 'thread always':
        q = V.Seq(m, 'q', clk, rst)
        q.add(*stmts)
        q.make_always()


HOWS = ['seq', 'seq if', 'fsm', 'always', 'delayed', 'fsm delayed', 'if object']


def u_shapes(rec, how):
    rec.function(RV + 'visit__Variable', RV + 'visit_Pointer', RV + 'visit_Slice', RV + 'visit_Cat', 'veriloggen/seq/seq.py: make_reset', 'veriloggen/fsm/fsm.py: make_reset',
                 'veriloggen/seq/subst_visitor.py: SubstDstVisitor')
    full = how in ('seq', 'fsm')
    for sn, sh, least in SHAPES:
        for w in WIDTHS:
            if (w or 1) < least or (not full and w not in (1, 8)):
                continue
            for inn, mk, tx in INITS:
                V.reset()
                m, clk, rst, env = c05.module()
                try:
                    iv = mk(m)
                    x = m.Reg('x', w, initval=iv)
                    x.w = w or 1
                    env['z'], env['n'] = m.Reg('z', 3, initval=6), m.Reg('n', 2)
                    env['one'], env['two'] = m.Localparam('ONE', 1), m.Localparam('TWO', 2)
                    make(how, m, clk, rst, [sh(x, env)], x, env)
                    t = m.to_verilog()
                except Exception as ex:
                    traceback.print_exc()
                    rec.holds('%s, %s of width %s, %s: accepted' % (how, sn, w, inn), False, repr(ex), dict(shape=sn, width=w, initval=inn, error=repr(ex)[:500]))
                    continue
                want = {'x': value_of(tx, w or 1)} if tx is not None else {}
                if 'z' in [v.name for v in []] or re.search(r'\bz\b *[<,}]', t):
                    want['z'] = 6
                nm = '%s, %s of width %s, initial value %s' % (how, sn, w, inn)
                check_reset(rec, nm, t, 'm', dict(want, **hidden(m, ('x', 'z', 'n'))))


# statement forms with three places for sub-statements
FORMS = [('if', lambda e, a, b, c: [vt.If(e['c'])(a).Else(b), c]), ('if without else', lambda e, a, b, c: [vt.If(e['c'])(a, b), c]),
         ('elif', lambda e, a, b, c: [vt.If(e['c'])(a).Elif(e['d'])(b).Else(c)]), ('if in if', lambda e, a, b, c: [vt.If(e['c'])(vt.If(e['d'])(a).Else(b)).Else(c)]),
         ('if in else', lambda e, a, b, c: [vt.If(e['c'])(a).Else(vt.If(e['d'])(b), c)]), ('case', lambda e, a, b, c: [vt.Case(e['a'])(vt.When(1)(a), vt.When(2, 3)(b), vt.When()(c))]),
         ('case in if', lambda e, a, b, c: [vt.If(e['d'])(a).Else(vt.Case(e['a'])(vt.When(1)(b), vt.When()(c)))]),
         ('casex', lambda e, a, b, c: [vt.Casex(e['a'])(vt.When(vt.Int("4'b1xx0"))(a), vt.When(2)(b, c))]), ('nested lists', lambda e, a, b, c: [vt.If(e['c'])([a, [b]]), [c]]),
         ('for', lambda e, a, b, c: [a, vt.For(e['i'](0), e['i'] < 2, e['i'].inc())(b, c)])]
PLACES = [('whole', lambda x, e: x(e['a']), 255), ('bit', lambda x, e: x[1](e['c']), 2), ('slice', lambda x, e: vt.Slice(x, 3, 2)(e['a']), 12),
          ('cat', lambda x, e: vt.Cat(e['z'], x)(e['a']), 255), ('cat of bits', lambda x, e: vt.Cat(x[7], x[4])(e['a']), 0x90)]


def u_forms(rec, how):
    """every statement form with every mix of destinations: each register assigned in
    any branch is reset"""
    rec.function('veriloggen/seq/subst_visitor.py: SubstDstVisitor.*')
    for fn, form in FORMS:
        for ps in [(a, b, c) for a in PLACES for b in PLACES for c in (PLACES if how == 'seq' else PLACES[:2])]:
            V.reset()
            m, clk, rst, e = c05.module()
            nm = '%s, %s with %s' % (how, fn, ', '.join(p[0] for p in ps))
            try:
                e['z'], e['i'] = m.Reg('z', 3, initval=6), m.Integer('i')
                xs = [m.Reg('x%d' % k, 8, initval=v) for k, v in enumerate((0xA5, -7, 0x3C))]
                make(how, m, clk, rst, form(e, *[p[1](x, e) for p, x in zip(ps, xs)]), xs[0], e)
                t = m.to_verilog()
            except Exception as ex:
                traceback.print_exc()
                rec.holds('%s: accepted' % nm, False, repr(ex), dict(form=nm, error=repr(ex)[:500]))
                continue
            want = dict(x0=0xA5, x1=0xF9, x2=0x3C)
            if any(p[0] == 'cat' for p in ps):
                want['z'] = 6
            try:
                D = Design(t, 'm')
                on = Sym(D, '', FixedX(), {'RST': 1})
                aft = on.after("'")
            except Unsupported as ex:
                rec.holds('%s: within the semantics' % nm, False, repr(ex))
                continue
            for n, v in want.items():
                w = 3 if n == 'z' else 8
                mask = 7 if n == 'z' else ps[int(n[1])][2]

                def cex(model, n=n, v=v, mask=mask, t=t, D=D, on=on):
                    val = {k: model.eval(x, model_completion=True).as_long() for k, x in on.env.items() if z3.is_bv(x)}
                    st, inp = {k: val[k] for k in D.state if k in val}, {k: val[k] for k in D.inputs if k in val}
                    inp['RST'] = 1
                    r = equiv.replay_state(t, 'm', st, inp, [n], 'CLK')
                    return dict(kind='module', emitted=t[:4000], register=n, state=st, inputs=inp, after_reset=r.get('after ' + n), initial_value=v, assigned_bits=bin(mask))
                rec.prove('%s: the assigned bits of %s take their initial value' % (nm, n), aft[n] & mask == z3.BitVecVal(v & mask, w), on_fail=cex)


def hidden(m, user):
    """registers the library added: they must have an initial value"""
    return {n: ((lambda w, v=v: z3.BitVecVal(v.initval, w)) if isinstance(v.initval, int) else 0) for n, v in registers(m).items() if n not in user}


def u_arrays(rec):
    """words of memories selected by constants or parameters"""
    rec.function(RV + 'visit_Pointer', RV + '_is_word')
    for how in ('seq', 'fsm', 'if object'):
        for nm, dims, sel, at in (('word 1', 4, lambda x, e: x[1], ('1',)), ('word of a parameter', 4, lambda x, e: x[e['one']], ('1',)),
                                  ('bit of a word', 4, lambda x, e: x[1][2], ('1', '2')),
                                  ('word of two dimensions', (2, 4), lambda x, e: x[1][3], ('1', '3')), ('bit of a word of two dimensions', (2, 4), lambda x, e: x[1][3][2], ('1', '3', '2'))):
            for iv in (0, 0xA6, 0x59, -2):
                V.reset()
                m, clk, rst, env = c05.module()
                env['one'] = m.Localparam('ONE', 1)
                x = m.Reg('x', 8, dims, initval=iv)
                V.Seq(m, 'w', clk, None)
                try:
                    make(how, m, clk, rst, [sel(x, env)(env['a'])], x, env)
                    probe = ''.join('[%s]' % a for a in at)
                    o = m.Output('o', 8)
                    t = m.to_verilog()
                except Exception as ex:
                    traceback.print_exc()
                    rec.holds('%s, %s: accepted' % (how, nm), False, repr(ex), dict(shape=nm, error=repr(ex)))
                    continue
                # the emitted text itself is read by simulation: words are set, reset, and read back
                rs = array_after(t, dims, m)
                word = {'word 1': 1, 'word of a parameter': 1, 'bit of a word': 1, 'word 1 ': 1}.get(nm, 7)
                mask = {'bit of a word': 4, 'bit of a word of two dimensions': 4}.get(nm, 255)
                bad = {}
                for pat, got in rs.items():
                    for k, v in enumerate(got):
                        lo = mask if k == word else 0
                        ok = isinstance(v, int) and (v & lo) == (iv & lo) and all(((v >> b) & 1) in ((pat >> b) & 1, (iv >> b) & 1) for b in range(8)) and (k == word or v == pat)
                        if not ok:
                            bad[(pat, k)] = v
                rec.holds('%s, %s, initial value %d: only the assigned bits, from every word pattern' % (how, nm, iv), bool(rs) and not bad, str(bad),
                          dict(shape=nm, emitted=t, words=str(bad), initial_value=iv))
    rec.ran('reset of array words', 'iverilog, two background patterns, every word read back', 12)


def array_after(text, dims, m):
    import subprocess, tempfile, shutil
    d = tempfile.mkdtemp(prefix='c08_')
    idx = [(i,) for i in range(dims)] if isinstance(dims, int) else [(i, j) for i in range(dims[0]) for j in range(dims[1])]
    tb = ['module tb;', 'reg CLK = 0, RST = 1, c = 1, d = 1, e = 1; reg [3:0] a = 9; reg signed [3:0] p = 3;', 'm u(.CLK(CLK), .RST(RST), .c(c), .d(d), .e(e), .a(a), .p(p));', 'initial begin #1;']
    for pat in (0, 255):
        tb += ['u.x%s = %d;' % (''.join('[%d]' % q for q in i), pat) for i in idx]
        tb += ['#1 CLK = 1; #1;'] + ['$display("R %d %%b", u.x%s);' % (pat, ''.join('[%d]' % q for q in i)) for i in idx] + ['#1 CLK = 0; #1;']
    tb += ['$finish; end endmodule']
    try:
        open(d + '/t.v', 'w').write('\n'.join(tb) + '\n' + text)
        r = subprocess.run(['iverilog', '-g2012', '-o', d + '/a', '-s', 'tb', d + '/t.v'], capture_output=True, text=True, timeout=60)
        if r.returncode:
            return {}
        r = subprocess.run(['vvp', '-n', d + '/a'], capture_output=True, text=True, timeout=60)
        out = {}
        for l in r.stdout.split('\n'):
            if l.startswith('R '):
                _, p, b = l.split()
                out.setdefault(int(p), []).append(int(b, 2) if set(b) <= set('01') else b)
        return out
    finally:
        shutil.rmtree(d, True)


# --------------------------------------------------- many blocks, many ways --
def u_blocks(rec):
    """several statements and blocks of one object; add_reset; make_always; reset of as_module; machines"""
    rec.function('veriloggen/seq/seq.py: add_reset', 'veriloggen/seq/seq.py: make_always', 'veriloggen/seq/seq.py: make_module', 'veriloggen/fsm/fsm.py: make_always',
                 'veriloggen/fsm/fsm.py: make_module', 'veriloggen/fsm/fsm.py: make_reset', 'veriloggen/core/module.py: Module.make_reset', 'veriloggen/seq/seq.py: update')

    def t(name, fn, want, none=(), strict=(), hid=True):
        V.reset()
        m, clk, rst, env = c05.module()
        try:
            fn(m, clk, rst, env)
            text = m.to_verilog()
        except Exception as ex:
            traceback.print_exc()
            return rec.holds('%s: accepted' % name, False, repr(ex), dict(error=repr(ex)[:500]))
        h = {k: v for k, v in (hidden(m, list(want) + list(none)).items() if hid else ()) if k not in want}
        check_reset(rec, name, text, 'm', dict(h, **want), none=none, strict=strict)

    def bits(m, clk, rst, e):
        x = m.Reg('x', 8, initval=0xA5)
        q = V.Seq(m, 'q', clk, rst)
        for i in range(8):
            q.If(e['a'] == i)(x[i](e['c']))
    t('all bits one by one', bits, dict(x=0xA5))

    def mixed(m, clk, rst, e):
        x, y = m.Reg('x', 8, initval=0xA5), m.Reg('y', 8, initval=-7)
        q = V.Seq(m, 'q', clk, rst)
        q.If(e['c'])(vt.Slice(x, 3, 0)(e['a']))
        q.If(e['d'])(x(1))
        q.If(e['e'])(x[7](0))
        q(vt.Cat(y, vt.Slice(x, 6, 5))(e['a']))
    t('whole, slice, bit and concatenation of one register', mixed, dict(x=0xA5, y=0xF9), strict=('x', 'y'))

    def order(first):
        def f(m, clk, rst, e):
            x = m.Reg('x', 8, initval=0x3C)
            q = V.Seq(m, 'q', clk, rst)
            st = [x(e['a']), x[2](e['c']), vt.Slice(x, 6, 4)(e['a'])]
            q(st[first])
            q(st[(first + 1) % 3])
            q(st[(first + 2) % 3])
        return f
    for k in range(3):
        t('parts and whole, order %d' % k, order(k), dict(x=0x3C), strict=('x',))

    def addr(m, clk, rst, e):
        x, y, z = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=4), m.Reg('z', 8, initval=5)
        q = V.Seq(m, 'q', clk, rst)
        q.add_reset(y)
        f = V.FSM(m, 'f', clk, rst)
        f.add_reset(z)
        q(x(1))
        f.If(e['c']).goto_next()
        f.goto_init()
    t('add_reset', addr, dict(x=3, y=4, z=5, f=0), strict=('x', 'y', 'z', 'f'))

    def mka(kind):
        def f(m, clk, rst, e):
            x, y = m.Reg('x', 8, initval=3), m.Reg('y', 8)
            o = V.Seq(m, 'q', clk, rst, nohook=True) if kind == 'seq' else V.FSM(m, 'q', clk, rst, nohook=True)
            o.If(e['c'])(x(e['a']))
            o.If(e['d']).Delay(1)(y(e['a']))
            if kind != 'seq':
                o.goto_next()
                o.goto_init()
            o.make_always(reset=[y(9)], body=[y(2)])
        return f
    for kind in ('seq', 'fsm'):
        t('%s.make_always(reset=)' % kind, mka(kind), dict(x=3, y=9), strict=('x', 'y'))

    def am(kind):
        def f(m, clk, rst, e):
            w = m.Parameter('W', 8)
            x, y = m.OutputReg('x', w, initval=0xA5), m.OutputReg('y', 4, initval=-2, signed=True)
            o = V.Seq(m, 'q', clk, rst, as_module=True) if kind == 'seq' else V.FSM(m, 'q', clk, rst, as_module=True)
            o.If(e['c'])(x(e['a']))
            o.Else(y(e['p']))
            o.If(e['d']).Delay(2)(x(x + 1))
            if kind != 'seq':
                o.goto_next()
                o.goto_init()
        return f
    for kind in ('seq', 'fsm'):
        t('%s(as_module=True)' % kind, am(kind), dict(x=0xA5, y=0xE, **({'q': 0} if kind == 'fsm' else {})), strict=('x', 'y', 'q'), hid=False)

    def upd(m, clk, rst, e):
        x, y, z = m.Reg('x', 8, initval=3), m.Reg('y', 8, initval=9), m.Reg('z', 8, initval=7)
        q, r, s = V.Seq(m, 'q', clk, rst), V.Seq(m, 'r', clk, rst, nohook=True), V.FSM(m, 's', clk, rst)
        q(x(e['a']))
        r.If(e['c']).Delay(1)(y(e['a']))
        s.Always(z(e['a']))
        s.goto_init()
        q.update(r)
    t('update', upd, dict(x=3, y=9, z=7, s=0), strict=('x', 'y', 'z', 's'))

    def machine(m, clk, rst, e):
        x = m.Reg('x', 8, initval=0x81)
        f = V.FSM(m, 'f', clk, rst, initname='start')
        for i in range(6):
            f.If(e['c']).Delay(i % 4)(x[i](e['d']))
            f.goto_next()
        f.goto_init()
    t('delays in a machine', machine, dict(x=0x81, f=0, _d1_f=0, _d2_f=0, _d3_f=0), strict=('f', '_d1_f', '_d2_f', '_d3_f'))

    for w in (1, 3, 8):
        def prev(m, clk, rst, e, w=w):
            x = m.Reg('x', w, initval=1)
            q = V.Seq(m, 'q', clk, rst)
            q(x(q.Prev(e['a'], 3, initval=2)))
        t('Prev(initval=2), width %d' % w, prev, dict(x=1), strict=('x',))

    # reset statements of a testbench
    V.reset()
    m = V.Module('tb')
    mem = [m.Reg('a', 8, initval=3), m.OutputReg('b', 4, initval=-1), m.Reg('c', 8), m.Integer('d', initval=7), m.Wire('w', 3), m.TmpReg(5, initval=1), m.Reg('z', initval=0)]
    rs = m.make_reset()
    got = [(s.left.name, s.right) for s in rs]
    exp = [(v.name, v.initval) for v in mem if getattr(v, 'initval', None) is not None]
    rec.holds('Module.make_reset: one assignment for every register with an initial value', sorted(got, key=str) == sorted(exp, key=str), '%s / %s' % (got, exp), dict(got=str(got), expected=str(exp)))


# ------------------------------------------------------------ generated ones --
def u_programs(rec, gen, k, n):
    """the programs of C05 and C06: delay chains, kept conditions and state registers"""
    if gen == 'seq':
        ps = [p for p in c05.programs(rec)]
        build, chunk = c05.build, 40
    else:
        ps = [p for p in c06.GEN[gen](rec) if c06.legal(p)]
        build, chunk = c06.build, 20
    rec.function('veriloggen/seq/seq.py: _add_delayed_cond', 'veriloggen/seq/seq.py: _add_delayed_subst', 'veriloggen/fsm/fsm.py: _add_delayed_state',
                 'veriloggen/fsm/fsm.py: _add_delayed_cond', 'veriloggen/fsm/fsm.py: _add_delayed_subst')
    ps = ps[k::n]
    for ch in c05.chunks(ps, chunk):
        ok = []
        for p in ch:
            try:
                build([p])
                ok.append(p)
            except Exception:
                pass                    # rejected programs: C05, C06
        if not ok:
            continue
        mods = []
        orig = V.Module.to_verilog

        def grab(self, *a, **kw):
            mods.append(self)
            return orig(self, *a, **kw)
        V.Module.to_verilog = grab
        try:
            t = build(ok)[0]
        finally:
            V.Module.to_verilog = orig
        m = mods[-1]
        want, D = {}, Design(t, 'm')
        for nme, v in registers(m).items():
            if nme not in D.state:
                continue
            iv = v.initval
            want[nme] = iv if isinstance(iv, int) else 0        # the library's own: zero, the state: its first
        check_reset(rec, '%s programs' % gen, t, 'm', want, strict=tuple(want))


# ------------------------------------------------------------ whole designs --
CORPUS = os.path.join(vpath.REPO, 'tests', 'extension')
GROUPS = ['thread_', 'seq_', 'fsm_', 'stream_', 'pipeline_', 'dataflow_', 'types_']


def designs():
    out = []
    for g in GROUPS:
        for r, ds, fs in os.walk(os.path.join(CORPUS, g)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py') and not f.startswith(('test_', '__')) and not f.startswith('conftest'):
                    out.append(os.path.join(r, f))
    return out


def load(path):
    import importlib.util
    V.reset()
    sys.argv = sys.argv[:1]
    spec = importlib.util.spec_from_file_location('design_' + os.path.basename(path)[:-3], path)
    mod = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.dirname(path))
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.path.pop(0)
    V.reset()
    for n in ('mkLed', 'mkMain', 'mkTop'):
        if hasattr(mod, n):
            return getattr(mod, n)
    for n in dir(mod):
        if n.startswith('mk') and n not in ('mkTest', 'mkSimulation'):
            return getattr(mod, n)
    return None


def u_designs(rec, k, n):
    """the designs the repository's examples describe: every register any part of the library adds"""
    rec.function('veriloggen/seq/seq.py: make_reset', 'veriloggen/fsm/fsm.py: make_reset', 'veriloggen/thread/compiler.py: registers', 'veriloggen/thread/pool.py: ThreadPool')
    for path in designs()[k::n]:
        nm = os.path.relpath(path, CORPUS)[:-3]
        try:
            mk = load(path)
            m = mk() if mk is not None else None
            if m is None:
                continue
            text = m.to_verilog()
        except Exception as ex:
            skipped.append('%s: not built: %s' % (nm, repr(ex)[:200]))
            continue
        whole_design(rec, nm, m, text)
    if skipped:
        rec.ran('designs outside the semantics, not decided', '; '.join(sorted(set(skipped)))[:600], 0)


skipped = []


def by_signal(text, n):
    """is every assignment to n one of a bit selected by a signal?"""
    n = n.rpartition('.')[2]
    al = re.findall(r'(?m)^\s*%s(\[[^\]]*\])? <= ' % re.escape(n), text)
    return bool(al) and all(re.match(r'\[[A-Za-z_]\w*\]$', x) for x in al)


def u_bysignal(rec):
    """a bit selected by a signal"""
    rec.function(RV + 'visit_Pointer', 'veriloggen/thread/pool.py: ThreadPool.run')
    for how in ('seq', 'fsm', 'pool'):
        V.reset()
        m, clk, rst, env = c05.module()
        if how == 'pool':
            x, sel = pool(m, clk, rst)
            iv, w = 0, 3
        else:
            x, sel, iv, w = m.Reg('x', 16, initval=0x5AC3), 'a', 0x5AC3, 16
            make(how, m, clk, rst, [x[env['a']](env['c'])], x, env)
        t = m.to_verilog()
        D = Design(t, 'm')
        on = Sym(D, '', FixedX(), {'RST': 1})
        nx = on.next[x.name]
        k = on.ctx.val(sel)
        for i in range(w):
            rec.prove('%s: bit %d, when it is the selected one' % (how, i), z3.Implies(k == i, z3.Extract(i, i, nx) == z3.BitVecVal((iv >> i) & 1, 1)))
        same = rec_true(nx == z3.BitVecVal(iv, w))
        rec.holds('%s: every bit, whichever is selected' % how, same, '', dict(emitted=t[:3000], register=x.name, state='%s selects bit 0, all bits differ from the initial value' % sel,
                                                                              after_reset='only bit 0 has its initial value'))


def pool(m, clk, rst):
    def work(i):
        for k in range(i):
            pass

    def main_():
        for i in range(3):
            th.run(i, i)
    th = vthread.ThreadPool(m, 'th', clk, rst, work, 3)
    vthread.Thread(m, 'tm', clk, rst, main_).start()
    m.to_verilog()
    return th.start, re.search(r'%s\[(\w+)\] <= ' % th.start.name, m.to_verilog()).group(1)


def whole_design(rec, nm, m, text):
    try:
        D = Design(text, m.name)
    except Unsupported as ex:
        return skipped.append('%s: %s' % (nm, str(ex)[:200]))
    rst = [n for n in D.iports if n in ('RST', 'RESETN', 'rst', 'reset', 'ARESETN')]
    if not rst:
        return
    rst = rst[0]
    v1 = 0 if rst.endswith('N') else 1
    regs = registers(m)
    try:
        alg = FixedX()
        on = Sym(D, '', alg, {rst: v1})
        nx = on.next
    except Unsupported as ex:
        return skipped.append('%s: %s' % (nm, str(ex)[:200]))
    for n, v in sorted(regs.items()):
        if n not in D.state or D.decls[n].dims or v.initval is None:
            continue
        if z3.eq(nx[n], on.env[n]):
            continue                                  # assigned by nobody, or not by a clocked object
        if by_signal(text, n):
            continue                                  # unit 'bit by signal'
        f = initial(v, '.' not in n)
        if f is None:
            continue
        w = D.decls[n].width

        def cex(model, n=n):
            val = {k: model.eval(t, model_completion=True).as_long() for k, t in on.env.items() if z3.is_bv(t)}
            st, inp = {k: val[k] for k in D.state if k in val}, {k: val[k] for k in D.inputs if k in val}
            inp[rst] = v1
            r = equiv.replay_state(text, m.name, st, inp, [n], sorted(D.clocks)[0])
            return dict(kind='module', emitted=text[:2000], register=n, initial_value=str(v.initval), after_reset=r)
        rec.prove('%s: %s' % (nm, n), nx[n] == f(w), on_fail=cex)


UNITS = [Unit('forms %s' % h, u_forms, (h,), timeout=800) for h in ('seq', 'fsm', 'delayed', 'always')] + [Unit('shapes %s' % h, u_shapes, (h,), timeout=800) for h in HOWS] + [Unit('arrays', u_arrays), Unit('blocks', u_blocks), Unit('bit by signal', u_bysignal)]
UNITS += [Unit('designs %d' % i, u_designs, (i, 16), timeout=800) for i in range(16)]
UNITS += [Unit('seq programs %d' % i, u_programs, ('seq', i, 4), timeout=800) for i in range(4)]
UNITS += [Unit('fsm %s %d' % (g, i), u_programs, (g, i, 3), timeout=800) for g in ('programs', 'delayed', 'whens') for i in range(3)]

if __name__ == '__main__':
    sys.exit(main('C08', UNITS, ['pyverilog parser', 'lib/vsem.py Verilog semantics (cross-checked with iverilog)', 'z3', 'iverilog'],
                  ['the shapes compose: a register assigned in several shapes resets each of them (unit blocks, and the designs)', 'bits of one register assigned by two objects are out of scope']))
