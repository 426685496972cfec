"""C16: arithmetic cores.  Pipelines: (frame) a cycle without update changes
nothing, (transport) from ANY state, n enabled cycles after presenting operands
the output is the exact result, whatever is presented meanwhile; together, by
induction over enabled cycles, every enable pattern.  The divider is proved
stage by stage with ghost operands, so for any width without unrolling."""
import os, sys, random, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import z3
import vsem
from vsem import Design
from rtl import Sym, Sim, bv, iverilog_run, crosscheck
from prove import Unit, main


def start(name='top'):
    import veriloggen as V
    import veriloggen.core.module as module
    V.reset()
    m = V.Module(name)
    return V, m, m.Input('CLK'), m.Input('RST')


def sx(v, s, w):
    return z3.SignExt(w - v.size(), v) if s else z3.ZeroExt(w - v.size(), v)


def spec_value(kind, opts, g):
    """exact result (python ints) of a core on operand values g"""
    if kind == 'mul':
        return g['a'] * g['b']
    if kind == 'madd':
        return g['a'] * g['b'] + g['c']
    raise KeyError(kind)


# -- multipliers, multiply-add ---------------------------------------------------

def core_text(kind, src, widths, signs, depth, upd, en):
    V, m, clk, rst = start()
    names = 'abc'[:len(widths)]
    if src == 'types':
        import veriloggen.types.mul as mul
        d = mul.mkMultiplier('mm', signs[0], signs[1], depth, upd, en)
        params = [('lwidth', widths[0]), ('rwidth', widths[1])]
    elif src == 'types-class':
        import veriloggen.types.mul as mul
        ins = [m.Input(n, w, signed=s) for n, w, s in zip(names, widths, signs)]
        kw = {}
        if upd:
            kw['update'] = m.Input('update')
        if en:
            kw['enable'] = m.Input('enable')
        x = mul.Multiplier(m, 'x', clk, rst, ins[0], ins[1], lsigned=signs[0], rsigned=signs[1], depth=depth, **kw)
        m.Output('o', sum(widths)).assign(x.value)
        if en:
            m.Output('valid').assign(x.valid)
        return m.to_verilog()
    elif src == 'stream':
        import veriloggen.stream.mul as mul
        import veriloggen.stream.madd as madd
        mul.reset()
        madd.reset()
        d = (mul.get_mul if kind == 'mul' else madd.get_madd)(*(list(widths) + list(signs) + [depth]))
        params = []
    else:
        import veriloggen.dataflow.mul as mul
        mul.reset()
        d = mul.get_mul(*(list(widths) + list(signs) + [depth]))
        params = []
    ports = [('CLK', clk)]
    if 'RST' in d.io_variable:
        ports.append(('RST', rst))
    if upd:
        ports.append(('update', m.Input('update')))
    if en:
        ports += [('enable', m.Input('enable')), ('valid', m.Output('valid'))]
    ow = max(widths[0] + widths[1], *widths)
    for n, w, s in zip(names, widths, signs):
        ports.append((n, m.Input(n, w, signed=s)))
    ports.append(('d' if kind == 'madd' else 'c', m.Output('o', ow)))
    m.Instance(d, 'u', params=params, ports=ports)
    return m.to_verilog()


FN = {('mul', 'types'): ('types.mul.mkMultiplier', 'types.mul.mkMultiplierCore'), ('mul', 'types-class'): ('types.mul.Multiplier',),
      ('mul', 'stream'): ('stream.mul.get_mul', 'stream.mul.mkMultiplier', 'stream.mul.mkMultiplierCore'),
      ('madd', 'stream'): ('stream.madd.get_madd', 'stream.madd.mkMadd', 'stream.madd.mkMaddCore'),
      ('mul', 'dataflow'): ('dataflow.mul.get_mul', 'dataflow.mul.mkMultiplier', 'dataflow.mul.mkMultiplierCore')}


def u_core(rec, kind, src, widths, signs, depth, upd, en):
    rec.function(*FN[kind, src])
    D = Design(core_text(kind, src, widths, signs, depth, upd, en), 'top')
    names = 'abc'[:len(widths)]
    ow = D.decls['o'].width
    rec.holds('result width', ow == max(widths[0] + widths[1], *widths))
    z = Sym(D, '0')
    on = {'RST': 0}
    if upd:
        on['update'] = 1
    s = z.after('s', fix=on)     # any state at least one cycle old
    ops = {n: s[n] for n in names}
    exact = sx(ops['a'], signs[0], ow) * sx(ops['b'], signs[1], ow)
    if kind == 'madd':
        exact = exact + sx(ops['c'], signs[2], ow)
    x = s
    for i in range(depth):
        x = x.after('s%d' % i, fix=on)
    rec.prove('exact result after %d enabled cycles' % depth, x['o'] == exact)
    if en:
        rec.prove('valid after %d enabled cycles is the enable presented' % depth, x.t('valid') == s.t('enable'))
        r = Sym(D, 'r', fix={'RST': 1})
        y = r
        for i in range(depth + 1):
            y = y.after('r%d' % i, fix=dict(on, enable=0))
            rec.prove('no valid in cycle %d after reset without enable' % i, z3.Not(y.t('valid')))
    if upd:
        f = z.after('f', fix={'RST': 0, 'update': 0})
        g = f.after('g', fix={'RST': 0})
        for n in D.state:
            rec.prove('a cycle without update keeps %s' % n, g[n] == f[n])


def s_core(rec, kind, src, widths, signs, depth, upd, en):
    text = core_text(kind, src, widths, signs, depth, upd, en)
    D = Design(text, 'top')
    rng = random.Random(rec.seed)
    ow = D.decls['o'].width
    for run in range(6):
        s = Sim(D)
        pipe = []
        stim = []
        for c in range(120):
            st = dict(RST=int(c == 0))
            if upd:
                st['update'] = int(rng.random() < [1, 0.5, 0.8][run % 3])
            if en:
                st['enable'] = rng.getrandbits(1)
            g = {}
            for n, w, sg in zip('abc', widths, signs):
                v = rng.choice([rng.getrandbits(w), 0, (1 << w) - 1, 1 << (w - 1), 1])
                st[n] = v
                g[n] = v - (1 << w) if sg and v >> (w - 1) else v
            stim.append(st)
            s.set(**{k: v for k, v in st.items() if k in D.inputs})
            if len(pipe) >= depth:
                e, ev = pipe[-depth]
                got = s.get('o')
                bad = got != e % (1 << ow)
                if en and not bad:
                    bad = s.get('valid') != ev
                if bad:
                    obs = ['o'] + (['valid'] if en else [])
                    iv = iverilog_run(text, 'top', stim, obs)[-1]
                    if iv['o'] != e % (1 << ow) or (en and iv['valid'] != ev):
                        rec.concrete('result search', dict(kind='history', call='%s %s widths=%s signed=%s depth=%d' % (src, kind, widths, signs, depth),
                                     stimulus=stim, verilog=text, expected=e % (1 << ow), got=got, iverilog=iv))
                        return
            if st.get('update', 1) and c:
                pipe.append((spec_value(kind, None, g), st.get('enable')))
            s.step()


# -- divider ---------------------------------------------------------------------

def div_text(src, W, sg):
    V, m, clk, rst = start()
    if src == 'stream':
        import veriloggen.stream.div as div
        params = [('W_D', W), ('A_SIGNED', sg[0]), ('B_SIGNED', sg[1]), ('O_SIGNED', sg[2])]
    else:
        import veriloggen.dataflow.div as div
        params = [('W_D', W)]
    a, b = m.Input('a', W), m.Input('b', W)
    u, e = m.Input('update'), m.Input('enable')
    q, r, v = m.Output('q', W), m.Output('r', W), m.Output('valid')
    m.Instance(div.get_div(), 'd', params, [('CLK', clk), ('RST', rst), ('update', u), ('enable', e), ('in_a', a), ('in_b', b),
                                            ('rslt', q), ('mod', r), ('valid', v)])
    return m.to_verilog()


def div_spec(W, sg, a, b):
    """documented meaning: quotient truncated toward zero, remainder with the
    dividend's sign, at the declared signedness"""
    sa = a - (1 << W) if sg[0] and a >> (W - 1) else a
    sb = b - (1 << W) if sg[1] and b >> (W - 1) else b
    q, r = divmod(abs(sa), abs(sb))
    if sg[2]:
        if (sa < 0) != (sb < 0):
            q = -q
        if sa < 0:
            r = -r
    return q % (1 << W), r % (1 << W)


def u_div_small(rec, src, W, sg):
    """all operand values by unrolling (name-free)"""
    rec.function('stream.div.get_div' if src == 'stream' else 'dataflow.div.get_div')
    D = Design(div_text(src, W, sg), 'top')
    on = dict(RST=0, update=1)
    z = Sym(D, '0')
    s = z.after('s', fix=on)
    x = s
    lat = W + 2
    for i in range(lat):
        x = x.after('s%d' % i, fix=on)
    N = W + 1
    A, B = sx(s['a'], sg[0], N), sx(s['b'], sg[1], N)
    aa, ab = z3.If(A < 0, -A, A), z3.If(B < 0, -B, B)
    q, r = z3.UDiv(aa, ab), z3.URem(aa, ab)
    if sg[2]:
        q = z3.If((A < 0) != (B < 0), -q, q)
        r = z3.If(A < 0, -r, r)
    H = [s['b'] != 0]
    rec.cover('operands', H)
    rec.prove('quotient exact after %d enabled cycles' % lat, x['q'] == z3.Extract(W - 1, 0, q), H)
    rec.prove('remainder exact after %d enabled cycles' % lat, x['r'] == z3.Extract(W - 1, 0, r), H)
    rec.prove('valid follows enable', x.t('valid') == s.t('enable'))
    y = Sym(D, 'r', fix={'RST': 1})
    for i in range(lat + 1):
        y = y.after('r%d' % i, fix=dict(on, enable=0))
        rec.prove('no valid in cycle %d after reset without enable' % i, z3.Not(y.t('valid')))
    f = z.after('f', fix={'RST': 0, 'update': 0})
    g = f.after('g', fix={'RST': 0})
    for n in D.state:
        rec.prove('a cycle without update keeps %s' % n, g[n] == f[n])


def u_div_stage(rec, src, W, sg):
    """stage contracts with ghost operands A=|a|, B=|b|, signs"""
    rec.function('stream.div.get_div' if src == 'stream' else 'dataflow.div.get_div')
    D = Design(div_text(src, W, sg), 'top')
    on = dict(RST=0, update=1)
    s = Sym(D, '').after('s', fix=on)
    n = s.after("'", fix=on)
    p = 'd.s_depth[%d].'
    X = 2 * W
    A, B = z3.BitVec('A', W), z3.BitVec('B', W)
    pa, pb, en = z3.Bool('pa'), z3.Bool('pb'), z3.Bool('en')
    cat0 = lambda v, w: z3.ZeroExt(w - v.size(), v)
    # stage d holds: divisor == B << (W-1-d) (B >> 1 in the last one), and
    # (ghost) R_d with A == R_d * 2^(W-d) * B + dividend
    def div_of(d):
        return cat0(B, X) << (W - 1 - d) if d < W else z3.LShR(cat0(B, X), 1)

    def inv(x, d):
        g = lambda q: x[p % d + q]
        lim = cat0(B, X) << (W - d) if d <= W else None
        return z3.And(g('divisor') == div_of(d), z3.ULT(g('dividend'), lim),
                      z3.ULE(g('dividend'), cat0(A, X)),
                      z3.ULT(g('stage_rslt'), bv(1 << d, X)) if d < X else z3.BoolVal(True),
                      x.t(p % d + 'in_a_positive') == pa, x.t(p % d + 'in_b_positive') == pb, x.t(p % d + 'stage_valid') == en)
    Z = [B != 0]
    a, b = s['a'], s['b']
    absa = z3.If(z3.And(bool(sg[0]), a < 0), -a, a)
    absb = z3.If(z3.And(bool(sg[1]), b < 0), -b, b)
    in0 = [A == absa, B == absb, en == s.t('enable')]
    if sg[2]:
        in0 += [pa == (a >= 0), pb == (b >= 0)]
    else:
        in0 += [pa == n.t(p % 0 + 'in_a_positive'), pb == n.t(p % 0 + 'in_b_positive')]
    rec.cover('entry', Z + in0)
    rec.prove('stage 0: operands enter', z3.And(inv(n, 0), n[p % 0 + 'stage_rslt'] == 0, n[p % 0 + 'dividend'] == cat0(A, X)), Z + in0)
    for d in range(1, W + 1):
        g0 = lambda q: s[p % (d - 1) + q]
        g1 = lambda q: n[p % d + q]
        H = Z + [inv(s, d - 1)]
        rec.prove('stage %d: invariant' % d, inv(n, d), H)
        # R' = 2R + l, dividend' = dividend - l * X_d, exactly (no wrap)
        l = z3.UGE(g0('dividend'), g0('divisor'))
        lv = z3.If(l, bv(1, X), bv(0, X))
        rec.prove('stage %d: one quotient bit' % d, z3.And(
            g1('stage_rslt') == 2 * g0('stage_rslt') + lv,
            g1('dividend') == g0('dividend') - z3.If(l, g0('divisor'), bv(0, X)),
            z3.Implies(l, z3.ULE(g0('divisor'), g0('dividend')))), H)
    # ghost lemma (mathematical integers): the step keeps A = R*Y + n, Y = 2*x
    Ai, R, x, m, l, Bi = z3.Ints('Ai R x m l Bi')
    rec.prove('lemma: a step keeps A == R*2X + dividend', (2 * R + l) * x + (m - l * x) == Ai, [R * (2 * x) + m == Ai])
    q, k, r2 = z3.Ints('q k r2')
    rec.prove('lemma: quotient and remainder are unique', z3.And(q == k, m == r2),
              [q * Bi + m == k * Bi + r2, m >= 0, m < Bi, r2 >= 0, r2 < Bi, Bi > 0])
    # output stage
    g = lambda t: s[p % W + t]
    H = Z + [inv(s, W)]
    qq, rr = z3.Extract(W - 1, 0, g('stage_rslt')), z3.Extract(W - 1, 0, g('dividend'))
    if sg[2]:
        rec.prove('quotient takes the sign', n['q'] == z3.If(pa != pb, -qq, qq), H)
        rec.prove("remainder takes the dividend's sign", n['r'] == z3.If(pa, rr, -rr), H)
    else:
        rec.prove('quotient of the absolute values', n['q'] == qq, H)
        rec.prove('remainder of the absolute values', n['r'] == rr, H)
    rec.prove('valid follows', n.t('valid') == en, H)
    f = Sym(D, '0').after('f', fix={'RST': 0, 'update': 0})
    h = f.after('g', fix={'RST': 0})
    rec.prove('a cycle without update keeps everything', z3.And(*[h[x] == f[x] for x in D.state]))


def s_div(rec, src, W, sg):
    text = div_text(src, W, sg)
    D = Design(text, 'top')
    rng = random.Random(rec.seed)
    lat = W + 2
    for run in range(3):
        s = Sim(D)
        pipe, stim = [], []
        for c in range(lat * 2 + 60):
            st = dict(RST=int(c == 0), update=int(rng.random() < [1, 0.6, 0.9][run]), enable=rng.getrandbits(1))
            for nm in 'ab':
                st[nm] = rng.choice([rng.getrandbits(W), rng.getrandbits(W) >> (W // 2), (1 << W) - 1, 1 << (W - 1), 1])
            st['b'] = st['b'] or 1
            stim.append(st)
            s.set(**st)
            if len(pipe) >= lat:
                e = pipe[-lat]
                got = (s.get('q'), s.get('r'), s.get('valid'))
                if got != e:
                    iv = iverilog_run(text, 'top', stim, ['q', 'r', 'valid'])[-1]
                    if (iv['q'], iv['r'], iv['valid']) != e:
                        rec.concrete('division search', dict(kind='history', call='%s divider W=%d signed=%s' % (src, W, sg), stimulus=stim, verilog=text,
                                     expected=e, got=got, iverilog=iv))
                        return
            if c and st['update']:
                pipe.append(div_spec(W, sg, st['a'], st['b']) + (st['enable'],))
            s.step()


# -- saturation --------------------------------------------------------------------

def sat_build(kind, w, sg, extra):
    """-> text, operand signedness {name: signed}, ref(g, clamp), lo, hi"""
    V, m, clk, rst = start()
    import veriloggen.types.saturate as sat
    import veriloggen.core.vtypes as vt
    ops = {}

    def inp(n, width=w, s=sg):
        ops[n] = bool(s)
        return m.Input(n, width, signed=bool(s))
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    o = None
    if kind in ('add', 'sub'):
        f = sat.add if kind == 'add' else sat.sub
        op = (lambda x, y: x + y) if kind == 'add' else (lambda x, y: x - y)
        how = extra[0]
        if how == 'vars':
            e, ref = f(inp('a'), inp('b'), width=w), lambda g, c: op(g['a'], g['b'])
        elif how == 'wide':
            e, ref = f(inp('a', w + extra[1]), inp('b', w + extra[2]), width=w), lambda g, c: op(g['a'], g['b'])
        elif how == 'const':
            k = extra[1]
            e, ref = f(inp('a'), k, width=w), lambda g, c: op(g['a'], k)
        elif how == 'rconst':
            k = extra[1]
            e, ref = f(k, inp('a'), width=w), lambda g, c: op(k, g['a'])
        elif how == 'limits':
            lo, hi = extra[1], extra[2]
            e, ref = f(inp('a'), inp('b'), width=w, max=hi, min=lo), lambda g, c: op(g['a'], g['b'])
        elif how == 'nested':
            e, ref = f(f(inp('a'), inp('b'), width=w), inp('c'), width=w), lambda g, c: op(c(op(g['a'], g['b'])), g['c'])
        elif how == 'mixednest':
            e, ref = sat.sub(f(inp('a'), inp('b'), width=w), inp('c'), width=w), lambda g, c: c(op(g['a'], g['b'])) - g['c']
    else:
        how = extra[0]
        if how == 'var':
            v, ref = inp('a', w + extra[1]), lambda g, c: g['a']
        elif how == 'other':
            v, ref = inp('a', w + extra[1], not sg), lambda g, c: g['a']
        elif how == 'plus':
            v, ref = inp('a') + inp('b'), lambda g, c: g['a'] + g['b']
        elif how == 'minus':
            v, ref = inp('a') - inp('b'), lambda g, c: g['a'] - g['b']
        elif how == 'plusplus':
            v, ref = inp('a') + inp('b') + inp('c'), lambda g, c: c(g['a'] + g['b']) + g['c']
        elif how == 'minusplus':
            v, ref = (inp('a') - inp('b')) + inp('c'), lambda g, c: c(g['a'] - g['b']) + g['c']
        elif how == 'minusminus':
            v, ref = inp('a') - (inp('b') - inp('c')), lambda g, c: g['a'] - c(g['b'] - g['c'])
        elif how == 'const':
            v, ref = extra[1], lambda g, c: extra[1]
        if kind == 'to_saturate':
            e = sat.to_saturate(v, width=w, signed=bool(sg))
        else:
            r = m.Reg('o', w, signed=bool(sg))
            if kind == 'write':
                m.Always(vt.Posedge(clk))(sat.write(r, v))
            else:
                m.Always()(sat.write(r, v, blk=True))
            e = None
    if e is not None:
        m.Output('o', w, signed=bool(sg)).assign(e)
    return m.to_verilog(), ops, ref, lo, hi


def u_sat(rec, kind, w, sg, extra):
    rec.function({'add': 'types.saturate.add', 'sub': 'types.saturate.sub', 'to_saturate': 'types.saturate.to_saturate'}.get(kind, 'types.saturate.write'))
    text, ops, ref, lo, hi = sat_build(kind, w, sg, extra)
    D = Design(text, 'top')
    s = Sym(D)
    N = 48
    g = {n: sx(s[n], sd, N) for n, sd in ops.items()}

    def clamp(x):
        x = bv(x, N) if isinstance(x, int) else x
        return z3.If(x < bv(lo, N), bv(lo, N), z3.If(x > bv(hi, N), bv(hi, N), x))
    out = s.after("'")['o'] if kind == 'write' else s['o']
    exp = clamp(ref(g, clamp))

    def cex(model):
        vals = {n: model.eval(s[n], model_completion=True).as_long() for n in ops}
        m = Sim(D)
        m.set(**vals)
        iv = iverilog_run(text, 'top', [vals, vals], ['o'])[-1]
        e = z3.simplify(z3.substitute(exp, *[(s[n], bv(v, D.decls[n].width)) for n, v in vals.items()])).as_signed_long() % (1 << w)
        return dict(kind='operands', call='saturate.%s width=%d signed=%s %s' % (kind, w, sg, extra), operands=vals, expected=e,
                    iverilog=iv['o'], verilog=text) if iv['o'] != e else None
    rec.prove('exact result clamped to [%d, %d]' % (lo, hi), sx(out, sg, N) == exp, on_fail=cex)


def units(tier, seed):
    U = []
    th = tier == 'thorough'
    try:        # the divider source is read once, before the units fork
        import veriloggen.stream.div as sdiv
        import veriloggen.dataflow.div as ddiv
        d = os.getcwd()
        t = tempfile.mkdtemp()
        os.chdir(t)
        sdiv.get_div()
        ddiv.get_div()
        os.chdir(d)
        shutil.rmtree(t, True)
    except Exception:
        pass

    def add(nm, f, s, *args, **kw):
        U.append(Unit('%s %s' % (nm, ' '.join(str(a) for a in args)), lambda rec: f(rec, *args),
                      search=(lambda rec: s(rec, *args)) if s else None, **kw))
    TT, TF, FT, FF = (True, True), (True, False), (False, True), (False, False)
    for src in ('types', 'types-class', 'stream', 'dataflow'):
        for sg in (TT, TF, FT, FF):
            for ws, depth in [((8, 8), 6), ((5, 9), 2), ((32, 32), 6), ((1, 4), 3)] + ([((64, 16), 8), ((16, 64), 4)] if th else []):
                if src == 'types' or src == 'types-class':
                    for upd, en in ((True, True), (True, False), (False, True), (False, False)):
                        if ws != (8, 8) and (upd, en) != (True, True) and not th:
                            continue
                        add('mul', u_core, s_core, 'mul', src, ws, sg, depth, upd, en)
                else:
                    add('mul', u_core, s_core, 'mul', src, ws, sg, depth, True, src == 'dataflow')
    for sg in [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]:
        for ws, depth in [((8, 8, 8), 6), ((4, 6, 16), 2), ((32, 32, 32), 6), ((3, 5, 7), 3)]:
            add('madd', u_core, s_core, 'madd', 'stream', ws, sg, depth, True, False)
    for W in [2, 3, 4] + ([5, 6] if th else []):
        for sg in ((1, 1, 1), (0, 0, 0), (1, 0, 0), (0, 1, 0)):
            add('div small', u_div_small, s_div, 'stream', W, sg)
        add('div small', u_div_small, s_div, 'dataflow', W, (1, 1, 1))
    for W in [8, 16, 32] + ([17, 64] if th else []):
        for sg in ((1, 1, 1), (0, 0, 0)):
            add('div stages', u_div_stage, s_div, 'stream', W, sg)
        add('div stages', u_div_stage, s_div, 'dataflow', W, (1, 1, 1))
    for sg in (0, 1):
        for w in (4, 8, 16):
            lim = ((-6, 5) if sg else (0, 5)) if w == 4 else ((-100, 77) if sg else (0, 200))
            for k in ('add', 'sub'):
                for ex in [('vars',), ('wide', 3, 0), ('wide', 0, 2), ('const', 3), ('rconst', 5), ('limits',) + lim, ('nested',), ('mixednest',)] + (
                        [('const', -3)] if sg else []):
                    add('saturate', u_sat, None, k, w, sg, ex)
            for k in ('to_saturate', 'write', 'write-blocking'):
                for ex in [('var', 0), ('var', 3), ('plus',), ('minus',), ('plusplus',), ('minusplus',), ('minusminus',)]:
                    add('saturate', u_sat, None, k, w, sg, ex)
                if k != 'to_saturate':
                    for ex in [('const', 300), ('const', -300), ('const', 3), ('const', -3), ('other', 2)]:
                        add('saturate', u_sat, None, k, w, sg, ex)
    U.sort(key=lambda u: 0 if u.name.startswith('div stages') and ' 32 ' in u.name else 1)
    return U


if __name__ == '__main__':
    main('C16', units, trusted=['lib/vsem.py Verilog-2005 semantics', 'pyverilog parser', 'z3'],
         assumptions=['operand widths, depths and signedness are enumerated; operands and enable patterns are not',
                      'the composition of the stage contracts along the pipeline (induction over enabled cycles) and the ghost equation '
                      'A == R*2^(W-d)*B + dividend across divider stages are a pen-and-paper step from the discharged stage obligations and lemmas',
                      'divider: non-zero divisor; mixed signedness has the documented meaning |a| / |b| (O_SIGNED 0)',
                      'saturating operations: operands and range of one signedness'])
