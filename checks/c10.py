"""C10: generated RAMs and ROMs are memories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import random
import z3
from prove import Unit, main
from rtl import *
import vsem


def vg():
    import veriloggen
    return veriloggen


# -- the memory itself -----------------------------------------------------

def make_init(kind, dw, aw):
    """-> (initvals argument, expected contents)"""
    n = 2 ** aw
    M = (1 << dw) - 1
    rng = random.Random(dw * 100 + aw)
    Int = vg().Int
    if kind is None:
        return None, None
    if kind == 'full':
        v = [rng.getrandbits(dw) for _ in range(n)]
        return list(v), v
    if kind == 'tuple':
        v = [rng.getrandbits(dw) for _ in range(n)]
        return tuple(v), v
    if kind == 'short':
        v = [rng.getrandbits(dw) for _ in range(max(1, n // 2 - 1))]
        return list(v), v + [0] * (n - len(v))
    if kind == 'signed':
        v = [(-1) ** i * rng.getrandbits(max(dw - 1, 1)) for i in range(n)]
        return list(v), [x & M for x in v]
    if kind == 'ints':
        v = [rng.getrandbits(dw) for _ in range(n)]
        return [Int(x, width=dw + 3) if i % 2 else Int(x) for i, x in enumerate(v)], v
    if kind == 'intbase2':
        v = [rng.getrandbits(dw) for _ in range(max(1, n - 1))]
        return ([Int("%d'b%s" % (dw, bin(x)[2:])) if i % 2 else Int(x, base=2) for i, x in enumerate(v)],
                v + [0] * (n - len(v)))
    if kind == 'strhex':
        v = [rng.getrandbits(dw) for _ in range(max(1, n - 2))]
        return [Int("%d'h%x" % (dw, x)) for x in v], v + [0] * (n - len(v))
    if kind == 'nocheck':
        v = [rng.getrandbits(min(dw, 31)) for _ in range(max(1, n - 1))]
        return list(v), v + [0] * (n - len(v))
    raise ValueError(kind)


def ram_text(dw, aw, ports, sync, en, init):
    import veriloggen.types.ram as ram
    iv, exp = make_init(init, dw, aw)
    m = ram.mkRAMDefinition('r', dw, aw, ports, initvals=iv, sync=sync, with_enable=en,
                            nocheck_initvals=(init == 'nocheck'))
    return m.to_verilog(), exp


def port_names(i, en, pre='r'):
    d = {k: '%s_%d_%s' % (pre, i, k) for k in ('addr', 'rdata', 'wdata', 'wenable')}
    d['enable'] = '%s_%d_enable' % (pre, i) if en else None
    return d


def mem_contract(rec, s, mem, P, dw, aw, sync, label=''):
    """P: list of (active, we, addr, wdata, rdata name) with z3 terms for the requests."""
    j = z3.BitVec('j', aw)
    hyps = []
    for a in range(len(P)):
        for b in range(a + 1, len(P)):
            wa, wb = z3.And(P[a][0], P[a][1]), z3.And(P[b][0], P[b][1])
            hyps.append(z3.Not(z3.And(wa, wb, P[a][2] == P[b][2])))
    m0, m1 = s[mem], s.next[mem]
    exp = z3.Select(m0, j)
    for act, we, addr, wd, rd in P:
        exp = z3.If(z3.And(act, we, addr == j), wd, exp)
    rec.prove(label + 'every word is the written value if a port writes it, else unchanged', z3.Select(m1, j) == exp, hyps)
    a = s.after()
    for i, (act, we, addr, wd, rd) in enumerate(P):
        if sync:
            rec.prove(label + 'port %d: read data is the addressed word, one cycle later' % i,
                      a[rd] == z3.Select(m0, addr), hyps + [act, z3.Not(we)])
            rec.prove(label + 'port %d: output holds while not accessed' % i, a[rd] == s[rd], hyps + [z3.Not(act)])
        else:
            rec.prove(label + 'port %d: read data is the addressed word, same cycle' % i, s[rd] == z3.Select(m0, addr), hyps)


def init_contract(rec, D, mem, exp, dw):
    st = D.initial_state(Z3Alg())
    bad = []
    for i, e in enumerate(exp):
        v = z3.simplify(z3.Select(st[mem], z3.BitVecVal(i, D.decls[mem].iw)))
        if not z3.is_bv_value(v) or v.as_long() != e & ((1 << dw) - 1):
            bad.append((i, e, str(v)))
    c = dict(kind='initial contents', wrong_words=[(i, e, v) for i, e, v in bad[:5]]) if bad else None
    rec.holds('initial contents are the given values, then zero', not bad, str(bad[:5]), concrete=c)


def u_ram(rec, dw, aw, ports, sync, en, init):
    rec.function('types.ram.mkRAMDefinition', 'types.ram.RAMInterface.__init__')
    text, exp = ram_text(dw, aw, ports, sync, en, init)
    D = Design(text, 'r')
    s = Sym(D)
    P = []
    rec.holds('all ports of all interfaces exist with their widths',
              set(D.iports) | set(D.oports) == {'CLK'} | {n for i in range(ports) for n in port_names(i, en).values() if n}
              and all(D.decls['r_%d_addr' % i].width == aw and D.decls['r_%d_wdata' % i].width == dw
                      and D.decls['r_%d_rdata' % i].width == dw for i in range(ports)))
    for i in range(ports):
        n = port_names(i, en)
        act = s.t(n['enable']) if en else z3.BoolVal(True)
        P.append((act, s.t(n['wenable']), s[n['addr']], s[n['wdata']], n['rdata']))
    mem_contract(rec, s, 'mem', P, dw, aw, sync)
    if exp is not None:
        init_contract(rec, D, 'mem', exp, dw)
    if rec.thorough and exp is None:
        bad = crosscheck(text, 'r', 150, rec.seed, rst=None)
        rec.holds('vsem agrees with iverilog', not bad, str(bad[:3]))


class MemModel(object):
    def __init__(self, ports, sync, aw, exp, n, en):
        self.mem = dict(enumerate(exp)) if exp else {}
        self.sync, self.n, self.en, self.ports = sync, n, en, ports
        self.out = [None] * ports

    def act(self, st, i):
        return st[self.n(i)['enable']] if self.en else 1

    def outputs(self, st):
        o = {}
        for i in range(self.ports):
            n = self.n(i)
            v = self.out[i] if self.sync else self.mem.get(st[n['addr']])
            if v is not None:
                o[n['rdata']] = v
        return o

    def step(self, st):
        old = dict(self.mem)
        for i in range(self.ports):
            n = self.n(i)
            if not self.act(st, i):
                continue
            if st[n['wenable']]:
                self.mem[st[n['addr']]] = st[n['wdata']]
                self.out[i] = None
            else:
                self.out[i] = old.get(st[n['addr']])


def ram_gen(ports, aw, dw, n, en):
    def gen(rng, c, D):
        st = {}
        waddrs = set()
        for i in range(ports):
            k = n(i)
            a = rng.getrandbits(min(aw, 3)) if rng.random() < 0.6 else rng.getrandbits(aw)
            w = int(rng.random() < 0.4)
            e = int(rng.random() < 0.8)
            if w and a in waddrs:
                w = 0
            if w:
                waddrs.add(a)
            st.update({k['addr']: a, k['wdata']: rng.getrandbits(dw), k['wenable']: w})
            if en:
                st[k['enable']] = e
        return st
    return gen


def s_ram(rec, dw, aw, ports, sync, en, init):
    text, exp = ram_text(dw, aw, ports, sync, en, init)
    n = lambda i: port_names(i, en)
    c = history_search(text, 'r', lambda: MemModel(ports, sync, aw, exp, n, en), ram_gen(ports, aw, dw, n, en),
                       cycles=300, runs=5, seed=rec.seed)
    if c:
        c['call'] = "mkRAMDefinition('r', %d, %d, %d, sync=%r, with_enable=%r, initvals=%s)" % (dw, aw, ports, sync, en, init)
        rec.concrete('memory search', c)


# -- the RTL wrappers -------------------------------------------------------

def wrap_text(kind, dw, aw, ports, en=True, init=None):
    V = vg()
    import veriloggen.types.ram as ram
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    iv, exp = make_init(init, dw, aw)
    if kind in ('sync', 'async'):
        cls = ram.SyncRAM if kind == 'sync' else ram.AsyncRAM
        r = cls(m, 'r', clk, dw, aw, ports, initvals=iv, with_enable=en)
        for i in range(ports):
            a, wd, we = m.Input('p_%d_addr' % i, aw), m.Input('p_%d_wdata' % i, dw), m.Input('p_%d_wenable' % i)
            e = m.Input('p_%d_enable' % i) if en else None
            r.connect(i, a, wd, we, e)
            m.Output('p_%d_rdata' % i, dw).assign(r.rdata(i))
        return m.to_verilog(), exp, 'r.mem'
    if kind == 'ext':
        r = vthread.RAM(m, 'p', clk, rst, dw, aw, ports, initvals=iv, external_ports=list(range(ports)))
        return m.to_verilog(), exp, 'inst_p.mem'
    if kind == 'conn':
        r = vthread.RAM(m, 'r', clk, rst, dw, aw, ports, initvals=iv)
        for i in range(ports):
            a, wd, we = m.Input('p_%d_addr' % i, aw), m.Input('p_%d_wdata' % i, dw), m.Input('p_%d_wenable' % i)
            e = m.Input('p_%d_enable' % i)
            o = m.Output('p_%d_rdata' % i, dw)
            r.connect_rtl(i, a, wd, we, o, e)
        return m.to_verilog(), exp, 'inst_r.mem'


def u_wrap(rec, kind, dw, aw, ports, en, init):
    rec.function('types.ram._RAM_RTL.__init__', 'types.ram._RAM_RTL.connect', 'thread.ram.RAM.__init__',
                 'thread.ram.RAM.connect_rtl', 'types.util.overwrite_assign')
    text, exp, mem = wrap_text(kind, dw, aw, ports, en, init)
    D = Design(text, 'top')
    s = Sym(D)
    P = []
    for i in range(ports):
        n = port_names(i, en, 'p')
        act = s.t(n['enable']) if en else z3.BoolVal(True)
        P.append((act, s.t(n['wenable']), s[n['addr']], s[n['wdata']], n['rdata']))
    mem_contract(rec, s, mem, P, dw, aw, kind != 'async')
    if exp is not None:
        init_contract(rec, D, mem, exp, dw)


def s_wrap(rec, kind, dw, aw, ports, en, init):
    text, exp, mem = wrap_text(kind, dw, aw, ports, en, init)
    n = lambda i: port_names(i, en, 'p')
    c = history_search(text, 'top', lambda: MemModel(ports, kind != 'async', aw, exp, n, en),
                       ram_gen(ports, aw, dw, n, en), cycles=300, runs=5, seed=rec.seed)
    if c:
        c['call'] = "%s RAM wrapper, datawidth %d addrwidth %d ports %d" % (kind, dw, aw, ports)
        rec.concrete('memory search', c)


def mk_ram(m, kind, clk, rst, dw, aw, ports):
    """'ram', n banks, or -n: n separate RAMs packed into one multibank RAM"""
    import veriloggen.thread as vthread
    if kind == 'ram':
        return vthread.RAM(m, 'r', clk, rst, dw, aw, ports)
    if kind > 0:
        return vthread.MultibankRAM(m, 'r', clk, rst, dw, aw, ports, numbanks=kind)
    from veriloggen.thread.ram import to_multibank_ram
    return to_multibank_ram([vthread.RAM(m, 'r_%d' % i, clk, rst, dw, aw, ports) for i in range(-kind)], 'r')


# -- read_rtl / write_rtl, several requesters on several ports ---------------

def rtl_text(kind, dw, aw, ports, nr, nw):
    """requesters q: (r|w, port)"""
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = mk_ram(m, kind, clk, rst, dw, aw, ports)
    taw = r.addrwidth
    for i in range(nr):
        c = m.Input('rc%d' % i)
        a = m.Input('ra%d' % i, taw)
        d, v = r.read_rtl(a, port=i % ports, cond=(c == 1))
        m.Output('rd%d' % i, dw).assign(d)
        m.Output('rv%d' % i).assign(v)
    for i in range(nw):
        c = m.Input('wc%d' % i)
        a = m.Input('wa%d' % i, taw)
        d = m.Input('wd%d' % i, dw)
        r.write_rtl(a, d, port=i % ports, cond=c)
    return m.to_verilog(), taw


def bank_select(s, kind, addr):
    """word of the abstract memory"""
    if kind == 'ram':
        return z3.Select(s['inst_r.mem'], addr)
    kind = abs(kind)
    k = kind.bit_length() - 1
    bank = z3.Extract(k - 1, 0, addr)
    off = z3.Extract(addr.size() - 1, k, addr)
    e = None
    for b in range(kind):
        v = z3.Select(s['inst_r_%d.mem' % b], off)
        e = v if e is None else z3.If(bank == b, v, e)
    return e


def u_rtl(rec, kind, dw, aw, ports, nr, nw):
    cls = 'RAM' if kind == 'ram' else 'MultibankRAM'
    rec.function('thread.ram.%s.read_rtl' % cls, 'thread.ram.%s.write_rtl' % cls, 'types.util.add_mux',
                 'types.util.add_enable_cond', 'thread.ram.%s.__init__' % cls)
    text, taw = rtl_text(kind, dw, aw, ports, nr, nw)
    D = Design(text, 'top')
    s = Sym(D, fix={'RST': 0})
    T = s.t
    hyps = []
    # one requester per port at a time; no two ports write one address
    reqs = [('r', i, i % ports) for i in range(nr)] + [('w', i, i % ports) for i in range(nw)]
    for x in range(len(reqs)):
        for y in range(x + 1, len(reqs)):
            (k1, i1, p1), (k2, i2, p2) = reqs[x], reqs[y]
            b = z3.And(T('%sc%d' % (k1, i1)), T('%sc%d' % (k2, i2)))
            if p1 == p2:
                hyps.append(z3.Not(b))
            elif k1 == k2 == 'w':
                hyps.append(z3.Not(z3.And(b, s['wa%d' % i1] == s['wa%d' % i2])))
    rec.cover('requests', hyps + [T('rc0'), T('wc1')] if ports > 1 else hyps)
    a = s.after("'", fix={'RST': 0})
    j = z3.BitVec('j', taw)
    exp = bank_select(s, kind, j)
    for i in range(nw):
        exp = z3.If(z3.And(T('wc%d' % i), s['wa%d' % i] == j), s['wd%d' % i], exp)
    rec.prove('memory after the cycle', bank_select(a, kind, j) == exp, hyps)
    for i in range(nr):
        rec.prove('read_rtl %d: data is the addressed word one cycle after the request' % i,
                  a['rd%d' % i] == bank_select(s, kind, s['ra%d' % i]), hyps + [T('rc%d' % i)])
        rec.prove('read_rtl %d: valid exactly one cycle after the request' % i, a.t('rv%d' % i) == T('rc%d' % i), hyps)


class RtlMem(object):
    def __init__(self, nr, nw):
        self.mem, self.nr, self.nw, self.last = {}, nr, nw, None

    def outputs(self, st):
        o = {}
        if self.last is not None:
            for i, x in enumerate(self.last):
                o['rv%d' % i] = int(x is not False)
                if x is not False and x is not None:
                    o['rd%d' % i] = x
        return o

    def step(self, st):
        if st['RST']:
            self.last = None
            return
        self.last = [self.mem.get(st['ra%d' % i]) if st['rc%d' % i] else False for i in range(self.nr)]
        for i in range(self.nw):
            if st['wc%d' % i]:
                self.mem[st['wa%d' % i]] = st['wd%d' % i]


def s_rtl(rec, kind, dw, aw, ports, nr, nw):
    text, taw = rtl_text(kind, dw, aw, ports, nr, nw)

    def gen(rng, c, D):
        st = {'RST': int(c == 0)}
        used = set()
        wa = set()
        reqs = [('r', i) for i in range(nr)] + [('w', i) for i in range(nw)]
        rng.shuffle(reqs)
        for k, i in reqs:
            addr = rng.getrandbits(min(taw, 3)) if rng.random() < 0.7 else rng.getrandbits(taw)
            on = rng.random() < 0.6 and (i % ports) not in used and c > 0 and not (k == 'w' and addr in wa)
            if on:
                used.add(i % ports)
                if k == 'w':
                    wa.add(addr)
            st['%sc%d' % (k, i)] = int(on)
            st['%sa%d' % (k, i)] = addr
            if k == 'w':
                st['wd%d' % i] = rng.getrandbits(dw)
        return st
    c = history_search(text, 'top', lambda: RtlMem(nr, nw), gen, cycles=300, runs=5, seed=rec.seed)
    if c:
        c['call'] = 'read_rtl/write_rtl on %s, datawidth %d addrwidth %d ports %d' % (kind, dw, aw, ports)
        rec.concrete('memory search', c)


# -- FSM intrinsics -----------------------------------------------------------

def fsm_text(kind, dw, aw, ports, port):
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = mk_ram(m, kind, clk, rst, dw, aw, ports)
    a, d = m.Input('a', r.addrwidth), m.Input('d', dw)
    go, w = m.Input('go'), m.Input('w')
    out = m.OutputReg('out', dw, initval=0)
    f = V.FSM(m, 'f', clk, rst)
    info = {}
    f.If(go).goto_next()
    init = f.current
    info['branch'] = f.current
    f.inc()
    info['read'] = f.current
    q = r.read(f, a, port)
    f(out(q))
    info['rdone'] = f.current
    f.goto_init()
    f.inc()
    info['write'] = f.current
    r.write(f, a, d, port)
    info['wdone'] = f.current
    f.goto_init()
    if kind != 'ram':
        bk = m.Input('bk', 4)
        ba = m.Input('ba', aw)
        f.inc()
        info['bread'] = f.current
        q = r.read_bank(f, bk, ba, port)
        f(out(q))
        info['brdone'] = f.current
        f.goto_init()
        f.inc()
        info['bwrite'] = f.current
        r.write_bank(f, bk, ba, d, port)
        info['bwdone'] = f.current
    return m.to_verilog(), info, r.addrwidth


def u_fsm(rec, kind, dw, aw, ports, port):
    cls = 'RAM' if kind == 'ram' else 'MultibankRAM'
    rec.function('thread.ram.RAM.read', 'thread.ram.RAM.write')
    if kind != 'ram':
        rec.function('thread.ram.MultibankRAM.read_bank', 'thread.ram.MultibankRAM.write_bank')
    text, info, taw = fsm_text(kind, dw, aw, ports, port)
    D = Design(text, 'top')
    s0 = Sym(D, '0', fix={'RST': 0})
    s = s0.after('', fix={'RST': 0})
    j = z3.BitVec('j', taw)
    st = lambda x, n: x['f'] == bv(info[n], 32)
    a = s.after("'", fix={'RST': 0})
    word = lambda x, k: bank_select(x, kind, k)
    iswr = st(s, 'write')
    exp = z3.If(z3.And(iswr, s['a'] == j), s['d'], word(s, j))
    if kind != 'ram':
        nb = abs(kind).bit_length() - 1
        bk4 = z3.ZeroExt(28, z3.Extract(nb - 1, 0, j)) if nb < 4 else None
        hit = z3.And(st(s, 'bwrite'), z3.Extract(nb - 1, 0, j) == z3.Extract(nb - 1, 0, s['bk']),
                     z3.ULT(s['bk'], abs(kind)), z3.Extract(taw - 1, nb, j) == s['ba'])
        exp = z3.If(hit, s['d'], exp)
    rec.prove('the memory changes exactly in the write states, exactly the addressed word', word(a, j) == exp, [])
    rec.prove('write takes one state', st(a, 'wdone'), [iswr])
    # a read with a stable address, started in its first cycle
    c = a.after("''", fix={'RST': 0})
    d = c.after("'''", fix={'RST': 0})
    # in general: read state entered with arbitrary earlier requests; wait until it leaves
    x = s
    for n in ('read', 'bread'):
        if n not in info:
            continue
        done = 'rdone' if n == 'read' else 'brdone'
        stable = [s['a'] == a['a'], st(s, n)]
        # entered in this cycle: the cycle before was in another state
        hy = stable + [s0['f'] != bv(info[n], 32)]
        target = word(s, s['a'])
        if n == 'bread':
            hy += [s['bk'] == a['bk'], s['ba'] == a['ba'], z3.ULT(s['bk'], abs(kind))]
            nb = abs(kind).bit_length() - 1
            target = word(s, z3.Concat(s['ba'], z3.Extract(nb - 1, 0, s['bk'])))
        rec.prove('%s: waits one cycle' % n, z3.And(st(a, n), st(c, done)), hy)
        rec.prove('%s: delivers the addressed word' % n, d['out'] == target, hy)


def s_fsm(rec, kind, dw, aw, ports, port):
    """concrete: write then read back through the FSM"""
    text, info, taw = fsm_text(kind, dw, aw, ports, port)
    # drive the state register by forcing is not possible from outside; the
    # search uses thread programs instead
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = mk_ram(m, kind, clk, rst, dw, aw, ports)
    out = m.OutputReg('out', dw, initval=0)
    n = min(2 ** r.addrwidth, 16)
    ok = m.OutputReg('bad', 32, initval=0)
    fin = m.OutputReg('fin', initval=0)
    f = V.FSM(m, 'f', clk, rst)
    rng = random.Random(3)
    vals = [rng.getrandbits(max(dw - 1, 1)) for _ in range(n)]
    for i in range(n):
        if kind != 'ram' and i % 2:
            r.write_bank(f, V.Int(i % abs(kind)), V.Int(i // abs(kind)), V.Int(vals[i]), port)
        else:
            r.write(f, V.Int(i), V.Int(vals[i]), port)
    for i in range(n):
        if kind != 'ram' and i % 3 == 0:
            q = r.read_bank(f, V.Int(i % abs(kind)), V.Int(i // abs(kind)), port)
        else:
            q = r.read(f, V.Int(i), port)
        f.If(q != vals[i])(ok(i + 1))
        f.goto_next()
    f(fin(1))
    text = m.to_verilog()
    sim = Sim(Design(text, 'top'))
    stim = []
    for c in range(12 * n + 40):
        st = {'RST': int(c == 0)}
        stim.append(st)
        sim.set(**st)
        sim.step()
    if sim.get('bad') != 0 or sim.get('fin') != 1:
        iv = iverilog_run(text, 'top', stim, ['bad', 'fin'])
        rec.concrete('write/read back', dict(kind='history', verilog=text, stimulus=stim, bad=sim.get('bad'), fin=sim.get('fin'),
                                             iverilog=iv[-1], call='RAM.write/read via FSM: %s' % ((kind, dw, aw, ports, port),)))


# -- burst access ---------------------------------------------------------------

def burst_text(kind, dw, aw, lw):
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = mk_ram(m, kind, clk, rst, dw, aw, 2)
    nb = 1 if kind == 'ram' else abs(kind)
    taw = r.addrwidth
    pdw = r.packed_datawidth
    ra, rs, rl = m.Input('ra', taw), m.Input('rs', taw), m.Input('rl', lw)
    rgo, rready = m.Input('rgo'), m.Input('rready')
    rquit = m.Input('rquit')
    wa, ws, wl = m.Input('wa', taw), m.Input('ws', taw), m.Input('wl', lw)
    wgo, wvalid, wlast = m.Input('wgo'), m.Input('wvalid'), m.Input('wlast')
    wdata = m.Input('wdata', pdw)
    wquit = m.Input('wquit')
    d, v, l = r.read_burst_packed(ra, rs, rl, 1, rready, rquit, port=0, cond=rgo)
    m.Output('rdata', pdw).assign(d)
    m.Output('rvalid').assign(v)
    m.Output('rlast').assign(l)
    rdy, done = r.write_burst_packed(wa, ws, wl, 1, wdata, wvalid, wlast, wquit, port=1, cond=wgo)
    m.Output('wready').assign(rdy)
    m.Output('wdone').assign(done)
    return m.to_verilog(), taw, pdw, nb


class BurstModel(object):
    """reference for one read and one write burst engine sharing a memory"""

    def __init__(self, taw, pdw, nb, dw, lw):
        self.taw, self.pdw, self.nb, self.dw, self.lw = taw, pdw, nb, dw, lw
        self.mem = {}
        self.r = None       # (addr, stride, remaining items)
        self.w = None
        self.known = False
        self.rv = None

    def loc(self, a):
        sh = self.nb.bit_length() - 1
        return a >> sh

    def outputs(self, st):
        if not self.known:
            return {}
        o = {'wready': int(self.w is not None)}
        o['rvalid'] = int(self.rv is not None)
        if self.rv is not None:
            data, last = self.rv
            o['rlast'] = int(last)
            if data is not None:
                o['rdata'] = data
        return o

    def step(self, st):
        M = (1 << self.taw) - 1
        if st['RST']:
            self.r = self.w = None
            self.rv = None
            self.known = True
            return
        # write
        old = dict(self.mem)
        if self.w is None:
            if st['wgo'] and st['wl']:
                self.w = [st['wa'], st['ws'], st['wl']]
        else:
            if st['wvalid']:
                self.mem[self.loc(self.w[0])] = st['wdata']
                self.w[0] = (self.w[0] + self.w[1]) & M
                self.w[2] -= 1
                if self.w[2] == 0 or st['wlast']:
                    self.w = None
            if st['wquit']:
                self.w = None
        # read
        if self.r is None:
            self.rv = None
            if st['rgo'] and st['rl']:
                self.r = [st['ra'], st['rs'], st['rl']]
        else:
            if st['rready']:
                if self.rv is not None and self.rv[1]:
                    self.rv = None
                    self.r = None
                elif self.r[2]:
                    self.rv = (old.get(self.loc(self.r[0])), self.r[2] == 1)
                    self.r[0] = (self.r[0] + self.r[1]) & M
                    self.r[2] -= 1
            if st['rquit']:
                self.r = None
                self.rv = None


def regs(D, *parts):
    """the register whose name contains the parts"""
    c = [n for n, d in D.state.items() if all(p in n for p in parts)]
    if len(c) != 1:
        raise vsem.Unsupported('register %s: %s' % (parts, c))
    return c[0]


def u_burst(rec, kind, dw, aw, lw):
    """Inductive invariant of the burst engines (ghost: k items delivered of L, from a0 with stride st)."""
    rec.function('thread.ram.%s.read_burst_packed' % ('RAM' if kind == 'ram' else 'MultibankRAM'),
                 'thread.ram.%s.write_burst_packed' % ('RAM' if kind == 'ram' else 'MultibankRAM'))
    text, taw, pdw, nb = burst_text(kind, dw, aw, lw)
    D = Design(text, 'top')
    s = Sym(D, fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    R = lambda *p: regs(D, *p)
    q = 'read_burst' if kind == 'ram' else 'read_burst_packed'
    w = 'write_burst' if kind == 'ram' else 'write_burst_packed'
    fs, ad, sd, ln = R(q + '_fsm'), R(q + '_addr'), R(q + '_stride'), R(q + '_length')
    sh = nb.bit_length() - 1

    def word(x, addr):
        off = z3.Extract(taw - 1, sh, addr) if sh else addr
        if nb == 1:
            return z3.Select(x['inst_r.mem'], off)
        return z3.Concat(*[z3.Select(x['inst_r_%d.mem' % b], off) for b in reversed(range(nb))])
    a0, st0 = z3.BitVec('a0', taw), z3.BitVec('st0', taw)
    L, k = z3.BitVec('L', lw), z3.BitVec('k', lw)
    fit = lambda x: (z3.Extract(taw - 1, 0, x) if lw > taw else z3.ZeroExt(taw - lw, x) if taw > lw else x)
    addr_of = lambda i: a0 + st0 * fit(i)

    def inv(x, k):
        v = x.t('rvalid')
        n = k + z3.If(v, bv(1, lw), bv(0, lw))
        return z3.And(x[fs] == 1, x[sd] == st0, z3.ULT(k, L), z3.ULE(n, L), x[ad] == addr_of(n), x[ln] == L - n,
                      x.t('rlast') == z3.And(v, n == L))

    def datainv(x, k):
        return z3.Implies(x.t('rvalid'), x['rdata'] == word(s, addr_of(k)))
    nowrite = [z3.Not(s.t('wvalid'))]
    H = [inv(s, k), z3.Not(s.t('rquit'))]
    idle = lambda x: z3.And(x[fs] == 0, z3.Not(x.t('rvalid')) if False else z3.BoolVal(True))
    rec.cover('read invariant', H + [s.t('rvalid')])
    start = [s[fs] == 0, s.t('rgo'), s['rl'] != 0]
    rec.prove('read burst starts with the requested address, stride and length, nothing delivered',
              z3.substitute(inv(a, bv(0, lw)), (a0, s['ra']), (st0, s['rs']), (L, s['rl'])), start)
    rec.prove('no read burst without a request', z3.Implies(a[fs] != 0, z3.And(s.t('rgo'), s['rl'] != 0)), [s[fs] == 0])
    rec.prove('nothing is valid while no burst is active', z3.And(z3.Not(a.t('rvalid')), z3.Not(a.t('rlast'))), [s[fs] == 0])
    xfer = z3.And(s.t('rvalid'), s.t('rready'))
    rec.prove('read burst: item count, address and last flag advance with each delivered item (inductive)',
              z3.If(z3.And(xfer, k + 1 == L), z3.And(a[fs] == 0, z3.Not(a.t('rvalid'))),
                    inv(a, k + z3.If(xfer, bv(1, lw), bv(0, lw)))), H)
    rec.prove('read burst: an offered item stays until taken', z3.Implies(z3.And(s.t('rvalid'), z3.Not(s.t('rready'))),
              z3.And(a.t('rvalid'), a['rdata'] == s['rdata'], a.t('rlast') == s.t('rlast'))), H)
    rec.prove('read burst: progress whenever the consumer is ready', a.t('rvalid'), H + [s.t('rready'), z3.Not(z3.And(s.t('rvalid'), k + 1 == L))])
    # data: the item offered is the word at the position read in the cycle before
    n = k + z3.If(s.t('rvalid'), bv(1, lw), bv(0, lw))
    rec.prove('read burst: the item offered next is the addressed word',
              a['rdata'] == word(s, addr_of(n)), H + [s.t('rready'), z3.ULT(n, L)])
    rec.prove('quit ends the burst', z3.And(a[fs] == 0, z3.Not(a.t('rvalid'))), [s[fs] == 1, s.t('rquit')])
    # write
    fs, ad, sd, ln = R(w + '_fsm'), R(w + '_addr'), R(w + '_stride'), R(w + '_length')
    winv = lambda x, k: z3.And(x[fs] == 1, x[sd] == st0, z3.ULT(k, L), x[ad] == addr_of(k), x[ln] == L - k)
    H = [winv(s, k), z3.Not(s.t('wquit'))]
    rec.cover('write invariant', H)
    rec.prove('write burst starts with the requested address, stride and length',
              z3.substitute(winv(a, bv(0, lw)), (a0, s['wa']), (st0, s['ws']), (L, s['wl'])),
              [s[fs] == 0, s.t('wgo'), s['wl'] != 0])
    rec.prove('no write burst without a request', z3.Implies(a[fs] != 0, z3.And(s.t('wgo'), s['wl'] != 0)), [s[fs] == 0])
    j = z3.BitVec('j', taw)
    off = lambda x: z3.Extract(taw - 1, sh, x) if sh else x
    rec.prove('write burst: each accepted item is stored at its address, nothing else changes',
              word(a, j) == z3.If(z3.And(s.t('wvalid'), off(addr_of(k)) == off(j)), s['wdata'], word(s, j)), H)
    rec.prove('memory is unchanged outside a write burst', word(a, j) == word(s, j), [s[fs] == 0])
    fin = z3.And(s.t('wvalid'), z3.Or(k + 1 == L, s.t('wlast')))
    rec.prove('write burst: advances with each item, ends after the last one (inductive)',
              z3.If(fin, z3.And(a[fs] == 0, a.t('wdone')), winv(a, k + z3.If(s.t('wvalid'), bv(1, lw), bv(0, lw)))), H)
    rec.prove('write burst: ready exactly while active', s.t('wready') == (s[fs] == 1), [z3.ULE(s[fs], 1)])
    rec.prove('states stay in {0,1}', z3.ULE(a[fs], 1), [z3.ULE(s[fs], 1)])


def s_burst(rec, kind, dw, aw, lw):
    text, taw, pdw, nb = burst_text(kind, dw, aw, lw)

    def gen(rng, c, D):
        b = lambda p: int(rng.random() < p)
        ph = (c // 60) % 3
        return dict(RST=int(c == 0), ra=rng.getrandbits(taw), rs=rng.choice([0, 1, 1, nb, nb, 2, rng.getrandbits(taw)]),
                    rl=rng.choice([0, 1, 2, 3, 5, rng.getrandbits(lw)]), rgo=b(0.3), rready=b([0.5, 0.95, 0.3][ph]), rquit=b(0.01),
                    wa=rng.getrandbits(taw), ws=rng.choice([0, 1, 1, nb, nb, 2, rng.getrandbits(taw)]),
                    wl=rng.choice([0, 1, 2, 3, 5, rng.getrandbits(lw)]), wgo=b(0.3), wvalid=b([0.5, 0.95, 0.3][ph]),
                    wlast=b(0.02), wdata=rng.getrandbits(pdw), wquit=b(0.01))
    c = history_search(text, 'top', lambda: BurstModel(taw, pdw, nb, dw, lw), gen, cycles=600, runs=6, seed=rec.seed)
    if c:
        c['call'] = 'read_burst_packed/write_burst_packed on %s datawidth %d addrwidth %d' % (kind, dw, aw)
        rec.concrete('burst search', c)


# -- block-cyclic and broadcast bursts over banks -------------------------------

def block_text(nb, dw, aw, lw):
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = vthread.MultibankRAM(m, 'r', clk, rst, dw, aw, 2, numbanks=nb)
    ra, rs, rl, rb = m.Input('ra', aw), m.Input('rs', aw), m.Input('rl', lw), m.Input('rb', lw)
    rgo, rready, rquit = m.Input('rgo'), m.Input('rready'), m.Input('rquit')
    wa, ws, wl, wb = m.Input('wa', aw), m.Input('ws', aw), m.Input('wl', lw), m.Input('wb', lw)
    wgo, wvalid, wlast, wquit = m.Input('wgo'), m.Input('wvalid'), m.Input('wlast'), m.Input('wquit')
    wdata = m.Input('wdata', dw)
    d, v, l = r.read_burst_block(ra, rs, rl, rb, rready, rquit, port=0, cond=rgo)
    m.Output('rdata', dw).assign(d)
    m.Output('rvalid').assign(v)
    m.Output('rlast').assign(l)
    rdy, done = r.write_burst_block(wa, ws, wl, wb, wdata, wvalid, wlast, wquit, port=1, cond=wgo)
    m.Output('wready').assign(rdy)
    m.Output('wdone').assign(done)
    return m.to_verilog()


def u_block(rec, nb, dw, aw, lw):
    """Ghosts: k items so far of L, Q = items per bank in complete rounds."""
    rec.function('thread.ram.MultibankRAM.read_burst_block', 'thread.ram.MultibankRAM.write_burst_block')
    D = Design(block_text(nb, dw, aw, lw), 'top')
    s = Sym(D, fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    a0, st0 = z3.BitVec('a0', aw), z3.BitVec('st0', aw)
    L, k, Q, B = (z3.BitVec(x, lw) for x in 'LkQB')
    fit = lambda x: (z3.Extract(aw - 1, 0, x) if lw > aw else z3.ZeroExt(aw - lw, x) if aw > lw else x)
    mem = lambda x, b, ad: z3.Select(x['inst_r_%d.mem' % b], ad)
    one = lambda b: z3.If(b, bv(1, lw), bv(0, lw))

    def names(rw):
        def sub(part):
            c = sorted([n for n in D.state if n.startswith('%s_burst_%s_' % (rw, part))], key=lambda n: int(n.rsplit('_', 1)[1]))
            if len(c) != nb:
                raise vsem.Unsupported('bank registers %s %s' % (part, c))
            return c
        main = {p: regs(D, '%s_burst_block_%s_' % (rw, p)) for p in ('fsm', 'length', 'blocksize', 'count')}
        bank = {p: sub(p) for p in ('fsm', 'addr', 'stride', 'length')}
        return main, bank

    def inv(x, rw, n, Q):
        """n items processed by the banks"""
        m, bk = names(rw)
        cur = x[m['fsm']] - 1
        cs = [z3.ULT(cur, nb), z3.ULE(n, L), x[m['length']] == L - n, x[m['blocksize']] == B, z3.UGE(B, 1),
              z3.ULT(x[m['count']], B)]
        tot = bv(0, lw)
        for b in range(nb):
            nbk = Q + z3.If(z3.UGT(cur, b), B, z3.If(cur == b, x[m['count']], bv(0, lw)))
            tot = tot + nbk
            # the bank engine is live unless the whole burst is over
            live = z3.And(x[bk['fsm'][b]] == 1, x[bk['addr'][b]] == a0 + st0 * fit(nbk), x[bk['stride'][b]] == st0,
                          x[bk['length'][b]] == L - nbk)
            cs += [z3.ULE(nbk, n), z3.Implies(z3.ULT(n, L), live)]
        cs.append(tot == n)
        return z3.And(*cs), cur

    def place(x, rw, Q, cur):
        m, bk = names(rw)
        return a0 + st0 * fit(Q + x[m['count']])
    # write
    m, bk = names('write')
    I, cur = inv(s, 'write', k, Q)
    H = [I, z3.ULT(k, L), z3.Not(s.t('wquit'))]
    rec.cover('write invariant', H + [cur == nb - 1])
    start = [s[m['fsm']] == 0, s.t('wgo'), s['wl'] != 0, s['wb'] != 0] + [s[f] == 0 for f in bk['fsm']]
    rec.prove('block write starts with nothing stored', z3.substitute(inv(a, 'write', bv(0, lw), bv(0, lw))[0], (a0, s['wa']), (st0, s['ws']), (L, s['wl']), (B, s['wb'])), start)
    fin = z3.And(s.t('wvalid'), z3.Or(k + 1 == L, s.t('wlast')))
    Qn = Q + z3.If(z3.And(s.t('wvalid'), cur == nb - 1, s[m['count']] == B - 1), B, bv(0, lw))
    rec.prove('block write advances block by block through the banks (inductive)',
              z3.If(fin, z3.And(a[m['fsm']] == 0, a.t('wdone'), *[a[f] == 0 for f in bk['fsm']]),
                    inv(a, 'write', k + one(s.t('wvalid')), Qn)[0]), H)
    j = z3.BitVec('j', aw)
    for b in range(nb):
        rec.prove('block write: bank %d stores exactly its items' % b,
                  mem(a, b, j) == z3.If(z3.And(s.t('wvalid'), cur == b, j == place(s, 'write', Q, cur)), s['wdata'], mem(s, b, j)), H)
        rec.prove('bank %d unchanged outside a block write' % b, mem(a, b, j) == mem(s, b, j), [s[m['fsm']] == 0])
    rec.prove('block write ready while active', s.t('wready'), H)
    # read
    m, bk = names('read')
    sel = sorted([n for n in D.state if 'ram_sel' in n], key=lambda n: int(n.rsplit('_', 1)[1]))
    n = k + one(s.t('rvalid'))
    I, cur = inv(s, 'read', n, Q)

    def grp(part):
        return sorted([q for q in D.state if q.startswith('read_burst_%s_' % part)], key=lambda n: int(n.rsplit('_', 1)[1]))
    bval, blast = grp('rvalid'), grp('rlast')

    def extra(x, k, n):
        banks = []
        for b in range(nb):
            banks.append(z3.Implies(z3.ULT(n, L), x[blast[b]] == 0))
            banks.append(z3.Implies(z3.And(x.t('rvalid'), x[sel[b]] == 1), z3.Or(x[bk['fsm'][b]] == 0, x[bval[b]] == 1)))
        return z3.And(z3.ULT(k, L), z3.And(*banks), x.t('rlast') == z3.And(x.t('rvalid'), n == L), z3.Implies(n == L, z3.And(*[z3.ULE(x[f], 1) for f in bk['fsm']])),
                      z3.Implies(x.t('rvalid'), z3.Or(*[z3.And(*[x[q] == int(i == jj) for jj, q in enumerate(sel)]) for i in range(nb)])))
    H = [I, extra(s, k, n), z3.Not(s.t('rquit')), z3.Not(s.t('rgo'))]
    rec.cover('read invariant', H + [cur == nb - 1, s.t('rvalid')])
    start = [s[m['fsm']] == 0, s.t('rgo'), s['rl'] != 0, s['rb'] != 0] + [s[f] == 0 for f in bk['fsm']]
    ia, _ = inv(a, 'read', bv(0, lw), bv(0, lw))
    rec.prove('block read starts with nothing delivered',
              z3.And(z3.Not(a.t('rvalid')), z3.substitute(z3.And(ia, extra(a, bv(0, lw), bv(0, lw))), (a0, s['ra']), (st0, s['rs']), (L, s['rl']), (B, s['rb']))), start)
    xfer = z3.And(s.t('rvalid'), s.t('rready'))
    adv = z3.And(s.t('rready'), z3.ULT(n, L))
    Qn = Q + z3.If(z3.And(adv, cur == nb - 1, s[m['count']] == B - 1), B, bv(0, lw))
    kn = k + one(xfer)
    nn = kn + one(a.t('rvalid'))
    rec.prove('block read advances block by block through the banks (inductive)',
              z3.If(z3.And(xfer, k + 1 == L), z3.And(a[m['fsm']] == 0, z3.Not(a.t('rvalid')), *[a[f] == 0 for f in bk['fsm']]),
                    z3.And(inv(a, 'read', nn, Qn)[0], extra(a, kn, nn))), H)
    want = mem(s, 0, place(s, 'read', Q, cur))
    for b in range(1, nb):
        want = z3.If(cur == b, mem(s, b, place(s, 'read', Q, cur)), want)
    rec.prove('block read: next item offered is the word of the bank whose turn it is', z3.And(a.t('rvalid'), a['rdata'] == want), H + [adv])
    rec.prove('block read: an offered item stays until taken',
              z3.And(a.t('rvalid'), a['rdata'] == s['rdata'], a.t('rlast') == s.t('rlast')), H + [s.t('rvalid'), z3.Not(s.t('rready'))])


class BlockModel(object):
    def __init__(self, nb, aw):
        self.nb, self.M = nb, (1 << aw) - 1
        self.mem, self.r, self.w, self.rv, self.known = {}, None, None, None, False

    def outputs(self, st):
        if not self.known:
            return {}
        o = dict(wready=int(self.w is not None), rvalid=int(self.rv is not None))
        if self.rv is not None:
            o['rlast'] = int(self.rv[1])
            if self.rv[0] is not None:
                o['rdata'] = self.rv[0]
        return o

    def loc(self, q):
        a, s, l, b, k = q
        r, o = divmod(k, b * self.nb)
        return (o // b, (a + s * (r * b + o % b)) & self.M)

    def step(self, st):
        if st['RST']:
            self.r = self.w = self.rv = None
            self.known = True
            return
        old = dict(self.mem)
        if self.w is None:
            if st['wgo'] and st['wl']:
                self.w = [st['wa'], st['ws'], st['wl'], st['wb'], 0]
        else:
            if st['wvalid']:
                self.mem[self.loc(self.w)] = st['wdata']
                self.w[4] += 1
                if self.w[4] == self.w[2] or st['wlast']:
                    self.w = None
            if st['wquit']:
                self.w = None
        if self.r is None:
            self.rv = None
            if st['rgo'] and st['rl']:
                self.r = [st['ra'], st['rs'], st['rl'], st['rb'], 0]
        else:
            if st['rready']:
                if self.rv is not None and self.rv[1]:
                    self.rv = self.r = None
                elif self.r[4] < self.r[2]:
                    self.rv = (old.get(self.loc(self.r)), self.r[4] + 1 == self.r[2])
                    self.r[4] += 1
            if st['rquit']:
                self.r = self.rv = None


def s_block(rec, nb, dw, aw, lw):
    M = [None]

    def mk():
        M[0] = BlockModel(nb, aw)
        return M[0]

    def gen(rng, c, D):
        b = lambda p: int(rng.random() < p)
        ph = (c // 60) % 3
        mo = M[0]
        return dict(RST=int(c == 0), ra=rng.getrandbits(aw), rs=rng.choice([1, 1, 2]), rl=rng.choice([0, 1, 2, 3, 5, 9, rng.getrandbits(lw)]),
                    rb=rng.choice([1, 1, 2, 3]), rgo=b(0.3) if mo and mo.r is None else 0, rready=b([0.5, 0.95, 0.3][ph]), rquit=b(0.01),
                    wa=rng.getrandbits(aw), ws=rng.choice([1, 1, 2]), wl=rng.choice([0, 1, 2, 3, 5, 9, rng.getrandbits(lw)]),
                    wb=rng.choice([1, 1, 2, 3]), wgo=b(0.3) if mo and mo.w is None else 0, wvalid=b([0.5, 0.95, 0.3][ph]), wlast=b(0.02),
                    wdata=rng.getrandbits(dw), wquit=b(0.01))
    c = history_search(block_text(nb, dw, aw, lw), 'top', mk, gen, cycles=600, runs=6, seed=rec.seed)
    if c:
        c['call'] = 'read_burst_block/write_burst_block, %d banks, datawidth %d addrwidth %d' % (nb, dw, aw)
        rec.concrete('block burst search', c)


def bcast_text(nb, dw, aw, lw):
    V = vg()
    import veriloggen.thread as vthread
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r = vthread.MultibankRAM(m, 'r', clk, rst, dw, aw, 1, numbanks=nb)
    wa, ws, wl = m.Input('wa', aw), m.Input('ws', aw), m.Input('wl', lw)
    wgo, wvalid, wlast, wquit = m.Input('wgo'), m.Input('wvalid'), m.Input('wlast'), m.Input('wquit')
    wdata = m.Input('wdata', dw)
    rdy, done = r.write_burst_bcast(wa, ws, wl, 1, wdata, wvalid, wlast, wquit, port=0, cond=wgo)
    m.Output('wready').assign(rdy)
    m.Output('wdone').assign(done)
    return m.to_verilog()


def u_bcast(rec, nb, dw, aw, lw):
    rec.function('thread.ram.MultibankRAM.write_burst_bcast', 'thread.ram.RAM.write_burst')
    D = Design(bcast_text(nb, dw, aw, lw), 'top')
    s = Sym(D, fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    a0, st0 = z3.BitVec('a0', aw), z3.BitVec('st0', aw)
    L, k = z3.BitVec('L', lw), z3.BitVec('k', lw)
    fit = lambda x: (z3.Extract(aw - 1, 0, x) if lw > aw else z3.ZeroExt(aw - lw, x) if aw > lw else x)

    def grp(p):
        c = [n for n in D.state if n.startswith('write_burst_%s_' % p)]
        if len(c) != nb:
            raise vsem.Unsupported('bank registers %s %s' % (p, c))
        return c
    inv = lambda x, k: z3.And(z3.ULT(k, L), *([x[n] == 1 for n in grp('fsm')] + [x[n] == st0 for n in grp('stride')] +
                                              [x[n] == a0 + st0 * fit(k) for n in grp('addr')] + [x[n] == L - k for n in grp('length')]))
    rec.prove('broadcast starts', z3.substitute(inv(a, bv(0, lw)), (a0, s['wa']), (st0, s['ws']), (L, s['wl'])),
              [s[n] == 0 for n in grp('fsm')] + [s.t('wgo'), s['wl'] != 0])
    H = [inv(s, k), z3.Not(s.t('wquit'))]
    rec.cover('invariant', H)
    j = z3.BitVec('j', aw)
    for b in range(nb):
        mem = lambda x: z3.Select(x['inst_r_%d.mem' % b], j)
        rec.prove('every bank stores every item at its address (bank %d)' % b,
                  mem(a) == z3.If(z3.And(s.t('wvalid'), j == a0 + st0 * fit(k)), s['wdata'], mem(s)), H)
    rec.prove('broadcast ready', s.t('wready'), H)
    fin = z3.And(s.t('wvalid'), z3.Or(k + 1 == L, s.t('wlast')))
    rec.prove('broadcast advances, and is done after the last item (inductive)',
              z3.If(fin, z3.And(a.t('wdone'), *[a[n] == 0 for n in grp('fsm')]), inv(a, k + z3.If(s.t('wvalid'), bv(1, lw), bv(0, lw)))), H)


# -- ROM --------------------------------------------------------------------------

def rom_values(n, kind, dw):
    rng = random.Random(n * 7 + dw)
    Int = vg().Int
    if kind == 'int':
        v = [rng.getrandbits(dw) for _ in range(n)]
        return v, v
    if kind == 'signed':
        v = [(-1) ** i * rng.getrandbits(dw - 1) for i in range(n)]
        return v, v
    v = [rng.getrandbits(dw) for _ in range(n)]
    return [Int(x, dw, base=16) if i % 2 else Int("%d'd%d" % (dw, x)) for i, x in enumerate(v)], v


def rom_text(style, n, kind, dw, auto, en):
    V = vg()
    import veriloggen.types.rom as rom
    vals, exp = rom_values(n, kind, dw)
    m = V.Module('top')
    clk = m.Input('CLK')
    aw = max(1, (n - 1).bit_length())
    a = m.Input('addr', aw)
    e = m.Input('en') if en else None
    kw = {} if auto else dict(datawidth=dw)
    if style == 'sync':
        r = rom.SyncROM(m, 'rom', clk, a, vals, enable=e, **kw)
    else:
        r = rom.AsyncROM(m, 'rom', a, vals, **kw)
    m.Output('val', dw).assign(r.rdata)
    return m.to_verilog(), exp, aw


def u_rom(rec, style, n, kind, dw, auto, en):
    rec.function('types.rom.mkROMDefinition', 'types.rom._ROM_RTL.__init__')
    text, exp, aw = rom_text(style, n, kind, dw, auto, en)
    D = Design(text, 'top')
    s = Sym(D)
    a = s.after()
    e = s.t('en') if en else z3.BoolVal(True)
    want = bv(0, dw)
    for i, v in enumerate(exp):
        want = z3.If(s['addr'] == i, bv(v, dw), want)
    inr = z3.ULT(z3.ZeroExt(8, s['addr']), n)
    if style == 'sync':
        rec.prove('value given for the address, one cycle later', a['val'] == want, [e, inr])
        rec.prove('holds while not enabled', a['val'] == s['val'], [z3.Not(e)])
    else:
        rec.prove('value given for the address', s['val'] == want, [inr])


def s_rom(rec, style, n, kind, dw, auto, en):
    text, exp, aw = rom_text(style, n, kind, dw, auto, en)

    class M(object):
        out = None

        def outputs(self, st):
            if style == 'sync':
                return {} if self.out is None else {'val': self.out & ((1 << dw) - 1)}
            return {'val': exp[st['addr']] & ((1 << dw) - 1)} if st['addr'] < n else {}

        def step(self, st):
            if not en or st['en']:
                self.out = exp[st['addr']] if st['addr'] < n else None

    def gen(rng, c, D):
        st = {'addr': c % (1 << aw) if c < (1 << aw) else rng.getrandbits(aw)}
        if en:
            st['en'] = 1 if c < (1 << aw) else rng.getrandbits(1)
        return st
    c = history_search(text, 'top', M, gen, cycles=(1 << aw) + 100, runs=2, seed=rec.seed)
    if c:
        c['call'] = 'ROM %s %d values %s datawidth %d' % (style, n, kind, dw)
        rec.concrete('ROM search', c)


def units(tier, seed):
    U = []

    def add(nm, f, s, *args, **kw):
        U.append(Unit('%s %s' % (nm, ' '.join(str(a) for a in args)), lambda rec: f(rec, *args),
                      search=(lambda rec: s(rec, *args)) if s else None, **kw))
    th = tier == 'thorough'
    cfg = [(8, 4, 1, True, False, None), (8, 4, 2, True, False, 'short'), (8, 3, 3, True, True, 'full'), (1, 1, 2, True, True, 'signed'),
           (8, 4, 2, True, False, 'strhex'),
           (32, 10, 2, True, True, None), (5, 2, 4, True, False, 'signed'), (16, 3, 2, False, False, 'ints'),
           (8, 4, 3, False, True, 'intbase2'), (8, 2, 1, False, True, 'tuple'), (33, 4, 2, True, True, 'strhex'),
           (13, 3, 2, True, True, 'nocheck'), (64, 9, 1, True, True, None), (4, 1, 1, True, False, 'intbase2'),
           (8, 2, 2, False, False, 'full'), (12, 3, 1, True, False, 'ints')]
    if th:
        cfg += [(dw, aw, p, sy, en, i) for dw in (2, 7, 128) for aw in (2, 5) for p in (1, 2, 3)
                for sy in (True, False) for en in (True, False) for i in (None, 'short', 'signed')]
    for c in cfg:
        add('mkRAMDefinition', u_ram, s_ram, *c)
    for c in [('sync', 8, 4, 2, True, 'short'), ('sync', 8, 4, 1, False, None), ('async', 8, 4, 2, False, 'signed'),
              ('async', 5, 3, 3, False, None), ('ext', 8, 4, 2, True, 'short'), ('ext', 32, 10, 1, True, None),
              ('conn', 8, 4, 3, True, 'full'), ('conn', 17, 5, 1, True, None)]:
        add('wrapper', u_wrap, s_wrap, *c)
    for c in [('ram', 8, 4, 1, 2, 2), ('ram', 8, 4, 2, 3, 3), ('ram', 32, 10, 3, 3, 3), ('ram', 1, 1, 1, 1, 1),
              (2, 8, 4, 1, 2, 1), (4, 8, 3, 2, 2, 2), (8, 16, 2, 1, 1, 1), (-2, 8, 4, 2, 2, 2)]:
        add('read_rtl/write_rtl', u_rtl, s_rtl, *c)
    for c in [('ram', 8, 4, 1, 0), ('ram', 8, 4, 2, 1), (2, 8, 4, 1, 0), (4, 8, 3, 2, 1), (-2, 8, 3, 2, 1)]:
        add('RAM.read/write (FSM)', u_fsm, s_fsm, *c)
    for c in [('ram', 8, 4, 6), ('ram', 32, 8, 9), ('ram', 8, 5, 5), (2, 8, 4, 6), (4, 8, 3, 6), (-2, 16, 3, 5)]:
        add('bursts', u_burst, s_burst, *c)
    for c in [(2, 8, 4, 5), (4, 8, 3, 5), (3, 8, 3, 4)] + ([(3, 8, 4, 6), (2, 32, 6, 8)] if th else []):
        add('block bursts', u_block, s_block, *c)
    for c in [(2, 8, 4, 6), (4, 8, 3, 5)]:
        add('broadcast bursts', u_bcast, None, *c)
    for c in [('sync', 5, 'int', 9, False, False), ('sync', 8, 'signed', 8, False, True), ('sync', 16, 'Int', 12, True, False),
              ('async', 5, 'int', 8, False, False), ('async', 8, 'Int', 6, True, False), ('async', 3, 'signed', 16, False, False),
              ('sync', 33, 'int', 32, False, True), ('async', 2, 'int', 4, True, False), ('async', 64, 'int', 16, True, False)]:
        add('ROM', u_rom, s_rom, *c)
    return U


if __name__ == '__main__':
    main('C10', units, trusted=['lib/vsem.py Verilog-2005 semantics', 'pyverilog parser', 'z3'],
         assumptions=['widths, depths, port counts and initial contents are enumerated; histories, data and addresses are not',
                      'two ports writing one address in the same cycle, and two requesters of one port in one cycle, are excluded (preconditions)'])
