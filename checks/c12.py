"""C12: AXI DMA.  The RTL that AXIM emits for a DMA call is put under
contracts: an inductive invariant of the request machine (ghosts: base, beats
done, beats left), of the read data machine and of the write data machine, for
all addresses, lengths, strides and stall patterns.  Bounded end-to-end
simulation (iverilog, AXI memory model) is the search for failing inputs and a
labelled stand-in for the banked variants."""
import os, sys, random, subprocess, tempfile, shutil, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import z3
from vsem import Design
from rtl import Sym, bv
from prove import Unit, main


class B(object):
    pass


def zx(t, n):
    t = getattr(t, 'bv', t)
    return z3.ZeroExt(n - t.size(), t) if n > t.size() else (z3.Extract(n - 1, 0, t) if n < t.size() else t)


class N(object):
    """a step of the design; s('net') is the term of a net, s.n('net') after the edge"""

    def __init__(self, D, suffix='', fix=None, sym=None):
        self.s = sym or Sym(D, suffix, fix=fix or {'RST': 0})
        self._a = None

    def __call__(self, n):
        v = self.s[n]
        return v.bv if hasattr(v, 'bv') else v

    def t(self, n):
        return self.s.t(n)

    def after(self, suffix):
        return N(self.s.d, sym=self.s.after(suffix, fix={'RST': 0}))


def term(v):
    for a in ('bv', 'v', 't'):
        if hasattr(v, a):
            return getattr(v, a)
    return v


def design(adw, rdws, direction, base=False, fifo_aw=3, addrwidth=32, ops=None, same_ram=False):
    """one FSM issuing one DMA per RAM in turn (each gated by go)"""
    import veriloggen as V
    import veriloggen.thread as vthread
    V.reset()
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    o = B()
    o.maxi = x = vthread.AXIM(m, 'p', clk, rst, datawidth=adw, addrwidth=addrwidth, use_global_base_addr=base,
                              req_fifo_addrwidth=fifo_aw)
    o.rams = [vthread.RAM(m, 'r%d' % i, clk, rst, w, 10, numports=2) for i, w in enumerate(rdws)]
    la, ga = m.Input('la', addrwidth), m.Input('ga', addrwidth)
    n, st, go = m.Input('n', addrwidth + 1), m.Input('st', addrwidth), m.Input('go')
    f = V.FSM(m, 'f', clk, rst)
    o.start, o.wait, o.done = [], [], []
    for r in o.rams:
        f.If(go).goto_next()
        o.start.append(f.current)
        (x.dma_read_async if direction == 'r' else x.dma_write_async)(f, r, la, ga, n, st, port=0)
        o.wait.append(f.current)
        (x.dma_wait_read if direction == 'r' else x.dma_wait_write)(f)
        o.done.append(f.current)
    if base:
        f.If(go).goto_next()
        o.setbase = f.current
        x.set_global_base_addr(f, ga)
    f.goto_init()
    o.text = m.to_verilog()
    o.D = Design(o.text, 'top')
    o.m = m
    nm = lambda v: v.name
    d = 'read' if direction == 'r' else 'write'
    for k in ('start', 'op_sel', 'global_addr', 'global_size', 'local_addr', 'local_stride', 'local_size', 'local_blocksize',
              'op_sel_fifo', 'local_addr_fifo', 'local_stride_fifo', 'local_blocksize_fifo',
              'op_sel_buf', 'local_addr_buf', 'local_stride_buf', 'local_blocksize_buf', 'req_busy', 'data_busy',
              'req_idle', 'data_idle', 'idle'):
        setattr(o, 'n_' + k, nm(getattr(x, d + '_' + k)))
    o.n_size_fifo = nm(x.read_local_size_fifo if direction == 'r' else x.write_size_fifo)
    o.n_size_buf = nm(x.read_local_size_buf if direction == 'r' else x.write_size_buf)
    o.fifo = getattr(x, d + '_req_fifo')
    o.n_req = getattr(x, d + '_req_fsm').state.name
    o.n_cur = '_p_%s_cur_global_size' % d
    o.n_cont = '_p_%s_cont' % d
    o.f = f.state.name
    o.ids = [(x._get_read_op_id(r, 0, r.write_burst) if direction == 'r' else x._get_write_op_id(r, 0, r.read_burst))
             for r in o.rams]
    o.d = d
    o.nbase = nm(x.global_base_addr) if base else None
    return o


def find(D, prefix, regs=True):
    """nets with a temporary-name prefix, in creation order"""
    out = []
    for n in D.decls:
        if n.startswith(prefix) and n[len(prefix):].isdigit():
            out.append((int(n[len(prefix):]), n))
    return [n for _, n in sorted(out)]


def beats(n, adw, rdw, w):
    """requested bus beats for n local words (w bits)"""
    if adw == rdw:
        return n
    if adw < rdw:
        return n * bv(rdw // adw, w)
    p = adw // rdw
    return z3.UDiv(n + bv(p - 1, w), bv(p, w))


def u_req(rec, adw, rdw, direction, base=False, addrwidth=32, fifo_aw=3):
    o = design(adw, (rdw,), direction, base, fifo_aw, addrwidth)
    D = o.D
    rec.function('AXIM.%s_%s' % ('dma', o.d), 'AXIM._dma_%s' % o.d, 'AXIM._set_%s_request' % o.d,
                 'AXIM._synthesize_%s_req_fsm' % o.d, 'AXIM._check_4KB_boundary', 'AxiMaster.check_boundary',
                 'AxiMaster.rest_boundary', 'AxiMaster.mask_addr', 'AXIM.pack_%s_req' % o.d, 'AXIM.unpack_%s_req' % o.d,
                 'AxiMaster.%s_request' % o.d)
    By = adw // 8
    W = addrwidth + 33
    s = N(D, '0').after('')         # every state that is at least one cycle old
    q = s.after("'")
    T = lambda st, n: zx(term(st(n)), W)
    af = s.t(o.fifo.wif.almost_full.name)
    A, R, C = [lambda st, k=k: T(st, k) for k in (o.n_global_addr, o.n_global_size, o.n_cur)]
    start, cont, busy = o.n_start, o.n_cont, o.n_req_busy
    st0 = lambda x: term(x(o.n_req)) == 0
    st1 = lambda x: term(x(o.n_req)) == 1
    here = term(s(o.f)) == o.start[0]
    idle = s.t(o.n_req_idle)
    issue = z3.And(here, idle)
    # -- issuing the request
    gaddr = term(s('ga')) + (term(s(o.nbase)) if base else 0)
    n = T(s, 'n')
    lsb = int(math.log(By, 2))
    masked = zx(gaddr & bv(((1 << addrwidth) - 1) & ~(By - 1), addrwidth), W)
    tot = beats(n, adw, rdw, W)
    pre_size = [tot >= 1, z3.ULE(tot * bv(By, W), bv(1 << addrwidth, W)), n >= 1, z3.ULE(n, bv((1 << (addrwidth + 1)) - 1, W))]
    rec.prove('the issuing state is left exactly when the request is taken', (term(q(o.f)) == o.wait[0]) == idle, [here])
    rest = lambda x: z3.And(st0(x), z3.Not(x.t(start)), z3.Not(x.t(cont)), z3.Not(x.t(busy)))      # between transfers
    h = [issue, rest(s)]
    rec.cover('a request can be issued', h + pre_size)
    rec.prove('issue: start set', q.t(start), h)
    rec.prove('issue: aligned global address', A(q) == masked, h)
    rec.prove('issue: number of beats', R(q) == tot, h + pre_size)
    w1 = addrwidth + 1
    rec.prove('issue: operation', term(q(o.n_op_sel)) == bv(o.ids[0], 8), h)
    rec.prove('issue: local address', term(q(o.n_local_addr)) == term(s('la')), h)
    rec.prove('issue: local stride', term(q(o.n_local_stride)) == term(s('st')), h)
    rec.prove('issue: local size', zx(term(q(o.n_local_size)), W) == n, h)
    rec.prove('issue: block size one', term(q(o.n_local_blocksize)) == 1, h)
    for k in (o.n_op_sel, o.n_local_addr, o.n_local_stride, o.n_local_size, o.n_local_blocksize):
        rec.prove('request registers change only when a request is issued: ' + k, term(q(k)) == term(s(k)), [z3.Not(issue)])
    # -- ghosts
    a0, n0, d0 = [z3.BitVec('ghost_' + k, W) for k in ('a0', 'n', 'done')]
    Bv = bv(By, W)
    mask = bv((1 << addrwidth) - 1, W)
    lim = [z3.URem(a0, Bv) == 0, z3.ULE(a0, mask), n0 >= 1, z3.ULE(n0 * Bv, bv(1 << addrwidth, W)), z3.ULE(n0, bv(1 << addrwidth, W)),
           z3.ULE(a0 + n0 * Bv, bv(1 << addrwidth, W))]

    def inv(x, d):
        """what holds in every cycle of a transfer, d beats requested so far"""
        at = (a0 + d * Bv) & mask
        return z3.Or(
            # taken, not yet queued
            z3.And(st0(x), x.t(start), z3.Not(x.t(cont)), d == 0, A(x) == a0, R(x) == n0),
            # a burst is pending
            z3.And(st1(x), z3.Not(x.t(start)), x.t(busy), A(x) == at, z3.UGE(C(x), bv(1, W)), z3.ULE(C(x), bv(256, W)),
                   z3.ULE(d, n0), z3.ULE(C(x), n0), z3.ULE(R(x), n0), d + C(x) + R(x) == n0,
                   z3.ULE((at & bv(4095, W)) + C(x) * Bv, bv(4096, W))),
            # more to request
            z3.And(st0(x), z3.Not(x.t(start)), x.t(cont), x.t(busy), A(x) == at, z3.UGE(R(x), bv(1, W)), z3.ULE(R(x), n0),
                   z3.ULE(d, n0), d + R(x) == n0))

    ch = o.maxi.raddr if direction == 'r' else o.maxi.waddr
    p = 'ar' if direction == 'r' else 'aw'
    cv, ca, cl, cr = [getattr(ch, p + k).name for k in ('valid', 'addr', 'len', 'ready')]
    ack = z3.Or(s.t(cr), z3.Not(s.t(cv)))
    if direction == 'w':
        acc = s.s.alg.truth(D.ctx(s.s.alg, s.s.env).val(o.maxi.write_acceptable().name)) if hasattr(o.maxi.write_acceptable(), 'name') else None
    i0 = [inv(s, d0)] + lim
    enq = s.t(o.fifo.wif.enq.name)
    # what the request machine does in this cycle
    adv = z3.And(st1(s), st0(q))
    taken = z3.And(st1(s), z3.Not(st1(q)))
    rec.cover('transfer states are reachable', i0 + [st1(s)])
    rec.prove('rest is kept until a request is issued', z3.If(issue, z3.And(q.t(start), st0(q), z3.Not(q.t(cont)), z3.Not(q.t(busy))),
                                                           rest(q)), [rest(s)])
    fin = z3.And(adv, R(s) == 0)
    dn = z3.If(adv, d0 + C(s), d0)
    rec.prove('transfer invariant is kept', z3.If(fin, z3.And(rest(q), dn == n0), inv(q, dn)), i0)
    rec.prove('no request is issued during a transfer', z3.Not(issue), i0)
    rec.prove('between transfers requests can be issued', idle, [rest(s)])
    # address channel
    rec.prove('burst request: valid', q.t(cv), i0 + [adv])
    rec.prove('burst request: address', zx(term(q(ca)), W) == (a0 + d0 * Bv) & mask, i0 + [adv])
    rec.prove('burst request: length', zx(term(q(cl)), W) + 1 == C(s), i0 + [adv])
    rec.prove('burst request: 1 to 256 beats', z3.And(z3.UGE(C(s), bv(1, W)), z3.ULE(C(s), bv(256, W))), i0 + [adv])
    rec.prove('burst request: inside one 4KB page', (A(s) / bv(4096, W) if False else z3.UDiv(A(s), bv(4096, W))) ==
              z3.UDiv(A(s) + C(s) * Bv - 1, bv(4096, W)), i0 + [adv])
    rec.prove('a pending channel request is not overwritten', z3.Implies(z3.And(s.t(cv), z3.Not(s.t(cr))),
              z3.And(q.t(cv), term(q(ca)) == term(s(ca)), term(q(cl)) == term(s(cl)))), [])
    rec.prove('no channel request without a burst', z3.Implies(q.t(cv), z3.And(s.t(cv), z3.Not(s.t(cr)))), i0 + [z3.Not(adv)])
    rec.prove('no channel request at rest', z3.Implies(q.t(cv), z3.And(s.t(cv), z3.Not(s.t(cr)))), [rest(s)])
    if direction == 'r':
        rec.prove('progress: a pending burst goes out with the channel', adv == ack, i0 + [st1(s)])
    else:
        okw = z3.And(ack, z3.Not(af))
        rec.prove('progress: a pending burst needs the channel and queue space', z3.Implies(adv, okw), i0 + [st1(s)])
        mx = (1 << o.maxi.outstanding_wcount_width) - 1 if hasattr(o.maxi, 'outstanding_wcount_width') else 7
        oc = term(s(o.maxi.outstanding_wcount.name))
        rec.prove('progress: with few outstanding writes a pending burst goes out', adv, i0 + [st1(s), okw, z3.ULT(oc, bv(mx - 1, oc.size()))])
    rec.prove('progress: the next burst is prepared when the queue has space', st1(q) == z3.Not(af), i0 + [st0(s)])
    # queue
    q0 = z3.And(st0(s), s.t(start), z3.Not(af))
    want = z3.Or(q0, adv) if direction == 'w' else q0
    rec.prove('queue: one entry per %s' % ('request and burst' if direction == 'w' else 'request'), enq == want, i0)
    rec.prove('queue: nothing at rest', z3.Not(enq), [rest(s)])
    rec.prove('queue: a waiting request stays', z3.Implies(z3.And(st0(s), s.t(start), af), z3.And(q.t(start), st0(q))), i0)
    rec.prove('queue: a queued request is not queued again', z3.Not(q.t(start)), i0 + [q0])
    wd = term(s(o.fifo.wif.wdata.name))
    rd = term(s(o.fifo.rif.rdata.name))
    same = [enq, wd == rd]
    for got, src in ((o.n_op_sel_fifo, o.n_op_sel), (o.n_local_addr_fifo, o.n_local_addr), (o.n_local_stride_fifo, o.n_local_stride),
                     (o.n_local_blocksize_fifo, o.n_local_blocksize)):
        rec.prove('queue: entry carries ' + src, term(s(got)) == term(s(src)), i0 + same)
    rec.prove('queue: first entry carries the local size', term(s(o.n_size_fifo)) == term(s(o.n_local_size)), i0 + same + [q0])
    if direction == 'w':
        rec.prove('queue: burst entry carries its beats', zx(term(s(o.n_size_fifo)), W) == C(s), i0 + same + [adv])
    # completion
    rec.prove('wait: left only when idle', z3.Implies(term(q(o.f)) != o.wait[0], s.t(o.n_idle)), [term(s(o.f)) == o.wait[0]])
    rec.prove('idle means at rest with an empty queue and no data',
              z3.Implies(s.t(o.n_idle), z3.And(z3.Not(s.t(start)), z3.Not(s.t(busy)), s.t(o.fifo.rif.empty.name),
                                               z3.Not(s.t(o.n_data_busy)))), [])
    rec.prove('not idle during the requests of a transfer', z3.Not(s.t(o.n_idle)), i0)
    if direction == 'w':
        rec.prove('write wait: no response outstanding', z3.Implies(term(q(o.f)) != o.wait[0],
                  z3.Not(s.t(o.maxi.has_outstanding_write.name)) if hasattr(o.maxi, 'has_outstanding_write') else True),
                  [term(s(o.f)) == o.wait[0]])
    if base:
        rec.prove('base address set', term(q(o.nbase)) == term(s('ga')), [term(s(o.f)) == o.setbase])
        rec.prove('base address kept', term(q(o.nbase)) == term(s(o.nbase)), [term(s(o.f)) != o.setbase])
    # reset
    x = N(D, 'R', fix={'RST': 1}).after("R'")
    rec.prove('reset leads to rest', rest(x), [])


def u_read(rec, adw, rdws):
    """data side of a DMA read: which RAM words are written, with which beats"""
    o = design(adw, rdws, 'r')
    D = o.D
    z = N(D, '0')
    rec.function('AXIM._synthesize_read_data_fsm', 'AXIM._synthesize_read_data_fsm_same',
                 'AXIM._synthesize_read_data_fsm_narrow', 'AXIM._synthesize_read_data_fsm_wide', 'RAM.write_burst',
                 'AxiMaster.read_data', 'AXIM._get_read_op_id')
    s = N(D)
    q = s.after("'")
    W = 48
    rv, rr, rdat = [getattr(o.maxi.rdata, k).name for k in ('rvalid', 'rready', 'rdata')]
    bf, ba, bs, bl = [find(D, 'write_burst_%s_' % k) for k in ('fsm', 'addr', 'stride', 'length')]
    rec.holds('one burst machine per operation', all(len(b) == len(rdws) for b in (bf, ba, bs, bl)), str((bf, ba, bs, bl)))
    kinds = [('same' if w == adw else 'narrow' if w > adw else 'wide') for w in rdws]
    fsms = {'same': o.maxi.read_data_fsm, 'narrow': o.maxi.read_data_narrow_fsm, 'wide': o.maxi.read_data_wide_fsm}
    T = lambda x, n: zx(term(x(n)), W)
    cnts = {k: find(D, '_p_read_%s_count_' % k) for k in ('narrow', 'wide')}
    wds = {k: find(D, '_p_read_%s_wdata_' % k) for k in ('narrow', 'wide')}
    wvs = {k: find(D, '_p_read_%s_wvalid_' % k) for k in ('narrow', 'wide')}
    allf = [f.state.name for f in fsms.values() if f is not None]
    seen = {'narrow': 0, 'wide': 0}
    ports = [(r.interfaces[0].addr.name, r.interfaces[0].wdata.name, r.interfaces[0].wenable.name) for r in o.rams]

    def others_idle(x, me):
        return z3.And(*[term(x(f)) == 0 for f in allf if f != me])
    lingering = {}
    info = []
    for i, w in enumerate(rdws):
        k = kinds[i]
        j = B()
        j.k, j.f, j.id = k, fsms[k].state.name, o.ids[i]
        if k != 'same':
            j.c, j.wd, j.wv = cnts[k][seen[k]], wds[k][seen[k]], wvs[k][seen[k]]
            seen[k] += 1
        info.append(j)

    def quiet(x, i):
        """burst machine of operation i at rest, or finishing its last word"""
        if kinds[i] == 'same':
            return term(x(bf[i])) == 0
        return z3.Or(term(x(bf[i])) == 0, z3.And(term(x(bf[i])) == 1, x.t(info[i].wv), T(x, bl[i]) == 1))

    fe = o.fifo.rif.empty.name
    deq = s.t(o.fifo.rif.deq.name)
    busy = o.n_data_busy
    for i, w in enumerate(rdws):
        j = info[i]
        k, pack = j.k, max(w // adw, adw // w)
        P = '%s %d: ' % (k, w)
        cond = z3.And(z3.Not(s.t(busy)), z3.Not(s.t(fe)), term(s(o.n_op_sel_fifo)) == j.id)
        anyf = z3.And(*[term(s(f)) == 0 for f in allf])
        base0 = z3.And(anyf, z3.Not(s.t(busy)))
        # waiting -> accepted
        h = [base0]
        rec.prove(P + 'an entry of this operation is taken', z3.And(deq, term(q(j.f)) == 1, others_idle(q, j.f), q.t(busy)), h + [cond])
        for b, f in ((o.n_op_sel_buf, o.n_op_sel_fifo), (o.n_local_addr_buf, o.n_local_addr_fifo),
                     (o.n_local_stride_buf, o.n_local_stride_fifo), (o.n_size_buf, o.n_size_fifo)):
            rec.prove(P + 'taken entry: ' + b, term(q(b)) == term(s(f)), h + [cond])
        for i2 in range(len(rdws)):
            rec.prove(P + 'no new burst starts while waiting (%d)' % i2, quiet(q, i2), h + [quiet(s, i2)])
            if kinds[i2] == 'same':
                rec.prove(P + 'no RAM write while waiting (%d)' % i2, z3.Not(s.t(ports[i2][2])), h + [quiet(s, i2)])
        rec.prove(P + 'nothing is read from the bus while waiting', z3.Not(s.t(rr)), h)
        # state 1: start of the burst
        z0, z1 = z, z.after('')
        h1 = [term(s(j.f)) == 1, others_idle(s, j.f), s.t(busy), term(s(o.n_op_sel_buf)) == j.id,
              z3.And(*[quiet(s, i2) for i2 in range(len(rdws))]), T(s, o.n_size_buf) >= 1, z3.UGE(T(s, o.n_size_buf), bv(1, W))]
        # one cycle passed since the entry was taken: a finishing burst is over
        h1s = h1 + [term(s(bf[i])) == 0]
        rec.prove(P + 'a finishing burst is over after one cycle', z3.And(*[term(q(b)) == 0 for b in bf]),
                  [base0] + [quiet(s, i2) for i2 in range(len(rdws))])
        rec.prove(P + 'no queue access in state 1', z3.Not(deq), h1s)
        la, st, n = [z3.BitVec('g_' + x, W) for x in ('la', 'st', 'n')]
        gk = z3.BitVec('g_k', W)           # words written
        gj = z3.BitVec('g_j', W)           # beats taken
        ca = z3.BitVec('g_ca', W)          # la + k*stride
        gb = [z3.BitVec('g_b%d' % c, adw) for c in range(pack)] if k == 'narrow' else [z3.BitVec('g_b0', adw)]

        def inv(x, ca, gk, gb, gi):
            """state 2, gk words written"""
            tr = lambda v, net: z3.Extract(term(x(net)).size() - 1, 0, v)
            L = T(x, bl[i])
            c = [term(x(j.f)) == 2, others_idle(x, j.f), x.t(busy), term(x(o.n_op_sel_buf)) == j.id,
                 z3.And(*[term(x(b)) == 0 for i2, b in enumerate(bf) if i2 != i]), term(x(bf[i])) == 1,
                 term(x(bs[i])) == tr(st, bs[i]), term(x(ba[i])) == tr(ca, ba[i]),
                 z3.ULT(gk, n), L == n - gk]
            if k == 'same':
                c += [T(x, o.n_size_buf) == n - gk]
            else:
                v = z3.If(x.t(j.wv), bv(1, W), bv(0, W))
                c += [T(x, o.n_size_buf) == n - gk - v, z3.UGE(n - gk - v, bv(1, W))]
                C = T(x, j.c)
                c.append(z3.ULT(C, bv(pack, W)))
                wd = term(x(j.wd))
                if k == 'narrow':
                    for cc in range(pack):          # cc beats taken: they sit at the top, in order
                        for b in range(cc):
                            lo = (pack - cc + b) * adw
                            c.append(z3.Implies(C == cc, z3.Extract(lo + adw - 1, lo, wd) == gb[b]))
                    # a completed word is announced for one cycle, with no beat of the next one
                    c.append(z3.Implies(x.t(j.wv), z3.And(C == 0, wd == z3.Concat(*reversed(gb)) if pack > 1 else wd == gb[0])))
                else:
                    c.append(z3.Implies(C > 0, x.t(j.wv)))
                    # after count words of the beat, the rest of it is in wdata
                    c.append(gi == z3.If(x.t(j.wv), z3.If(C == 0, bv(pack - 1, W), C - 1), bv(0, W)))
                    for cc in range(pack):
                        c.append(z3.Implies(z3.And(x.t(j.wv), gi == cc), z3.Extract(w - 1, 0, wd) == z3.Extract((cc + 1) * w - 1, cc * w, gb[0])))
                        c.append(z3.Implies(z3.And(x.t(j.wv), gi == cc), wd == z3.LShR(gb[0], bv(cc * w, adw))))
            return z3.And(*c)
        gi = z3.BitVec('g_i', W)
        start = [la == zx(term(s(o.n_local_addr_buf)), W), st == zx(term(s(o.n_local_stride_buf)), W), n == T(s, o.n_size_buf)]
        rec.cover(P + 'state 1', h1s + start)
        for c in ([None] if k == 'narrow' else [None]):
            rec.prove(P + 'state 1 starts the burst with the queued address, stride and size',
                      inv(q, la, bv(0, W), gb, bv(0, W)), h1s + start)
        # state 2
        hi = [inv(s, ca, gk, gb, gi), z3.ULT(n, bv(1 << 33, W)), z3.ULT(gk, bv(1 << 33, W))]
        hand = z3.And(s.t(rv), s.t(rr))
        wen = s.t(ports[i][2])
        wa = term(s(ports[i][0]))
        wdt = term(s(ports[i][1]))
        rec.cover(P + 'state 2', hi + [hand])
        addr_ok = wa == z3.Extract(wa.size() - 1, 0, ca)
        for i2 in range(len(rdws)):
            if i2 != i:
                rec.prove(P + 'other RAM %d is not written' % i2, z3.Not(s.t(ports[i2][2])), hi)
        rec.prove(P + 'the queue is left alone', z3.Not(deq), hi)
        rec.prove(P + 'a RAM write goes to local address + k * stride', z3.Implies(wen, addr_ok), hi)
        ca2 = z3.If(wen, ca + st, ca)
        gk2 = z3.If(wen, gk + 1, gk)
        if k == 'same':
            rec.prove(P + 'one RAM write per beat', wen == hand, hi)
            rec.prove(P + 'RAM write data is the beat', wdt == term(s(rdat)), hi + [wen])
            rec.prove(P + 'always ready for a beat', s.t(rr), hi)
            done = z3.And(wen, gk + 1 == n)
            rec.prove(P + 'invariant', z3.If(done, z3.And(*[term(q(f)) == 0 for f in allf] + [z3.Not(q.t(busy)), term(q(bf[i])) == 0]),
                                             inv(q, ca2, gk2, gb, gi)), hi)
        elif k == 'narrow':
            rec.prove(P + 'RAM write data is the %d beats in order' % pack,
                      wdt == z3.Concat(*reversed(gb)), hi + [wen])
            rec.prove(P + 'always ready for a beat', s.t(rr), hi)
            C = T(s, j.c)
            gb2 = [z3.If(z3.And(hand, C == c), term(s(rdat)), gb[c]) for c in range(pack)]
            last = z3.And(hand, C == pack - 1, T(s, o.n_size_buf) == 1)
            rec.prove(P + 'every %d-th beat completes a word' % pack, q.t(j.wv) == z3.And(hand, C == pack - 1), hi)
            rec.prove(P + 'beats are counted', z3.If(hand, T(q, j.c) == z3.If(C == pack - 1, bv(0, W), C + 1), T(q, j.c) == C), hi)
            rec.prove(P + 'invariant', z3.If(last, z3.And(*[term(q(f)) == 0 for f in allf] + [z3.Not(q.t(busy)), term(q(bf[i])) == 1, q.t(j.wv),
                                T(q, bl[i]) == 1, gk2 + 1 == n, term(q(ba[i])) == z3.Extract(term(q(ba[i])).size() - 1, 0, ca2),
                                term(q(j.wd)) == z3.Concat(*reversed(gb2))]),
                                             inv(q, ca2, gk2, gb2, gi)), hi)
        else:
            C = T(s, j.c)
            rec.prove(P + 'RAM write data is the next part of the beat',
                      z3.And(*[z3.Implies(gi == c, wdt == z3.Extract((c + 1) * w - 1, c * w, gb[0])) for c in range(pack)]), hi + [wen])
            rec.prove(P + 'a beat is taken only when the previous one is used up', z3.Implies(hand, C == 0), hi)
            rec.prove(P + 'a beat is taken when one is needed', z3.Implies(C == 0, s.t(rr)), hi)
            gb2 = [z3.If(hand, term(s(rdat)), gb[0])]
            wvn = z3.Or(hand, C > 0)
            gi2 = z3.If(z3.And(hand, C == 0), bv(0, W), z3.If(C > 0, C, bv(0, W)))
            last = z3.And(wvn, T(s, o.n_size_buf) == 1)
            rec.prove(P + 'invariant', z3.If(last, z3.And(*[term(q(f)) == 0 for f in allf] + [z3.Not(q.t(busy)), term(q(bf[i])) == 1, q.t(j.wv),
                                T(q, bl[i]) == 1, gk2 + 1 == n, term(q(ba[i])) == z3.Extract(term(q(ba[i])).size() - 1, 0, ca2),
                                term(q(j.wd)) == z3.LShR(gb2[0], z3.Extract(adw - 1, 0, gi2 * w) if adw <= W else z3.ZeroExt(adw - W, gi2 * w))]),
                                             inv(q, ca2, gk2, gb2, gi2)), hi)
        if k != 'same':
            # the last word is written in the cycle after the transfer, and only once
            e = [base0, term(s(bf[i])) == 1, s.t(j.wv), T(s, bl[i]) == 1]
            rec.prove(P + 'last word: written', z3.And(wen, wdt == z3.Extract(w - 1, 0, term(s(j.wd))), wa == term(s(ba[i]))), e)
            rec.prove(P + 'last word: the burst ends', term(q(bf[i])) == 0, e)
            rec.prove(P + 'last word: nothing afterwards', z3.Not(wen), [base0, term(s(bf[i])) == 0])
    x = N(D, 'R', fix={'RST': 1}).after("R'")
    rec.prove('reset: all machines wait', z3.And(*[term(x(f)) == 0 for f in allf + bf] + [z3.Not(x.t(busy))]), [])


def u_write(rec, adw, rdws):
    """data side of a DMA write: which beats go out, with which RAM words"""
    o = design(adw, rdws, 'w')
    D = o.D
    rec.function('AXIM._synthesize_write_data_fsm', 'AXIM._synthesize_write_data_fsm_same',
                 'AXIM._synthesize_write_data_fsm_narrow', 'AXIM._synthesize_write_data_fsm_wide',
                 'AxiMaster.write_data', 'AXIM._get_write_op_id')
    s = N(D, '0').after('')         # every state that is at least one cycle old
    q = s.after("'")
    W = 48
    ch = o.maxi.wdata
    wv, wr, wdn, wl, ws = [getattr(ch, k).name for k in ('wvalid', 'wready', 'wdata', 'wlast', 'wstrb')]
    bf, ba, bs, bl, bv_, bla = [find(D, 'read_burst_%s_' % k) for k in ('fsm', 'addr', 'stride', 'length', 'rvalid', 'rlast')]
    rec.holds('one burst machine per operation', all(len(b) == len(rdws) for b in (bf, ba, bs, bl, bv_, bla)), str((bf, bl, bv_, bla)))
    kinds = [('same' if w == adw else 'narrow' if w > adw else 'wide') for w in rdws]
    fsms = {'same': o.maxi.write_data_fsm, 'narrow': o.maxi.write_data_narrow_fsm, 'wide': o.maxi.write_data_wide_fsm}
    T = lambda x, n: zx(term(x(n)), W)
    cnts = {k: find(D, '_p_write_%s_count_' % k) for k in ('narrow', 'wide')}
    wds = {k: find(D, '_p_write_%s_wdata_' % k) for k in ('narrow', 'wide')}
    wls = {k: find(D, '_p_write_%s_wlast_' % k) for k in ('narrow', 'wide')}
    allf = [f.state.name for f in fsms.values() if f is not None]
    seen = {'narrow': 0, 'wide': 0}
    rdat = [r.interfaces[0].rdata.name for r in o.rams]
    fe, deqn = o.fifo.rif.empty.name, o.fifo.rif.deq.name
    deq = s.t(deqn)
    busy = o.n_data_busy
    others = lambda x, me: z3.And(*[term(x(f)) == 0 for f in allf if f != me])
    # a RAM burst machine is idle when it offers nothing (contract of RAM.read_burst, C10)
    bidle = lambda x, i: z3.And(term(x(bf[i])) == 0, z3.Not(x.t(bv_[i])), z3.Not(x.t(bla[i])))
    busk = lambda x: z3.Or(x.t(wr), z3.Not(x.t(wv)))
    full = (1 << (adw // 8)) - 1
    for i, w in enumerate(rdws):
        k, f = kinds[i], fsms[kinds[i]].state.name
        pack = max(w // adw, adw // w)
        P = '%s %d: ' % (k, w)
        ident = o.ids[i]
        if k != 'same':
            cn, wd = cnts[k][seen[k]], wds[k][seen[k]]
            wlr = wls[k][seen[k]] if wls[k] else None
            seen[k] += 1
        sz = lambda x: T(x, o.n_size_buf)
        # ---- waiting
        base0 = z3.And(*[term(s(g)) == 0 for g in allf] + [z3.Not(s.t(busy))] + [bidle(s, i2) for i2 in range(len(rdws))])
        cond = z3.And(z3.Not(s.t(fe)), term(s(o.n_op_sel_fifo)) == ident)
        lsz = T(s, o.n_size_fifo)
        wsz = lsz if k != 'wide' else z3.UDiv(lsz + (pack - 1), bv(pack, W)) * pack
        small = [z3.ULT(lsz, bv(1 << 32, W))]
        rec.cover(P + 'an entry waits', [base0, cond])
        rec.prove(P + 'an entry of this operation is taken', z3.And(deq, term(q(f)) == 1, others(q, f), q.t(busy)), [base0, cond])
        for b, fi in ((o.n_op_sel_buf, o.n_op_sel_fifo), (o.n_local_addr_buf, o.n_local_addr_fifo),
                      (o.n_local_stride_buf, o.n_local_stride_fifo)):
            rec.prove(P + 'taken entry: ' + b, term(q(b)) == term(s(fi)), [base0, cond])
        rec.prove(P + 'taken entry: words to read', sz(q) == wsz, [base0, cond] + small)
        rec.prove(P + 'bus data only changes when accepted while waiting', z3.If(z3.And(s.t(wv), z3.Not(s.t(wr))),
                  z3.And(q.t(wv), term(q(wdn)) == term(s(wdn)), term(q(wl)) == term(s(wl))), z3.Not(q.t(wv))), [base0])
        rec.prove(P + 'RAM burst stays idle while waiting', bidle(q, i), [base0])
        # ---- state 1
        h1 = [term(s(f)) == 1, others(s, f), s.t(busy), term(s(o.n_op_sel_buf)) == ident, z3.UGE(sz(s), bv(1, W))] + \
             [bidle(s, i2) for i2 in range(len(rdws))]
        tr = lambda x, v, net: term(x(net)) == z3.Extract(term(x(net)).size() - 1, 0, v)
        rec.cover(P + 'state 1', h1)
        rec.prove(P + 'state 1 starts the RAM burst', z3.And(term(q(bf[i])) == 1, tr(q, T(s, o.n_local_addr_buf), ba[i]),
                  tr(q, T(s, o.n_local_stride_buf), bs[i]), T(q, bl[i]) == sz(s)), h1)
        rec.prove(P + 'state 1 goes on with no beats granted', z3.And(term(q(f)) == 2, others(q, f), q.t(busy), sz(q) == 0,
                  term(q(o.n_op_sel_buf)) == ident), h1)
        rec.prove(P + 'state 1: queue left alone', z3.Not(deq), h1)
        rec.prove(P + 'state 1: no beat', z3.Implies(q.t(wv), z3.And(s.t(wv), z3.Not(s.t(wr)))), h1)
        if k != 'same':
            rec.prove(P + 'state 1 clears the part counter', T(q, cn) == 0, h1)
        for i2 in range(len(rdws)):
            if i2 != i:
                rec.prove(P + 'state 1: no burst in RAM %d' % i2, bidle(q, i2), h1)
        # ---- state 2
        part = [] if k == 'same' else [z3.ULT(T(s, cn), bv(pack, W))]
        h2 = [term(s(f)) == 2, others(s, f), s.t(busy), term(s(o.n_op_sel_buf)) == ident] + part + \
             [bidle(s, i2) for i2 in range(len(rdws)) if i2 != i]
        rvd, rls, rdt = s.t(bv_[i]), s.t(bla[i]), term(s(rdat[i]))
        h2.append(z3.Implies(rls, rvd))
        grant = z3.And(z3.Not(s.t(fe)), sz(s) == 0)
        rec.prove(P + 'a burst entry is taken exactly when no beats are granted', deq == grant, h2)
        mul = pack if k == 'wide' else 1
        rec.prove(P + 'taking a burst entry grants its beats', sz(q) == T(s, o.n_size_fifo) * mul, h2 + [grant, z3.ULE(lsz, bv(256, W))])
        for b in (o.n_op_sel_buf, ):
            rec.prove(P + 'the operation is kept', term(q(b)) == term(s(b)), h2)
        gz = z3.UGE(sz(s), bv(1, W))
        if k == 'same':
            send = z3.And(rvd, gz, busk(s))
            data, last = rdt, z3.Or(rls, sz(s) == 1)
            consume = send
            end = z3.And(send, rls)
        elif k == 'narrow':
            C = T(s, cn)
            G = z3.BitVec('g_word', w)          # RAM word being sent
            Gl = z3.Bool('g_last')
            wdt = term(s(wd))
            def ninv(x, G, Gl):
                C = T(x, cn)
                wdt = term(x(wd))
                out = [z3.ULT(C, bv(pack, W))]
                for c in range(1, pack):
                    out.append(z3.Implies(C == c, z3.And(z3.Extract((pack - c) * adw - 1, 0, wdt) == z3.Extract(w - 1, c * adw, G),
                                                         x.t(wlr) == Gl)))
                return z3.And(*out)
            h2 = h2 + [ninv(s, G, Gl)]
            send = z3.And(z3.Or(C > 0, rvd), gz, busk(s))
            cur = z3.If(C == 0, rdt, G)
            data = z3.Extract(adw - 1, 0, cur)
            for c in range(1, pack):
                data = z3.If(C == c, z3.Extract((c + 1) * adw - 1, c * adw, cur), data)
            last = sz(s) == 1
            consume = z3.And(send, C == 0)
            end = z3.And(send, C == pack - 1, z3.If(C == 0, rls, Gl))
            G2 = z3.If(consume, rdt, G)
            Gl2 = z3.If(consume, rls, Gl)
            rec.prove(P + 'parts of the word are kept in order', z3.Or(term(q(f)) != 2, ninv(q, G2, Gl2)), h2)
            rec.prove(P + 'parts are counted', T(q, cn) == z3.If(send, z3.If(C == pack - 1, bv(0, W), C + 1), C), h2)
        else:
            C = T(s, cn)
            gw = [z3.BitVec('g_w%d' % c, w) for c in range(pack)]
            def winv(x, gw):
                C = T(x, cn)
                wdt = term(x(wd))
                out = [z3.ULT(C, bv(pack, W)), z3.Implies(C > 0, z3.Not(x.t(wv)))]
                for c in range(1, pack):
                    for b in range(c):
                        lo = (pack - c + b) * w
                        out.append(z3.Implies(C == c, z3.Extract(lo + w - 1, lo, wdt) == gw[b]))
                return z3.And(*out)
            h2 = h2 + [winv(s, gw)]
            consume = z3.And(rvd, gz, z3.Or(C > 0, busk(s)))
            send = z3.And(consume, C == pack - 1)
            data = z3.Concat(rdt, *reversed(gw[:pack - 1]))
            last = z3.Or(rls, sz(s) == 1)
            end = z3.And(send, rls)
            gw2 = [z3.If(z3.And(consume, C == c), rdt, gw[c]) for c in range(pack)]
            rec.prove(P + 'words of the beat are kept in order', z3.Or(term(q(f)) != 2, winv(q, gw2)), h2)
            rec.prove(P + 'words are counted', T(q, cn) == z3.If(consume, z3.If(C == pack - 1, bv(0, W), C + 1), C), h2)
        rec.cover(P + 'a beat is sent', h2 + [send])
        rec.prove(P + 'sent beat: data', term(q(wdn)) == data, h2 + [send])
        rec.prove(P + 'sent beat: all bytes', term(q(ws)) == full, h2 + [send])
        rec.prove(P + 'sent beat: valid', q.t(wv), h2 + [send])
        rec.prove(P + 'sent beat: last of its burst', q.t(wl) == last, h2 + [send])
        rec.prove(P + 'no other beat', z3.If(z3.And(s.t(wv), z3.Not(s.t(wr))),
                  z3.And(q.t(wv), term(q(wdn)) == term(s(wdn)), term(q(wl)) == term(s(wl))), z3.Not(q.t(wv))), h2 + [z3.Not(send)])
        rec.prove(P + 'never replaces a beat the bus has not taken', z3.Implies(send, busk(s)), h2)
        used = consume if k == 'wide' else send
        rec.prove(P + 'granted beats are used up', z3.Implies(z3.Not(grant), sz(q) == z3.If(used, sz(s) - 1, sz(s))), h2)
        # what the RAM burst sees: its word is consumed exactly when used (C10: rready is consumption)
        keep = z3.And(rvd, z3.Not(consume))
        rec.prove(P + 'an unused RAM word stays offered', z3.And(q.t(bv_[i]), term(q(bf[i])) == term(s(bf[i])), q.t(bla[i]) == rls,
                  term(q(bl[i])) == term(s(bl[i]))), h2 + [keep, term(s(bf[i])) == 1])
        rec.prove(P + 'the last word ends the RAM burst', bidle(q, i), h2 + [consume, rls, term(s(bf[i])) == 1])
        rec.prove(P + 'the transfer ends with its last word', z3.If(end, z3.And(term(q(f)) == 0, z3.Not(q.t(busy))),
                  z3.And(term(q(f)) == 2, q.t(busy))), h2 + [z3.Implies(end, gz)])
        rec.prove(P + 'other machines stay idle', z3.And(others(q, f), *[bidle(q, i2) for i2 in range(len(rdws)) if i2 != i]), h2)
    x = N(D, 'R', fix={'RST': 1}).after("R'")
    rec.prove('reset: all machines wait', z3.And(*[term(x(f)) == 0 for f in allf] + [bidle(x, i) for i in range(len(rdws))] +
                                                 [z3.Not(x.t(busy)), z3.Not(x.t(wv))]), [])


# ---------------------------------------------------------------- end to end
TB = """
module axi_mem #(parameter DW=32, AW=32, SEED=1, STALL=1) (
  input CLK, input RST,
  input [AW-1:0] awaddr, input [7:0] awlen, input awvalid, output awready,
  input [DW-1:0] wdata, input [DW/8-1:0] wstrb, input wlast, input wvalid, output wready,
  output bvalid, input bready,
  input [AW-1:0] araddr, input [7:0] arlen, input arvalid, output arready,
  output [DW-1:0] rdata, output rlast, output rvalid, input rready);
  localparam NB = 1 << 17;
  reg [7:0] mem [0:NB-1];
  integer i, seed;
  reg [AW-1:0] aq [0:255]; reg [7:0] al [0:255]; integer ah, at, ab;
  reg [AW-1:0] wq [0:255]; reg [7:0] wl [0:255]; integer wh, wt, wb;
  integer bcnt;
  reg [7:0] st;
  initial begin seed = SEED; ah=0; at=0; ab=0; wh=0; wt=0; wb=0; bcnt=0; st=8'hff; end
  assign awready = st[0] && (wt - wh < 4);
  assign arready = st[1] && (at - ah < 4);
  assign wready = st[2] && (wt > wh);
  assign bvalid = st[3] && (bcnt > 0);
  reg rv; reg [DW-1:0] rd; reg rl;
  assign rvalid = rv; assign rdata = rd; assign rlast = rl;
  initial rv = 0;
  always @(posedge CLK) begin
    if(RST) begin st <= 8'hff; rv <= 0; end
    else begin
      if(STALL == 0) st <= 8'hff; else if(STALL == 1) st <= $random(seed) | $random(seed); else st <= $random(seed) & $random(seed);
      if(awvalid && awready) begin $display("AW %0d %0d", awaddr, awlen); wq[wt % 256] = awaddr; wl[wt % 256] = awlen; wt = wt + 1; end
      if(arvalid && arready) begin $display("AR %0d %0d", araddr, arlen); aq[at % 256] = araddr; al[at % 256] = arlen; at = at + 1; end
      if(wvalid && wready) begin
        $display("W %h %b %b", wdata, wlast, wstrb);
        for(i=0;i<DW/8;i=i+1) if(wstrb[i]) mem[(wq[wh % 256] + wb*(DW/8) + i) % NB] = wdata[8*i +: 8];
        if(wlast != (wb == wl[wh % 256])) $display("BADLAST");
        wb = wb + 1;
        if(wb > wl[wh % 256]) begin wb = 0; wh = wh + 1; bcnt = bcnt + 1; end
      end
      if(bvalid && bready) bcnt = bcnt - 1;
      if(rv && rready) rv <= 0;
      if((!rv || rready) && at > ah && st[4]) begin
        rv <= 1; rl <= (ab == al[ah % 256]);
        for(i=0;i<DW/8;i=i+1) rd[8*i +: 8] <= mem[(aq[ah % 256] + ab*(DW/8) + i) % NB];
        ab = ab + 1;
        if(ab > al[ah % 256]) begin ab = 0; ah = ah + 1; end
      end
    end
  end
endmodule
"""


def hash8(i, s):
    x = (i * 2654435761 + s * 40503 + 12345) & 0xffffffff
    x ^= x >> 15
    x = (x * 2246822519) & 0xffffffff
    return (x >> 13) & 0xff


def run_dma(adw, rspec, ops, seed, stall, aw=10, cycles=20000, **axk):
    """rspec: ('ram', dw) | ('bank', dw, nb) | ('nest', dw, nb, nb2).  ops: list of
    (method, args...).  The program runs them one after the other.
    -> (log lines, memory bytes, [bank words]) or raises"""
    import veriloggen as V
    import veriloggen.thread as vthread
    V.reset()
    m = V.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    x = vthread.AXIM(m, 'p', clk, rst, datawidth=adw, **axk)
    if rspec[0] == 'ram':
        ram = vthread.RAM(m, 'r', clk, rst, rspec[1], aw, numports=2)
        leaves = [ram]
    elif rspec[0] == 'bank':
        ram = vthread.MultibankRAM(m, 'r', clk, rst, rspec[1], aw, numports=2, numbanks=rspec[2])
        leaves = ram.rams
    else:
        inner = [vthread.MultibankRAM(m, 'r%d' % i, clk, rst, rspec[1], aw, numports=2, numbanks=rspec[3]) for i in range(rspec[2])]
        ram = vthread.to_multibank_ram(inner, keep_hierarchy=True)
        leaves = [l for r in inner for l in r.rams]
    fin = m.OutputReg('fin', initval=0)
    got = m.OutputReg('got', adw, initval=0)
    f = V.FSM(m, 'f', clk, rst)
    for op in ops:
        # values go through registers or stay constants
        args = list(op[1:])
        meth = getattr(x, op[0])
        if op[0] in ('read', 'write', 'set_global_base_addr') or op[0].startswith('dma_wait'):
            r = meth(f, *args)
            if op[0] == 'read':
                f(got(r))
                f(V.Systask('display', 'RD %h', r))
                f.goto_next()
        else:
            for i, a in enumerate(args):
                if isinstance(a, tuple):        # ('reg', value, width)
                    rg = m.TmpReg(a[2], initval=0, prefix='arg')
                    f(rg(a[1]))
                    args[i] = rg
            f.goto_next()
            meth(f, ram, *args)
    f(fin(1))
    f.goto_next()
    text = m.to_verilog()
    insts = [l.name for l in leaves]
    d = tempfile.mkdtemp(prefix='dma_')
    try:
        NB = 1 << 17
        with open(os.path.join(d, 'mem.hex'), 'w') as fh:
            fh.write('\n'.join('%02x' % hash8(i, seed) for i in range(NB)))
        dw = rspec[1]
        init = {}
        for k, nme in enumerate(insts):
            ws = [sum(hash8(a * 64 + b + 7 * k, seed + 99) << (8 * b) for b in range((dw + 7) // 8)) & ((1 << dw) - 1) for a in range(1 << aw)]
            init[nme] = ws
            with open(os.path.join(d, nme + '.hex'), 'w') as fh:
                fh.write('\n'.join('%x' % v for v in ws))
        D = Design(text, 'top')
        io = {n: D.decls[n].width for n in D.iports if n not in ('CLK', 'RST')}
        oo = {n: D.decls[n].width for n in D.oports}
        tb = ['module tb; reg CLK=0; reg RST=1; always #5 CLK = !CLK; integer c;']
        for n, w in list(io.items()) + list(oo.items()):
            tb.append('wire [%d:0] %s;' % (w - 1, n))
        tb.append('top dut(.CLK(CLK), .RST(RST)%s);' % ''.join(', .%s(%s)' % (n, n) for n in list(io) + list(oo)))
        tb.append('axi_mem #(.DW(%d), .AW(%d), .SEED(%d), .STALL(%d)) mem(.CLK(CLK), .RST(RST)' % (adw, D.decls['p_araddr'].width, seed, stall))
        for n in ('awaddr', 'awlen', 'awvalid', 'awready', 'wdata', 'wstrb', 'wlast', 'wvalid', 'wready', 'bvalid', 'bready', 'araddr',
                  'arlen', 'arvalid', 'arready', 'rdata', 'rlast', 'rvalid', 'rready'):
            tb.append(', .%s(p_%s)' % (n, n))
        tb.append(');')
        tb.append('initial begin $readmemh("mem.hex", mem.mem);')
        for nme in insts:
            tb.append('#0 $readmemh("%s.hex", dut.inst_%s.mem);' % (nme, nme))
        tb.append('#52 RST = 0; c = 0; while(!fin && c < %d) begin @(posedge CLK); c = c + 1; end' % cycles)
        tb.append('repeat(4) @(posedge CLK); if(!fin) $display("TIMEOUT");')
        tb.append('$writememh("mem.out", mem.mem);')
        for nme in insts:
            tb.append('$writememh("%s.out", dut.inst_%s.mem);' % (nme, nme))
        tb.append('$finish; end endmodule')
        with open(os.path.join(d, 't.v'), 'w') as fh:
            fh.write(TB + '\n'.join(tb) + '\n' + text)
        r = subprocess.run(['iverilog', '-g2005', '-o', 'a.out', '-s', 'tb', 't.v'], cwd=d, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise RuntimeError('iverilog: ' + r.stderr[:800])
        r = subprocess.run(['vvp', '-n', 'a.out'], cwd=d, capture_output=True, text=True, timeout=300)
        log = [l for l in r.stdout.split('\n') if l[:2] in ('AW', 'AR', 'W ', 'BA', 'TI', 'RD')]

        def rd(fn):
            out = []
            for l in open(os.path.join(d, fn)):
                l = l.strip()
                if l and not l.startswith(('//', '@')):
                    out += [None if 'x' in v else int(v, 16) for v in l.split()]
            return out
        return log, rd('mem.out'), {n: rd(n + '.out') for n in insts}, init, text
    finally:
        shutil.rmtree(d, True)


def model_dma(adw, rspec, ops, seed, init, aw=10, insts=None):
    """what the operations should do to the AXI memory and to the RAM words"""
    NB = 1 << 17
    By = adw // 8
    mem = [hash8(i, seed) for i in range(NB)]
    ram = {k: list(v) for k, v in init.items()}
    names = list(insts)
    dw = rspec[1]
    nest = rspec[3] if rspec[0] == 'nest' else 0
    req = []
    val = lambda a: a[1] if isinstance(a, tuple) else a
    mask = (1 << aw) - 1
    nb = rspec[2] if rspec[0] == 'bank' else 1
    base = 0
    reads = []

    def getb(a, bits):
        return sum(mem[(a + i) % NB] << (8 * i) for i in range(bits // 8))

    def putb(a, v, bits):
        for i in range(bits // 8):
            mem[(a + i) % NB] = (v >> (8 * i)) & 255
    for op in ops:
        k, args = op[0], [val(a) for a in op[1:]]
        if k == 'set_global_base_addr':
            base = args[0]
            continue
        if k.startswith('dma_wait'):
            continue
        if k == 'read':
            reads.append(getb(base + args[0], adw))
            continue
        if k == 'write':
            putb(base + args[0], args[1], adw)
            continue
        d = 'r' if '_read' in k else 'w'
        k = k.replace('_async', '').replace('dma_read', '').replace('dma_write', '')
        if k == '_bank':
            bank, la, ga, n = args[:4]
            st = args[4] if len(args) > 4 else 1
            place = [[(bank, la + i * st)] for i in range(n)]
        elif k == '_block':
            la, ga, n, bs = args[:4]
            if nest:
                # blocks go round the outer banks, words of a block over the inner banks
                outer, inner = rspec[2], nest
                place, cnt = [], [la // inner] * outer
                for i in range(n):
                    b = (i // bs) % outer
                    place.append([(b * inner + i % inner, cnt[b])])
                    if i % inner == inner - 1:
                        cnt[b] += 1
                nb = 1
            st = args[4] if len(args) > 4 else 1
            if not nest:
                place, cnt = [], [la] * nb
                for i in range(n):
                    b = (i // bs) % nb
                    place.append([(b, cnt[b])])
                    cnt[b] += st
        elif k == '_packed':
            la, ga, n = args[:3]
            assert la % nb == 0 and n % nb == 0
            place = [[(i % nb, la // nb + i // nb)] for i in range(n)]
        elif k == '_bcast':
            la, ga, n = args[:3]
            st = args[3] if len(args) > 3 else 1
            place = [[(b, la + i * st) for b in range(nb)] for i in range(n)]
        else:
            la, ga, n = args[:3]
            st = args[3] if len(args) > 3 else 1
            if nb == 1:
                place = [[(0, la + i * st)] for i in range(n)]
            else:
                place = [[((la + i * st) % nb, (la + i * st) // nb)] for i in range(n)]
        a0 = (base + ga) // By * By
        nbeat = -(-n * dw // adw)
        req.append((d, a0, nbeat))
        for i in range(n):
            for b, a in place[i]:
                if d == 'r':
                    ram[names[b]][a & mask] = getb(a0 + i * dw // 8, dw)
                else:
                    putb(a0 + i * dw // 8, ram[names[b]][a & mask], dw)
    return mem, ram, req, reads


def judge(adw, rspec, ops, seed, stall, aw=10, **axk):
    """None, or what is wrong"""
    log, mem, ram, init, text = run_dma(adw, rspec, ops, seed, stall, aw, **axk)
    emem, eram, req, reads = model_dma(adw, rspec, ops, seed, init, aw, list(ram))
    By = adw // 8
    if any(l.startswith('TIMEOUT') for l in log):
        return 'the program does not finish', text
    if any(l.startswith('BADLAST') for l in log):
        return 'wlast does not mark the last beat of a burst', text
    singles = {'r': [], 'w': []}
    for d, tag, one in (('r', 'AR', 'read'), ('w', 'AW', 'write')):
        got = [(int(l.split()[1]), int(l.split()[2]) + 1) for l in log if l.startswith(tag)]
        want = []
        ri = [q for q in req if q[0] == d]
        # single accesses are requests of one beat
        seq, base, k = [], 0, 0
        for op in ops:
            if op[0] == 'set_global_base_addr':
                base = op[1]
            elif op[0] == one:
                seq.append((base + op[1], 1))
            elif op[0].startswith('dma_' + one):
                seq.append(ri[k][1:])
                k += 1
        g = list(got)
        for a, n in seq:
            left, at = n, a
            while left > 0:
                if not g:
                    return '%s: missing request for address %d (%d beats left)' % (tag, at, left), text
                ga, gn = g.pop(0)
                if ga != at:
                    return '%s: request at %d, expected %d' % (tag, ga, at), text
                if not 1 <= gn <= 256 or ga // 4096 != (ga + gn * By - 1) // 4096:
                    return '%s: burst at %d of %d beats crosses a 4KB boundary or is too long' % (tag, ga, gn), text
                if gn > left:
                    return '%s: burst at %d of %d beats exceeds the %d left' % (tag, ga, gn, left), text
                left -= gn
                at += gn * By
        if g:
            return '%s: extra request %r' % (tag, g[0]), text
    rds = [int(l.split()[1], 16) for l in log if l.startswith('RD')]
    if rds != reads:
        return 'values read %r, expected %r' % (rds, reads), text
    over = any('write' in op[0] for op in ops) and rspec[1] < adw
    for i, (a, b) in enumerate(zip(mem, emem)):
        if a != b:
            return 'AXI memory byte %d is %r, expected %r' % (i, a, b), text
    for k in ram:
        for i, (a, b) in enumerate(zip(ram[k], eram[k])):
            if a != b:
                return 'RAM %s word %d is %r, expected %r' % (k, i, a, b), text
    return None


def gen_ops(rng, adw, rspec, kinds, count=4):
    By = adw // 8
    dw = rspec[1]
    nb = rspec[2] if rspec[0] == 'bank' else 1
    q = max(1, adw // dw)
    q = q * nb // math.gcd(q, nb)
    ops = []
    lo = 0
    for i in range(count):
        k = rng.choice(kinds)
        if k in ('read', 'write'):
            a = rng.randrange(0x3000) // By * By
            ops.append((k, a) if k == 'read' else (k, a, rng.getrandbits(adw)))
            continue
        n = rng.choice([1, 2, 3, 5, 17, 64, 100, 255, 256, 257, 300]) * q
        n = min(n, 320 // nb // q * q) or q
        ga = rng.choice([0, 4096 - By, 4096 - By * rng.randrange(1, 40), 8192 - dw // 8 * n, rng.randrange(0x4000), rng.randrange(0x4000)])
        ga = max(0, ga)
        la = rng.randrange(200)
        st = rng.choice([1, 1, 2, 3])
        regs = rng.random() < 0.6
        R = lambda v, w=33: ('reg', v, w) if regs else v
        if 'bank' in k:
            ops.append((k, rng.randrange(nb), R(la, 32), R(ga, 32), R(n), st))
        elif 'block' in k and rspec[0] == 'nest':
            inner = rspec[3]
            bs = rng.choice([1, 2, 3]) * inner
            n = rng.choice([1, 2, 5, 9]) * bs * rspec[2]
            ops.append((k, R(la // inner * inner, 32), R(ga, 32), R(n), R(bs, 32) if rng.random() < 0.5 else bs))
        elif 'block' in k:
            bs = rng.choice([1, 2, 4, 7])
            ops.append((k, R(la, 32), R(ga, 32), R(n), bs, st))
        elif 'packed' in k:
            ops.append((k, R(la // nb * nb, 32), R(ga, 32), R(n)))
        elif 'bcast' in k:
            ops.append((k, R(la, 32), R(ga, 32), R(n), st))
        else:
            ops.append((k, R(la, 32), R(ga, 32), R(n), st if nb == 1 else 1))
        if 'async' in k:
            ops.append(('dma_wait',))
    return ops


PLAIN = ['dma_read', 'dma_write', 'dma_read_async', 'dma_write_async']


def u_e2e(rec, adw, rspec, kinds, runs=4, base=False):
    rec.function('AXIM.read', 'AXIM.write', *['AXIM.' + k for k in kinds])
    n = 0
    for r in range(runs if not rec.thorough else runs * 8):
        rng = random.Random('%s %s %s %s %s' % (rec.seed, adw, rspec, kinds[0], r))
        ops = gen_ops(rng, adw, rspec, kinds)
        axk = {}
        if base:
            ops = [('set_global_base_addr', 4096 * rng.randrange(4) + adw // 8 * rng.randrange(9))] + ops
            axk['use_global_base_addr'] = True
        bad = judge(adw, rspec, ops, rng.randrange(1 << 30), rng.randrange(3), **axk)
        n += 1
        if bad:
            rec.concrete('end to end %s' % (kinds[0]), dict(kind='dma simulation (iverilog)', what=bad[0], axi_datawidth=adw, ram=rspec,
                         operations=ops, seed=r))
            break
    rec.ran('DMA end to end %s on %s' % (kinds, rspec), 'random programs of up to 5 operations, AXI memory with random stalls, iverilog', n)


def s_e2e(adw, rdw, d, base=False):
    def search(rec):
        ks = [k for k in PLAIN if ('_read' in k) == (d == 'r')] if d else PLAIN
        for r in range(10):
            rng = random.Random('s%s %s' % (rec.seed, r))
            ops = gen_ops(rng, adw, ('ram', rdw), ks)
            axk = {}
            if base:
                ops = [('set_global_base_addr', 4096 * rng.randrange(4) + adw // 8 * rng.randrange(9))] + ops
                axk['use_global_base_addr'] = True
            bad = judge(adw, ('ram', rdw), ops, r + 1, r % 3, **axk)
            if bad:
                rec.concrete('end to end', dict(kind='dma simulation (iverilog)', what=bad[0], axi_datawidth=adw, ram=('ram', rdw), operations=ops, seed=r + 1))
                return
    return search


def units(tier, seed):
    U = []

    def add(nm, f, *args, **kw):
        U.append(Unit('%s %s' % (nm, ' '.join(str(a) for a in args)), lambda rec: f(rec, *args), timeout=kw.get('timeout', 600),
                      search=kw.get('search')))
    for d in 'rw':
        for adw, rdw in ((32, 32), (8, 8), (64, 64), (512, 512), (32, 64), (64, 32), (32, 128), (128, 32), (8, 32), (32, 8), (32, 96)):
            add('request', u_req, adw, rdw, d, search=s_e2e(adw, rdw, d))
        add('request', u_req, 32, 32, d, True, search=s_e2e(32, 32, d, True))
    for adw, rdws in ((32, (32,)), (32, (64,)), (64, (32,)), (32, (128,)), (128, (32,)), (8, (32,)), (32, (8,)), (32, (96,)), (32, (32, 32)), (32, (32, 64, 16))):
        add('read data', u_read, adw, rdws, search=s_e2e(adw, rdws[-1], 'r'))
        add('write data', u_write, adw, rdws, search=s_e2e(adw, rdws[-1], 'w'))
    for adw, dw in ((32, 32), (64, 32), (32, 64), (8, 16), (128, 32)):
        add('end to end', u_e2e, adw, ('ram', dw), PLAIN + ['read', 'write'])
    add('end to end base', u_e2e, 32, ('ram', 32), PLAIN + ['read', 'write'], 4, True)
    for adw, dw, nb in ((32, 32, 2), (32, 32, 4), (64, 32, 2), (32, 16, 4)):
        for kinds in (['dma_read_bank', 'dma_write_bank'], ['dma_read_block', 'dma_write_block'], ['dma_read_packed', 'dma_write_packed'],
                      ['dma_read_bcast', 'dma_write_bank'], ['dma_read', 'dma_write']):
            add('end to end', u_e2e, adw, ('bank', dw, nb), kinds, 2)
        for kinds in (['dma_read_bank', 'dma_read_block', 'dma_read_packed', 'dma_read_bcast'], ['dma_write_packed', 'dma_write_bank', 'dma_write_block']):
            add('end to end', u_e2e, adw, ('bank', dw, nb), kinds, 4)
    for spec in (('nest', 32, 2, 2), ('nest', 16, 2, 4)):
        add('end to end', u_e2e, 32, spec, ['dma_read_block', 'dma_write_block'], 3)
    add('end to end', u_e2e, 32, ('ram', 96), PLAIN, 3)
    return U


if __name__ == '__main__':
    main('C12', units, trusted=['lib/vsem.py (Verilog semantics)', 'z3', 'pyverilog parser'],
         assumptions=['the transfer size is at least 1 and the transfer does not wrap around the address space',
                      'FIFO, RAM burst and channel behaviour as proved by C09, C10 and C11 (their contracts are used, not their bodies)',
                      'composition over bursts (the sum of the burst lengths of a transfer is its length) is by the inductive ghost "rest", pen and paper above the step contracts',
                      'the AXI slave follows the protocol (it answers each request with exactly arlen+1 beats)'])
