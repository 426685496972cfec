"""C09: the generated FIFO is a bounded queue."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import collections
import z3
from prove import Unit, main
from rtl import *
import vsem


def core_text(dw, aw, sync):
    import veriloggen.types.fifo as fifo
    return fifo.mkFifoDefinition('f', dw, aw, sync=sync).to_verilog()


class QModel(object):
    """Reference queue for the bounded search."""

    def __init__(self, aw, sync, names):
        self.cap = 2 ** aw - 1
        self.sync = sync
        self.n = names
        self.q = collections.deque()
        self.rdata = 0
        self.known = False

    def outputs(self, st):
        n = self.n
        c = len(self.q)
        o = {n['empty']: int(c == 0), n['full']: int(c == self.cap),
             n['almost_empty']: int(c <= 1), n['almost_full']: int(c >= self.cap - 1)}
        if not self.known:
            return {}
        if self.sync:
            o[n['rdata']] = self.rdata
        elif c:
            o[n['rdata']] = self.q[0]
        if n.get('count'):
            o[n['count']] = c
        return o

    def step(self, st):
        n = self.n
        if st['RST']:
            self.q.clear()
            self.rdata = 0
            self.known = True
            return
        e = st[n['enq']] and len(self.q) < self.cap
        d = st[n['deq']] and len(self.q) > 0
        if d:
            self.rdata = self.q.popleft()
        if e:
            self.q.append(st[n['wdata']])


def fifo_gen(names, dw):
    def gen(rng, c, D):
        phase = (c // 37) % 4
        pe = [0.5, 0.9, 0.2, 1.0][phase]
        pd = [0.5, 0.2, 0.9, 0.95][phase]
        return {'RST': 1 if c == 0 or rng.random() < 0.003 else 0, names['enq']: int(rng.random() < pe),
                names['deq']: int(rng.random() < pd), names['wdata']: rng.getrandbits(dw)}
    return gen


NAMES = dict(enq='f_enq', wdata='f_wdata', full='f_full', almost_full='f_almost_full', deq='f_deq',
             rdata='f_rdata', empty='f_empty', almost_empty='f_almost_empty')


def view(s, aw, pre=''):
    """Abstract view of a circular buffer: count and i-th element."""
    head, tail, mem = s[pre + 'head'], s[pre + 'tail'], s[pre + 'mem']
    cnt = head - tail

    def elem(i):
        return z3.Select(mem, tail + i)
    return cnt, elem


class View(object):
    def __init__(self, st, aw, pre):
        self.head, self.tail, self.mem = st[pre + 'head'], st[pre + 'tail'], st[pre + 'mem']
        self.count = self.head - self.tail

    def elem(self, i):
        return z3.Select(self.mem, self.tail + i)


def queue_contract(rec, D, s, names, aw, dw, sync, pre='', hyps=(), label='', enq=None, deq=None, wdata=None):
    """The step contract of the FIFO, over its abstract view."""
    W = aw
    cap = bv(2 ** aw - 1, W)
    v = View(s.state, aw, pre)
    vn = View(s.next, aw, pre)
    enq = s.t(names['enq']) if enq is None else enq
    deq = s.t(names['deq']) if deq is None else deq
    wd = s[names['wdata']] if wdata is None else wdata
    rst = s.t('RST')
    full, empty = v.count == cap, v.count == bv(0, W)
    accE, accD = z3.And(enq, z3.Not(full)), z3.And(deq, z3.Not(empty))
    H = list(hyps)
    T = lambda n: s.t(names[n])
    rec.prove(label + 'empty flag == (count = 0)', T('empty') == empty, H)
    rec.prove(label + 'full flag == (count = capacity)', T('full') == full, H)
    rec.prove(label + 'almost_empty flag == (count <= 1)', T('almost_empty') == z3.ULE(v.count, bv(1, W)), H)
    rec.prove(label + 'almost_full flag == (count >= capacity-1)',
              T('almost_full') == z3.UGE(v.count, bv(2 ** aw - 2, W)), H)
    one = lambda b: z3.If(b, bv(1, W), bv(0, W))
    rec.prove(label + 'reset empties the queue', vn.count == bv(0, W), H + [rst])
    H = H + [z3.Not(rst)]
    rec.prove(label + 'count changes by accepted enq minus accepted deq',
              vn.count == v.count + one(accE) - one(accD), H)
    i = z3.BitVec('i', W)
    i2 = i + one(accD)
    rec.prove(label + 'frame: remaining elements keep value and order',
              vn.elem(i) == z3.If(i2 == v.count, wd, v.elem(i2)),
              H + [z3.ULT(i, vn.count)])
    if sync:
        rec.prove(label + 'accepted deq delivers the oldest element one cycle later; otherwise output holds',
                  s.after()[names['rdata']] == z3.If(accD, v.elem(bv(0, W)), s[names['rdata']]), H)
    else:
        rec.prove(label + 'output shows the oldest element',
                  s[names['rdata']] == v.elem(bv(0, W)), list(hyps) + [z3.Not(empty)])


def u_core(rec, dw, aw, sync):
    rec.function('types.fifo.mkFifoDefinition', 'types.fifo.FifoWriteInterface.__init__',
                 'types.fifo.FifoReadInterface.__init__')
    text = core_text(dw, aw, sync)
    rec.text = text
    D = Design(text, 'f')
    s = Sym(D)
    rec.cover('a non-empty, non-full queue exists', [View(s.state, aw, '').count != 0] if aw > 1 else [View(s.state, aw, '').count == 1])
    queue_contract(rec, D, s, NAMES, aw, dw, sync)
    if rec.thorough:
        bad = crosscheck(text, 'f', 200, rec.seed)
        rec.holds('vsem agrees with iverilog', not bad, str(bad[:3]))


def s_core(rec, dw, aw, sync):
    c = history_search(core_text(dw, aw, sync), 'f', lambda: QModel(aw, sync, NAMES), fifo_gen(NAMES, dw),
                       cycles=60 + 8 * 2 ** min(aw, 7), runs=6, seed=rec.seed)
    if c:
        c['call'] = "veriloggen.types.fifo.mkFifoDefinition('f', %d, %d, sync=%r)" % (dw, aw, sync)
        rec.concrete('bounded queue search', c)


def wrap_module(dw, aw, sync):
    """thread.FIFO driven at its native ports (external on both sides)."""
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    f = vthread.FIFO(m, 'f', clk, rst, dw, aw, sync=sync, external_write=True, external_read=True)
    m.Output('count_o', aw + 1).assign(f.count)
    m.Output('space_o', aw + 1).assign(f.space)
    for k in (1, 2, 3):
        m.Output('has%d' % k).assign(f.has_space(k))
    return m.to_verilog()


def u_wrap(rec, dw, aw, sync):
    rec.function('thread.fifo.FIFO.__init__', 'thread.fifo.FIFO.count', 'thread.fifo.FIFO.space',
                 'thread.fifo.FIFO.has_space')
    text = wrap_module(dw, aw, sync)
    D = Design(text, 'top')
    s = Sym(D)
    pre = 'inst_f.'
    v = View(s.state, aw, pre)
    inv = s['count_f'] == z3.ZeroExt(1, v.count)
    rec.cover('invariant satisfiable', [inv, v.count == bv(2 ** aw - 1, aw)])
    queue_contract(rec, D, s, NAMES, aw, dw, sync, pre=pre, hyps=[inv])
    vn = View(s.next, aw, pre)
    rec.prove('occupancy register equals the number of stored elements after reset', s.next['count_f'] == 0, [s.t('RST')])
    rec.prove('occupancy register equals the number of stored elements (inductive)',
              s.next['count_f'] == z3.ZeroExt(1, vn.count), [inv, z3.Not(s.t('RST'))])
    W = aw + 1
    rec.prove('count property', s['count_o'] == z3.ZeroExt(1, v.count), [inv])
    rec.prove('space property', s['space_o'] == bv(2 ** aw - 1, W) - z3.ZeroExt(1, v.count), [inv])
    for k in (1, 2, 3):
        free = bv(2 ** aw - 1, W + 3) - z3.ZeroExt(4, v.count)
        rec.prove('has_space(%d) is never claimed without that much space' % k,
                  z3.Implies(s.t('has%d' % k), free >= k), [inv])
        rec.prove('has_space(%d) holds when more than that is free' % k,
                  z3.Implies(free > k, s.t('has%d' % k)), [inv])


def s_wrap(rec, dw, aw, sync):
    names = dict(NAMES, count='count_o')
    c = history_search(wrap_module(dw, aw, sync), 'top', lambda: QModel(aw, sync, names), fifo_gen(names, dw),
                       cycles=60 + 8 * 2 ** min(aw, 7), runs=6, seed=rec.seed)
    if c:
        c['call'] = "thread.FIFO(m, 'f', clk, rst, %d, %d, sync=%r)" % (dw, aw, sync)
        rec.concrete('bounded queue search', c)


def rtl_module(dw, aw, sync, nw=2, nr=2):
    """enq_rtl / deq_rtl called from nw and nr places."""
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    f = vthread.FIFO(m, 'f', clk, rst, dw, aw, sync=sync)
    for i in range(nw):
        c = m.Input('wc%d' % i)
        d = m.Input('wd%d' % i, dw)
        ack, ready = f.enq_rtl(d, cond=c)
        m.Output('wready%d' % i).assign(ready)
        m.Output('wack%d' % i).assign(ack)
    for i in range(nr):
        c = m.Input('rc%d' % i)
        d, v, r = f.deq_rtl(cond=c)
        m.Output('rdata%d' % i, dw).assign(d)
        m.Output('rvalid%d' % i).assign(v)
        m.Output('rready%d' % i).assign(r)
    f.seq.make_always()
    return m.to_verilog()


def u_rtl(rec, dw, aw, sync):
    rec.function('thread.fifo.FIFO.enq_rtl', 'thread.fifo.FIFO.deq_rtl', 'types.util.add_mux',
                 'types.util.add_enable_cond')
    text = rtl_module(dw, aw, sync)
    D = Design(text, 'top')
    s = Sym(D)
    pre = 'inst_f.'
    v = View(s.state, aw, pre)
    vn = View(s.next, aw, pre)
    inv = s['count_f'] == z3.ZeroExt(1, v.count)
    T = s.t
    room = z3.ULT(v.count, bv(2 ** aw - 2, aw))
    H = [z3.Not(T('RST')), z3.Not(z3.And(T('wc0'), T('wc1'))), z3.Not(z3.And(T('rc0'), T('rc1')))]
    rec.cover('hyps', H + ([room] if aw > 1 else []))
    anyw = z3.Or(T('wc0'), T('wc1'))
    anyr = z3.Or(T('rc0'), T('rc1'))
    wd = z3.If(T('wc0'), s['wd0'], s['wd1'])
    one = lambda b: z3.If(b, bv(1, aw), bv(0, aw))
    accE = z3.And(anyw, room)
    accD = z3.And(anyr, v.count != 0)
    for i in (0, 1):
        rec.prove('enq_rtl %d: ready == room' % i, T('wready%d' % i) == room, H)
        rec.prove('deq_rtl %d: ready == not empty' % i, T('rready%d' % i) == (v.count != 0), H)
    rec.prove('count follows accepted requests', vn.count == v.count + one(accE) - one(accD), H)
    i = z3.BitVec('i', aw)
    i2 = i + one(accD)
    rec.prove('elements: the requesting caller\'s data is appended, the rest is kept',
              vn.elem(i) == z3.If(i2 == v.count, wd, v.elem(i2)), H + [z3.ULT(i, vn.count)])
    a = s.after()
    for k in (0, 1):
        acc = z3.And(T('rc%d' % k), v.count != 0)
        if sync:
            rec.prove('deq_rtl %d: valid one cycle after an accepted request' % k, a.t('rvalid%d' % k) == acc, H)
            rec.prove('deq_rtl %d: valid data is the oldest element' % k,
                      a['rdata%d' % k] == v.elem(bv(0, aw)), H + [acc])
        else:
            rec.prove('deq_rtl %d: valid with an accepted request' % k, T('rvalid%d' % k) == acc, H)
            rec.prove('deq_rtl %d: valid data is the oldest element' % k,
                      s['rdata%d' % k] == v.elem(bv(0, aw)), H + [acc])
        rec.prove('enq_rtl %d: ack is the previous cycle\'s readiness' % k, a.t('wack%d' % k) == room, H)
    rec.prove('occupancy register (inductive)', s.next['count_f'] == z3.ZeroExt(1, vn.count), H + [inv])


class RtlModel(object):
    def __init__(self, aw, sync, nw=2, nr=2):
        self.cap = 2 ** aw - 1
        self.sync = sync
        self.q = collections.deque()
        self.last = None
        self.known = False

    def outputs(self, st):
        if not self.known:
            return {}
        room = len(self.q) < self.cap - 1
        o = {}
        for k in (0, 1):
            o['wready%d' % k] = int(room)
            o['rready%d' % k] = int(bool(self.q))
            if self.sync:
                if self.last is not None:
                    o['rvalid%d' % k] = self.last[0][k]
                    if self.last[0][k]:
                        o['rdata%d' % k] = self.last[1]
            else:
                o['rvalid%d' % k] = int(bool(st['rc%d' % k] and self.q))
                if o['rvalid%d' % k]:
                    o['rdata%d' % k] = self.q[0]
            if self.last is not None:
                o['wack%d' % k] = self.last[2]
        return o

    def step(self, st):
        if st['RST']:
            self.q.clear()
            self.known = True
            self.last = None
            return
        room = len(self.q) < self.cap - 1
        front = self.q[0] if self.q else 0
        acc = [int(bool(st['rc%d' % k] and self.q)) for k in (0, 1)]
        if any(acc):
            self.q.popleft()
        if room:
            for k in (0, 1):
                if st['wc%d' % k]:
                    self.q.append(st['wd%d' % k])
        self.last = (acc, front, int(room))


def s_rtl(rec, dw, aw, sync):
    def gen(rng, c, D):
        w = rng.choice([(0, 0), (1, 0), (0, 1)])
        r = rng.choice([(0, 0), (1, 0), (0, 1)])
        if (c // 23) % 3 == 1:
            r = (0, 0)
        return dict(RST=1 if c == 0 else 0, wc0=w[0], wc1=w[1], rc0=r[0], rc1=r[1],
                    wd0=rng.getrandbits(dw), wd1=rng.getrandbits(dw))
    c = history_search(rtl_module(dw, aw, sync), 'top', lambda: RtlModel(aw, sync), gen, cycles=200, runs=6, seed=rec.seed)
    if c:
        c['call'] = 'thread.FIFO.enq_rtl / deq_rtl, datawidth=%d addrwidth=%d sync=%r' % (dw, aw, sync)
        rec.concrete('bounded search', c)


def fsm_module(dw, aw, sync, op):
    """A producer FSM enqueues the free input x for ever; a consumer dequeues."""
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    x = m.Input('x', dw)
    go, god = m.Input('go'), m.Input('god')
    f = vthread.FIFO(m, 'f', clk, rst, dw, aw, sync=sync)
    p = vg.FSM(m, 'p', clk, rst)
    p.If(go).goto_next()
    s0 = p.current
    got = m.OutputReg('enq_result', initval=0)
    r = f.enq(p, x) if op == 'plain' else f.try_enq(p, x)
    if op != 'plain':
        p(got(r))
    p.goto_init()
    q = vg.FSM(m, 'q', clk, rst)
    q.If(god).goto_next()
    q0 = q.current
    out = m.OutputReg('deq_result', dw, initval=0)
    outv = m.OutputReg('deq_valid', initval=0)
    if op == 'plain':
        r = f.deq(q)
        q(out(r))
    else:
        r, v = f.try_deq(q)
        q(out(r), outv(v))
    q1 = q.current
    q.goto_init()
    info = dict(ps=s0, qs=q0, qend=q1)
    return m.to_verilog(), info


def u_fsm(rec, dw, aw, sync, op):
    """Contract of the blocking and non-blocking thread operations, proved by
    symbolic execution from the operation's first state with an arbitrary FIFO."""
    rec.function(*['thread.fifo.FIFO.' + n for n in (('enq', 'deq') if op == 'plain' else ('try_enq', 'try_deq'))])
    text, info = fsm_module(dw, aw, sync, op)
    D = Design(text, 'top')
    s = Sym(D, fix={'RST': 0})
    pre = 'inst_f.'
    v, vn = View(s.state, aw, pre), View(s.next, aw, pre)
    inp = s['p'] == bv(info['ps'], 32)
    inq = s['q'] == bv(info['qs'], 32)
    room = z3.ULT(v.count, bv(2 ** aw - 2, aw))
    some = v.count != 0
    one = lambda b: z3.If(b, bv(1, aw), bv(0, aw))
    accE, accD = z3.And(inp, room), z3.And(inq, some)
    if aw > 1:
        rec.cover('both accepted', [accE, accD])
    rec.prove('an element is appended exactly in the enq state when there is room; removed exactly in the deq state when there is one',
              vn.count == v.count + one(accE) - one(accD), [])
    i = z3.BitVec('i', aw)
    i2 = i + one(accD)
    rec.prove('contents follow', vn.elem(i) == z3.If(i2 == v.count, s['x'], v.elem(i2)), [z3.ULT(i, vn.count)])
    if op == 'plain':
        rec.prove('enq waits exactly while there is no room', (s.next['p'] == s['p']) == z3.Not(room), [inp])
        rec.prove('deq waits exactly while empty', (s.next['q'] == s['q']) == z3.Not(some), [inq])
    # run the consumer to its end
    cur = s
    n = 3 if sync else 2
    hyp = [inq]
    if op == 'plain':
        hyp.append(some)
    for k in range(n):
        cur = cur.after('_%d' % k, fix={'RST': 0})
    rec.prove('the dequeuing thread obtains the oldest element', z3.Implies(some, cur['deq_result'] == v.elem(bv(0, aw))), hyp)
    if op != 'plain':
        rec.prove('try_deq reports whether an element was obtained', (cur['deq_valid'] == 1) == some, [inq])
        cp = s
        for k in range(3):
            cp = cp.after('_%d' % k, fix={'RST': 0})
        rec.prove('try_enq reports whether the element was stored', (cp['enq_result'] == 1) == room, [inp])


def side_module(dw, aw, sync, cls, side, mode):
    """one side driven at its native ports (external ports or connect_*_rtl), the
    other by the rtl methods; the status intrinsics are read out"""
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    C = getattr(vthread, cls)
    kw = dict(point=2) if cls == 'FixedFIFO' else {}
    if mode == 'external':
        f = C(m, 'f', clk, rst, dw, aw, sync=sync, external_write=side == 'write', external_read=side == 'read', **kw)
    else:
        f = C(m, 'f', clk, rst, dw, aw, sync=sync, **kw)
        if side == 'write':
            i, d, fu, af = m.Input('f_enq_'), m.Input('f_wdata_', dw), m.Output('f_full_'), m.Output('f_almost_full_')
            f.connect_enq_rtl(i, d, fu, af)
        else:
            i, d, em, ae = m.Input('f_deq_'), m.Output('f_rdata_', dw), m.Output('f_empty_'), m.Output('f_almost_empty_')
            f.connect_deq_rtl(i, d, em, ae)
    if side == 'write':
        r = f.deq_rtl(cond=m.Input('c'))
        m.Output('odata', dw).assign(r[0])
        m.Output('ovalid').assign(r[1])
    else:
        r = f.enq_rtl(m.Input('d', dw), cond=m.Input('c'))
    fsm = vg.FSM(m, 'fsm', clk, rst)
    for n in ('is_empty', 'is_almost_empty', 'is_full', 'is_almost_full'):
        m.Output(n + '_o').assign(getattr(f, n)(fsm))
    m.Output('pd', dw).assign(f.rdata)
    for n in ('empty', 'almost_empty', 'full', 'almost_full'):
        m.Output(n + '_p').assign(getattr(f, n))
    return m.to_verilog()


def u_side(rec, dw, aw, sync, cls, side, mode):
    rec.function('thread.fifo.%s.__init__' % cls, 'thread.fifo.FIFO.connect_enq_rtl', 'thread.fifo.FIFO.connect_deq_rtl',
                 'thread.fifo.FIFO.is_empty', 'thread.fifo.FIFO.is_almost_empty', 'thread.fifo.FIFO.is_full', 'thread.fifo.FIFO.is_almost_full')
    text = side_module(dw, aw, sync, cls, side, mode)
    conc = dict(kind='module', call='%s %s side=%s mode=%s' % (cls, (dw, aw, sync), side, mode), emitted=text)
    D = Design(text, 'top')
    u = '_' if mode != 'external' else ''
    want = dict(write=(['f_enq' + u, 'f_wdata' + u], ['f_full' + u, 'f_almost_full' + u]), read=(['f_deq' + u], ['f_rdata' + u, 'f_empty' + u, 'f_almost_empty' + u]))[side]
    if not rec.holds('the %s side, and only it, is reachable from outside' % side,
                     set(want[0]) <= set(D.iports) and set(want[1]) <= set(D.oports) and not [n for n in D.iports if n.startswith('f_') and n not in want[0]],
                     str((D.iports, D.oports)), conc):
        return
    s = Sym(D)
    pre = 'inst_f.'
    v, vn = View(s.state, aw, pre), View(s.next, aw, pre)
    T = s.t
    H = [z3.Not(T('RST'))]
    if side == 'write':
        enq, wd, room = T('f_enq' + u), s['f_wdata' + u], v.count != bv(2 ** aw - 1, aw)
        deq = T('c')
    else:
        enq, wd, room = T('c'), s['d'], z3.ULT(v.count, bv(2 ** aw - 2, aw))
        deq = T('f_deq' + u)
    one = lambda b: z3.If(b, bv(1, aw), bv(0, aw))
    accE, accD = z3.And(enq, room), z3.And(deq, v.count != 0)
    rec.prove('count follows accepted requests', vn.count == v.count + one(accE) - one(accD), H)
    i = z3.BitVec('i', aw)
    i2 = i + one(accD)
    rec.prove('contents follow', vn.elem(i) == z3.If(i2 == v.count, wd, v.elem(i2)), H + [z3.ULT(i, vn.count)])
    a = s.after()
    e0 = v.elem(bv(0, aw))
    if side == 'write':
        if sync:
            rec.prove('delivered: the oldest element', z3.And(a.t('ovalid') == accD, z3.Implies(accD, a['odata'] == e0)), H)
        else:
            rec.prove('delivered: the oldest element', z3.And(T('ovalid') == accD, z3.Implies(accD, s['odata'] == e0)), H)
        rec.prove('native flags', z3.And(T('f_full' + u) == (v.count == bv(2 ** aw - 1, aw)), T('f_almost_full' + u) == z3.UGE(v.count, bv(2 ** aw - 2, aw))))
    else:
        rec.prove('delivered: the oldest element', z3.Implies(accD, a['f_rdata' + u] == e0) if sync else z3.Implies(v.count != 0, s['f_rdata' + u] == e0), H)
        rec.prove('native flags', z3.And(T('f_empty' + u) == (v.count == 0), T('f_almost_empty' + u) == z3.ULE(v.count, bv(1, aw))))
    flags = dict(empty=v.count == 0, almost_empty=z3.ULE(v.count, bv(1, aw)), full=v.count == bv(2 ** aw - 1, aw), almost_full=z3.UGE(v.count, bv(2 ** aw - 2, aw)))
    for n in flags:
        rec.prove('the thread operation is_%s reports the queue state' % n, T('is_%s_o' % n) == flags[n])
        rec.prove('the attribute %s reports the queue state' % n, T('%s_p' % n) == flags[n])


class SideModel(object):
    def __init__(self, aw, sync, side, u):
        self.cap, self.sync, self.side, self.u = 2 ** aw - 1, sync, side, u
        self.q, self.known, self.last = collections.deque(), False, None

    def outputs(self, st):
        if not self.known:
            return {}
        n = len(self.q)
        o = dict(empty=n == 0, almost_empty=n <= 1, full=n == self.cap, almost_full=n >= self.cap - 1)
        r = {}
        for k in ('full', 'almost_full') if self.side == 'write' else ('empty', 'almost_empty'):
            r['f_' + k + self.u] = int(o[k])
        for k in o:
            r['is_%s_o' % k] = r['%s_p' % k] = int(o[k])
        if self.side == 'write' and self.last is not None and self.sync:
            r['ovalid'] = int(self.last[0])
            if self.last[0]:
                r['odata'] = self.last[1]
        if self.side == 'read' and self.last is not None and self.last[0] and self.sync:
            r['f_rdata' + self.u] = self.last[1]
        return r

    def step(self, st):
        if st['RST']:
            self.q.clear()
            self.known, self.last = True, None
            return
        n = len(self.q)
        if self.side == 'write':
            e, d, room, q = st['f_enq' + self.u], st['f_wdata' + self.u], n < self.cap, st['c']
        else:
            e, d, room, q = st['c'], st['d'], n < self.cap - 1, st['f_deq' + self.u]
        self.last = (bool(q and n), self.q[0] if n else 0)
        if q and n:
            self.q.popleft()
        if e and room:
            self.q.append(d)


def s_side(rec, dw, aw, sync, cls, side, mode):
    u = '_' if mode != 'external' else ''

    def gen(rng, c, D):
        st = {n: rng.getrandbits(D.decls[n].width) for n in D.iports if n != 'CLK'}
        st['RST'] = int(c == 0)
        if (c // 30) % 3 == 1:
            st['c' if side == 'write' else 'f_deq' + u] = 0
        return st
    c = history_search(side_module(dw, aw, sync, cls, side, mode), 'top', lambda: SideModel(aw, sync, side, u), gen, cycles=200, runs=6, seed=rec.seed)
    if c:
        c['call'] = 'thread.%s side=%s mode=%s datawidth=%d addrwidth=%d sync=%r' % (cls, side, mode, dw, aw, sync)
        rec.concrete('bounded search', c)


class FsmModel(object):
    """reference for the blocking operations: order of delivered elements"""


def s_fsm(rec, dw, aw, sync, op):
    text, info = fsm_module(dw, aw, sync, op)
    D = Design(text, 'top')
    for r in range(6):
        rng = random.Random(rec.seed * 77 + r)
        s = Sim(D)
        q = collections.deque()
        stim = []
        pend = []
        cap = 2 ** aw - 1
        n = 3 if sync else 2
        for c in range(400):
            st = dict(RST=1 if c == 0 else 0, x=rng.getrandbits(dw), go=int(rng.random() < (0.9 if r % 2 else 0.4)),
                      god=int(rng.random() < (0.3 if r % 2 else 0.9)))
            stim.append(st)
            s.set(**st)
            for (when, val) in [p for p in pend if p[0] == c]:
                if s.get('deq_result') != val:
                    rec.concrete('bounded search', dict(kind='history', observe='deq_result', cycle=c, expected=val,
                                 got=s.get('deq_result'), stimulus=stim, verilog=text,
                                 call='thread.FIFO %s enq/deq datawidth=%d addrwidth=%d sync=%r' % (op, dw, aw, sync)))
                    return
            if c > 0:
                room = len(q) < cap - 1
                if s.get('q') == info['qs'] and q:
                    pend.append((c + n, q.popleft()))
                if s.get('p') == info['ps'] and room:
                    q.append(st['x'])
            s.step()
            cnt = (s.get('inst_f.head') - s.get('inst_f.tail')) % 2 ** aw
            if cnt != len(q):
                rec.concrete('bounded search', dict(kind='history', observe='stored elements', cycle=c + 1, expected=len(q), got=cnt,
                             stimulus=stim, verilog=text,
                             call='thread.FIFO %s enq/deq datawidth=%d addrwidth=%d sync=%r' % (op, dw, aw, sync)))
                return


def units(tier, seed):
    us = []
    cfgs = [(dw, aw) for aw in range(1, 11) for dw in (8,)] + [(1, 3), (32, 4), (33, 2), (64, 5), (128, 3)]
    if tier == 'thorough':
        cfgs = [(dw, aw) for aw in range(1, 17) for dw in (1, 7, 8, 16, 32, 33, 64, 128)]
    for sync in (True, False):
        for dw, aw in cfgs:
            us.append(Unit('mkFifoDefinition dw=%d aw=%d sync=%s' % (dw, aw, sync), u_core, (dw, aw, sync),
                           search=lambda r, a=(dw, aw, sync): s_core(r, *a)))
        for dw, aw in [(8, 1), (8, 2), (32, 4), (1, 3), (16, 6)]:
            us.append(Unit('thread.FIFO ports dw=%d aw=%d sync=%s' % (dw, aw, sync), u_wrap, (dw, aw, sync),
                           search=lambda r, a=(dw, aw, sync): s_wrap(r, *a)))
            us.append(Unit('thread.FIFO rtl dw=%d aw=%d sync=%s' % (dw, aw, sync), u_rtl, (dw, aw, sync),
                           search=lambda r, a=(dw, aw, sync): s_rtl(r, *a)))
        for dw, aw in [(8, 3), (16, 2)]:
            for cls in ('FIFO', 'FixedFIFO'):
                for side in ('write', 'read'):
                    for mode in ('external', 'connect'):
                        a = (dw, aw, sync, cls, side, mode)
                        us.append(Unit('%s %s side %s dw=%d aw=%d sync=%s' % (cls, side, mode, dw, aw, sync), u_side, a,
                                       search=lambda r, a=a: s_side(r, *a)))
        for dw, aw in [(8, 2), (32, 4), (5, 3)]:
            for op in ('plain', 'try'):
                us.append(Unit('thread.FIFO fsm %s dw=%d aw=%d sync=%s' % (op, dw, aw, sync), u_fsm, (dw, aw, sync, op),
                               search=lambda r, a=(dw, aw, sync, op): s_fsm(r, *a)))
    return us


TRUSTED = ['vsem (Verilog semantics, /verif/lib/vsem.py; cross-checked against iverilog)', 'pyverilog 1.3.0 parser and code generator',
           'z3', 'CPython']

if __name__ == '__main__':
    main('C09', units, TRUSTED, ['RTL values are two-state; x is modelled as an unconstrained value',
                                 'depth and width are enumerated (listed per unit); schedules, data and reachable states are unbounded'])
