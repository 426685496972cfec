"""C11: valid/ready channels neither lose nor alter a transfer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import random
import collections
import z3
from prove import Unit, main
from rtl import *
import vsem


def start():
    import veriloggen as V
    m = V.Module('top')
    return V, m, m.Input('CLK'), m.Input('RST')


# -- queues made of register slots ------------------------------------------------

def seq_contract(rec, label, x, a, slots, enq, item, deq, hyps, inv=None):
    """slots: oldest first, each f(sym) -> (valid, data).  The valid slots form a
    sequence; one cycle appends item iff enq and removes the oldest iff deq."""
    N = len(slots)

    def contents(s):
        vs = [f(s) for f in slots]
        rank, c = [], z3.BitVecVal(0, 8)
        for v, d in vs:
            rank.append(c)
            c = c + z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))

        def elem(i):
            e = vs[0][1]
            for (v, d), r in zip(vs, rank):
                e = z3.If(z3.And(v, r == i), d, e)
            return e
        return c, elem
    c0, e0 = contents(x)
    c1, e1 = contents(a)
    one = lambda b: z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    I0 = inv(x) if inv else z3.BoolVal(True)
    H = list(hyps) + [I0]
    rec.cover(label + 'a full channel', H + [c0 == N])
    if inv:
        rec.prove(label + 'slot invariant (inductive)', inv(a), H)
    rec.prove(label + 'number of items in flight changes by accepted minus delivered', c1 == c0 + one(enq) - one(deq), H)
    for i in range(N):
        rec.prove(label + 'item %d in flight after the cycle' % i,
                  z3.Implies(z3.UGT(c1, i), e1(i) == z3.If(z3.UGT(c0, i + one(deq)), e0(i + one(deq)), item)), H)
    rec.prove(label + 'the item delivered is the oldest', z3.Implies(deq, slots[0](x)[1] == e0(0)), H)
    return e0, c0


def sb_slots(D, prefix, depth, order):
    """internal slots of a chain of skid buffers, oldest (nearest the output) first"""
    def pick(part):
        c = [n for n in D.state if n.startswith(prefix + part + '_') and n[len(prefix + part) + 1:].isdigit()]
        c.sort(key=lambda n: int(n.rsplit('_', 1)[1]))
        if len(c) != depth:
            raise vsem.Unsupported('skid registers %s%s: %s' % (prefix, part, c))
        return c
    data, valid, td, tv = pick('_data'), pick('_valid'), pick('_tmp_data'), pick('_tmp_valid')
    out = []
    idx = range(depth) if order == 'out-first' else reversed(range(depth))
    pairs = []
    for i in idx:
        out.append(lambda s, i=i: (s.t(valid[i]), s[data[i]]))
        out.append(lambda s, i=i: (s.t(tv[i]), s[td[i]]))
        pairs.append((valid[i], tv[i]))

    def inv(s):
        return z3.And(*[z3.Implies(s.t(t), s.t(v)) for v, t in pairs])
    return out, inv


class QueueModel(object):
    """reference for any channel: items go in, the same items come out in order.
    in_/out_: f(get) -> (valid, ready, payload tuple)"""


def channel_search(text, top, gen, inp, outp, hold=True, cycles=400, runs=6, seed=1, drain=None, fixed=None, maxlen=None):
    """Concrete search.  inp(st, get) -> (accepted, payload); outp(st, get) ->
    (valid, ready, payload).  -> failing history or None"""
    D = Design(text, top)
    for r in range(runs):
        rng = random.Random(seed * 991 + r)
        s = Sim(D)
        q = collections.deque()
        stim, held = [], None
        for c in range(cycles):
            st = gen(rng, c, r)
            stim.append(st)
            s.set(**st)
            if c == 0:
                s.step()
                continue
            v, rd, p = outp(st, s.get)
            bad = None
            if held is not None and (not v or p != held):
                bad = 'valid or payload changed before ready: had %s, now valid=%d %s' % (held, v, p)
            acc, item = inp(st, s.get)
            if v and rd:
                if not q:
                    bad = bad or 'item %s delivered that was never accepted' % (p,)
                elif q[0] != p:
                    bad = bad or 'delivered %s, expected %s' % (p, q[0])
                else:
                    q.popleft()
            if acc:
                q.append(item)
            if maxlen is not None and len(q) > maxlen:
                bad = bad or 'an accepted item was lost (%d outstanding)' % len(q)
            held = p if v and not rd else None
            if bad:
                return dict(kind='history', what=bad, cycle=c, stimulus=stim, verilog=text, top=top)
            s.step()
    return None


# -- skid buffer ------------------------------------------------------------------

def sb_text(widths):
    V, m, clk, rst = start()
    import veriloggen.types.skidbuffer as sb
    ins = [m.Input('i%d' % k, w) if w else m.Input('i%d' % k) for k, w in enumerate(widths)]
    v, r = m.Input('s_valid'), m.Input('m_ready')
    b = sb.SkidBuffer(m, clk, rst, v, r, *ins)
    for k, w in enumerate(widths):
        (m.Output('o%d' % k, w) if w else m.Output('o%d' % k)).assign(b[k])
    m.Output('m_valid').assign(b.valid)
    m.Output('s_ready').assign(b.ready)
    return m.to_verilog()


def cat(*xs):
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def u_sb(rec, widths):
    rec.function('types.skidbuffer.SkidBuffer.__init__', 'types.skidbuffer.make_skidbuffer')
    D = Design(sb_text(widths), 'top')
    z = Sym(D, '0')
    s = z.after('', fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    n = len(widths)
    slots, inv = sb_slots(D, 'skidbuffer', 1, 'out-first')
    item = cat(*[s['i%d' % k] for k in range(n)])
    seq_contract(rec, '', s, a, slots, z3.And(s.t('s_valid'), s.t('s_ready')), item,
                 z3.And(s.t('m_valid'), s.t('m_ready')), [], inv)
    out = lambda x: cat(*[x['o%d' % k] for k in range(n)])
    rec.prove('the output is the oldest slot', z3.And(s.t('m_valid') == slots[0](s)[0], out(s) == slots[0](s)[1]))
    rec.prove('valid and payload hold until ready', z3.And(a.t('m_valid'), out(a) == out(s)), [s.t('m_valid'), z3.Not(s.t('m_ready')), inv(s)])
    rec.prove('ready while at most one item is stored', s.t('s_ready') == z3.Not(slots[1](s)[0]), [inv(s)])
    r0 = Sym(D, 'r', fix={'RST': 1}).after('r1')
    rec.prove('reset empties the buffer', z3.And(*[z3.Not(f(r0)[0]) for f in slots]))
    rec.prove('invariant after reset', inv(r0))


def s_sb(rec, widths):
    n = len(widths)

    def gen(rng, c, r):
        st = {'i%d' % k: rng.getrandbits(w or 1) for k, w in enumerate(widths)}
        st.update(RST=int(c == 0), s_valid=int(rng.random() < [0.5, 0.9, 1][r % 3]), m_ready=int(rng.random() < [0.5, 0.9, 0.3, 1][(c // 40) % 4]))
        return st
    c = channel_search(sb_text(widths), 'top', gen,
                       lambda st, g: (st['s_valid'] and g('s_ready'), tuple(st['i%d' % k] for k in range(n))),
                       lambda st, g: (g('m_valid'), st['m_ready'], tuple(g('o%d' % k) for k in range(n))), seed=rec.seed, maxlen=2)
    if c:
        c['call'] = 'SkidBuffer with field widths %s' % (widths,)
        rec.concrete('skid buffer search', c)


# -- single-slot master channels (address channels, stream out, slave read data) ----

def drv_text(kind, dw, aw, idw, uw, callers, depth=1):
    """A driver method called from `callers` places with free, exclusive conditions.
    -> text, info"""
    V, m, clk, rst = start()
    import veriloggen.types.axi as axi
    info = dict(pay=[], item=[])
    cond = [m.Input('c%d' % i) for i in range(callers)]
    ack = []
    lite = kind.startswith('lite')
    k = kind.replace('lite-', '')
    if k in ('aw', 'ar', 'w'):
        if lite:
            b = axi.AxiLiteMaster(m, 'p', clk, rst, dw, aw, sb_depth=depth)
        else:
            b = axi.AxiMaster(m, 'p', clk, rst, dw, aw, waddr_id_width=idw, raddr_id_width=idw, wdata_id_width=idw,
                              waddr_user_width=uw, raddr_user_width=uw, sb_depth=depth)
    for i in range(callers):
        if k in ('aw', 'ar'):
            a = m.Input('a%d' % i, aw)
            l = m.Input('l%d' % i, 9)
            f = b.write_request if k == 'aw' else b.read_request
            ack.append(f(a, cond=cond[i]) if lite else f(a, l, cond=cond[i]))
        elif k == 'w':
            d, la = m.Input('d%d' % i, dw), m.Input('la%d' % i)
            ack.append(b.write_data(d, cond=cond[i]) if lite else b.write_data(d, la, cond=cond[i]))
        elif k == 'r':
            if i == 0:
                b = (axi.AxiLiteSlave if lite else axi.AxiSlave)(m, 'p', clk, rst, dw, aw)
            d, la = m.Input('d%d' % i, dw), m.Input('la%d' % i)
            ack.append(b.push_read_data(d, cond=cond[i]) if lite else b.push_read_data(d, la, cond=cond[i]))
        elif k == 't':
            if i == 0:
                b = axi.AxiStreamOut(m, 'p', clk, rst, dw, True, False, idw, uw, idw)
            d, la = m.Input('d%d' % i, dw), m.Input('la%d' % i)
            kw = {}
            if idw:
                kw['_id'] = m.Input('id%d' % i, idw)
                kw['dest'] = m.Input('de%d' % i, idw)
            if uw:
                kw['user'] = m.Input('us%d' % i, uw)
            ack.append(b.write_data(d, la, cond=cond[i], **kw))
    for i, x in enumerate(ack):
        m.Output('ack%d' % i).assign(x)
    return m.to_verilog()


def drv_sig(kind, idw, uw):
    k = kind.replace('lite-', '')
    lite = kind.startswith('lite')
    if k in ('aw', 'ar'):
        pay = ['p_%saddr' % k] + ([] if lite else ['p_%slen' % k])
        return 'p_%svalid' % k, 'p_%sready' % k, pay
    if k in ('w', 'r'):
        return 'p_%svalid' % k, 'p_%sready' % k, ['p_%sdata' % k] + ([] if lite else ['p_%slast' % k]) + (['p_wstrb'] if k == 'w' else [])
    pay = ['p_tdata', 'p_tlast'] + (['p_tid', 'p_tdest'] if idw else []) + (['p_tuser'] if uw else [])
    return 'p_tvalid', 'p_tready', pay


def drv_item(kind, s, i, dw, idw, uw):
    """expected payload of caller i, aligned with drv_sig"""
    k = kind.replace('lite-', '')
    lite = kind.startswith('lite')
    if k in ('aw', 'ar'):
        return [s['a%d' % i]] + ([] if lite else [z3.Extract(7, 0, s['l%d' % i] - 1)])
    if k in ('w', 'r'):
        return [s['d%d' % i]] + ([] if lite else [s['la%d' % i]]) + ([bv(2 ** (dw // 8) - 1, dw // 8)] if k == 'w' else [])
    return [s['d%d' % i], s['la%d' % i]] + ([s['id%d' % i], s['de%d' % i]] if idw else []) + ([s['us%d' % i]] if uw else [])


DRV_FN = {'aw': ['types.axi.AxiMaster.write_request', 'types.axi.AxiMasterWriteAddress.write_request', 'types.axi.AxiMaster.__init__'],
          'ar': ['types.axi.AxiMaster.read_request', 'types.axi.AxiMasterReadAddress.read_request'],
          'w': ['types.axi.AxiMasterWriteData.write_data', 'types.axi.AxiMasterWriteData.__init__'],
          'r': ['types.axi.AxiSlaveReadData.push_read_data'], 't': ['types.axi.AxiStreamOutData.write_data', 'types.axi.AxiStreamOut.write_data'],
          'lite-aw': ['types.axi.AxiLiteMasterWriteAddress.write_request'], 'lite-ar': ['types.axi.AxiLiteMasterReadAddress.read_request'],
          'lite-w': ['types.axi.AxiLiteMasterWriteData.write_data', 'types.axi.AxiLiteMasterWriteData.__init__'],
          'lite-r': ['types.axi.AxiLiteSlaveReadData.push_read_data']}


def u_drv(rec, kind, dw, aw, idw, uw, callers, depth=1):
    rec.function(*DRV_FN[kind])
    D = Design(drv_text(kind, dw, aw, idw, uw, callers, depth), 'top')
    valid, ready, pay = drv_sig(kind, idw, uw)
    z = Sym(D, '0')                 # any state, any inputs (also reset)
    s = z.after('', fix={'RST': 0})  # any state at least one cycle old
    a = s.after("'", fix={'RST': 0})
    k = kind.replace('lite-', '')
    lens = [z3.And(z3.UGE(s['l%d' % i], 1), z3.ULE(s['l%d' % i], 256)) for i in range(callers) if k in ('aw', 'ar') and not kind.startswith('lite')]
    C = [s.t('c%d' % i) for i in range(callers)]
    excl = [z3.Not(z3.And(C[i], C[j])) for i in range(callers) for j in range(i)]
    H = lens + excl
    rec.cover('driver', H + [C[0], s.t('ack0')])
    acc = z3.Or(*[z3.And(C[i], s.t('ack%d' % i)) for i in range(callers)])
    P = lambda x: cat(*[x[p] for p in pay])
    item = cat(*drv_item(kind, s, callers - 1, dw, idw, uw))
    for i in range(callers - 1):
        item = z3.If(C[i], cat(*drv_item(kind, s, i, dw, idw, uw)), item)
    if k == 'w':
        slots, inv = sb_slots(D, '_sb_p_writedata', depth, 'out-first')
        # the user-side register is the youngest slot
        user = [n for n in D.state if n.startswith('_p_') and n.endswith('_sb_0')]
        nm = {x: '_p_%s_sb_0' % x for x in ('wdata', 'wstrb', 'wlast', 'wvalid')}
        order = [x for x in ('wlast', 'wstrb', 'wdata') if not (kind.startswith('lite') and x == 'wlast')]
        its = drv_item(kind, s, callers - 1, dw, idw, uw)

        def mkitem(i):
            d = drv_item(kind, s, i, dw, idw, uw)
            m = dict(wdata=d[0], wstrb=d[-1])
            if not kind.startswith('lite'):
                m['wlast'] = d[1]
            return cat(*[m[x] for x in order])
        item = mkitem(callers - 1)
        for i in range(callers - 1):
            item = z3.If(C[i], mkitem(i), item)
        slots = slots + [lambda x: (x.t(nm['wvalid']), cat(*[x[nm[q]] for q in order]))]
        seq_contract(rec, '', s, a, slots, acc, item, z3.And(s.t(valid), s.t(ready)), H, inv)
        rec.prove('the bus shows the oldest item', z3.And(s.t(valid) == slots[0](s)[0],
                  z3.Implies(s.t(valid), cat(*[s['p_' + q] for q in order]) == slots[0](s)[1])), H)
        rec.prove('valid and payload hold until ready', z3.And(a.t(valid), P(a) == P(s)), H + [s.t(valid), z3.Not(s.t(ready)), inv(s)])
        rec.prove('the channel accepts when everything in flight can move', z3.Implies(z3.And(*[z3.Not(f(s)[0]) for f in slots]), s.t('ack0')), H)
        r0 = Sym(D, 'r', fix={'RST': 1}).after('r1')
        rec.prove('reset empties the channel', z3.And(inv(r0), *[z3.Not(f(r0)[0]) for f in slots]))
        return
    busy = z3.And(s.t(valid), z3.Not(s.t(ready)))
    rec.prove('valid and payload hold until ready', z3.And(a.t(valid), P(a) == P(s)), H + [busy])
    rec.prove('an accepted request is put on the bus unaltered', z3.And(a.t(valid), P(a) == item), H + [acc])
    rec.prove('valid only for accepted requests (no invented or repeated transfer)', z3.Not(a.t(valid)), H + [z3.Not(acc), z3.Not(busy)])
    for i in range(callers):
        rec.prove('caller %d: accepted only when the slot is free or being taken' % i, z3.Implies(s.t('ack%d' % i), z3.Not(busy)), H)
        if k != 'aw':
            rec.prove('caller %d: accepted whenever the slot is free or being taken' % i, z3.Implies(z3.Not(busy), s.t('ack%d' % i)), H)
    r0 = Sym(D, 'r', fix={'RST': 1}).after('r1')
    rec.prove('reset clears valid', z3.Not(r0.t(valid)))
    if k == 'aw':
        cnt = '_p_outstanding_wcount'
        w = D.decls[cnt].width
        mx = 2 ** w - 1
        inv = lambda x: z3.ULE(z3.ZeroExt(1, x[cnt]) + z3.ZeroExt(w, x['p_awvalid']), mx)
        rec.prove('outstanding write counter never saturates (inductive)', inv(a), H + [inv(s)])
        aw_, b_ = z3.And(s.t('p_awvalid'), s.t('p_awready')), z3.And(s.t('p_bvalid'), s.t('p_bready'))
        one = lambda c: z3.If(c, bv(1, w), bv(0, w))
        rec.prove('outstanding count == accepted addresses minus responses',
                  a[cnt] == s[cnt] + one(aw_) - one(b_), H + [inv(s), z3.Or(z3.UGT(s[cnt], 0), z3.Not(b_), aw_)])
        rec.prove('a free slot accepts while few writes are outstanding',
                  z3.Implies(z3.And(z3.Not(busy), s[cnt] == 0 if kind.startswith('lite') else z3.ULT(s[cnt], mx - 1)), s.t('ack0')), H)
        if kind.startswith('lite'):
            rec.prove('a lite master accepts only with no counted write outstanding', z3.Implies(z3.Or(*[s.t('ack%d' % i) for i in range(callers)]), s[cnt] == 0), H)


def s_drv(rec, kind, dw, aw, idw, uw, callers, depth=1):
    text = drv_text(kind, dw, aw, idw, uw, callers, depth)
    D = Design(text, 'top')
    valid, ready, pay = drv_sig(kind, idw, uw)
    k = kind.replace('lite-', '')
    lite = kind.startswith('lite')

    def gen(rng, c, r):
        st = {n: rng.getrandbits(D.decls[n].width) for n in D.iports if n != 'CLK'}
        st['RST'] = int(c == 0)
        for i in range(callers):
            if 'l%d' % i in st:
                st['l%d' % i] = rng.choice([1, 2, 255, 256, rng.randint(1, 256)])
            st['c%d' % i] = 0
        if rng.random() < [0.5, 0.95, 0.2][r % 3]:
            st['c%d' % rng.randrange(callers)] = 1
        st[ready] = int(rng.random() < [0.5, 0.95, 0.2, 1][(c // 30) % 4])
        if 'p_bvalid' in st:
            st['p_bvalid'] = rng.getrandbits(1) if (c // 50) % 2 else 0
        return st

    class G(object):
        def __init__(self, st):
            self.st = st

        def __getitem__(self, n):
            return z3.BitVecVal(self.st[n], D.decls[n].width)

    def inp(st, g):
        for i in range(callers):
            if st['c%d' % i] and g('ack%d' % i):
                return True, tuple(z3.simplify(x).as_long() for x in drv_item(kind, G(st), i, dw, idw, uw))
        return False, None
    c = channel_search(text, 'top', gen, inp, lambda st, g: (g(valid), st[ready], tuple(g(p) for p in pay)), seed=rec.seed,
                       maxlen=(2 * depth + 1 if k == 'w' else 1))
    if c:
        c['call'] = '%s channel driver, datawidth=%d addrwidth=%d id=%d user=%d callers=%d sb_depth=%d' % (kind, dw, aw, idw, uw, callers, depth)
        rec.concrete('channel search', c)


# -- receiving sides ---------------------------------------------------------------

def rcv_text(kind, dw, callers, depth=1):
    V, m, clk, rst = start()
    import veriloggen.types.axi as axi
    lite = kind.startswith('lite')
    k = kind.replace('lite-', '')
    cond = [m.Input('c%d' % i) for i in range(callers)]
    if k == 'r':
        b = (axi.AxiLiteMaster if lite else axi.AxiMaster)(m, 'p', clk, rst, dw, 32, sb_depth=depth)
    elif k == 'w':
        b = (axi.AxiLiteSlave if lite else axi.AxiSlave)(m, 'p', clk, rst, dw, 32)
    else:
        b = axi.AxiStreamIn(m, 'p', clk, rst, dw, True, False, 3, 2, 4)
    for i in range(callers):
        if k == 'r':
            r = b.read_data(cond=cond[i])
            d, v, l = (r[0], r[1], None) if lite else r
        elif k == 'w':
            r = b.pull_write_data(cond=cond[i])
            d, mk, v, l = (r[0], r[1], r[2], None) if lite else r
            m.Output('mask%d' % i, dw // 8).assign(mk)
        else:
            d, l, _id, us, de, v = b.read_data(cond=cond[i])
            m.Output('id%d' % i, 3).assign(_id)
            m.Output('us%d' % i, 2).assign(us)
            m.Output('de%d' % i, 4).assign(de)
        m.Output('data%d' % i, dw).assign(d)
        m.Output('valid%d' % i).assign(v)
        if l is not None:
            m.Output('last%d' % i).assign(l)
    return m.to_verilog()


def rcv_sig(kind):
    lite = kind.startswith('lite')
    k = kind.replace('lite-', '')
    bus = {'r': ['p_rdata', 'p_rlast'], 'w': ['p_wdata', 'p_wlast', 'p_wstrb'], 't': ['p_tdata', 'p_tlast', 'p_tid', 'p_tuser', 'p_tdest']}[k]
    usr = {'r': ['data', 'last'], 'w': ['data', 'last', 'mask'], 't': ['data', 'last', 'id', 'us', 'de']}[k]
    if lite:
        bus = [x for x in bus if 'last' not in x]
        usr = [x for x in usr if 'last' not in x]
    return bus, usr, 'p_%svalid' % k, 'p_%sready' % k


def u_rcv(rec, kind, dw, callers, depth=1):
    rec.function({'r': 'types.axi.AxiMasterReadData.read_data', 'lite-r': 'types.axi.AxiLiteMasterReadData.read_data',
                  'w': 'types.axi.AxiSlaveWriteData.pull_write_data', 'lite-w': 'types.axi.AxiLiteSlaveWriteData.pull_write_data',
                  't': 'types.axi.AxiStreamInData.read_data'}[kind], 'types.axi._connect_ready')
    D = Design(rcv_text(kind, dw, callers, depth), 'top')
    bus, usr, valid, ready = rcv_sig(kind)
    s = Sym(D, '0').after('', fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    C = z3.Or(*[s.t('c%d' % i) for i in range(callers)])
    U = lambda x, i: cat(*[x[q + str(i)] for q in usr])
    B = lambda x: cat(*[x[q] for q in bus])
    if kind.endswith('r'):
        slots, inv = sb_slots(D, '_sb_p_readdata', depth, 'in-first' if False else 'user-first')
        order = ([] if kind.startswith('lite') else ['last']) + ['data']
        item = cat(*[s['p_r' + q] for q in order])
        deq = z3.And(s.t('valid0'), C)
        seq_contract(rec, '', s, a, slots, z3.And(s.t(valid), s.t(ready)), item, deq, [], inv)
        for i in range(callers):
            # (the lite reader's valid already includes "somebody takes it")
            rec.prove('reader %d sees the oldest item' % i, z3.And(s.t('valid%d' % i) == z3.And(slots[0](s)[0], C) if kind.startswith('lite')
                      else s.t('valid%d' % i) == slots[0](s)[0],
                      z3.Implies(slots[0](s)[0], cat(*[s[q + str(i)] for q in order]) == slots[0](s)[1])), [inv(s)])
        rec.prove('an empty buffer is ready', z3.Implies(z3.And(*[z3.Not(f(s)[0]) for f in slots]), s.t(ready)))
        return
    rec.cover('a transfer', [s.t(valid), s.t(ready)])
    rec.prove('ready exactly when one of the readers takes the item', s.t(ready) == C)
    for i in range(callers):
        rec.prove('reader %d sees the item on the bus' % i, z3.And(s.t('valid%d' % i) == s.t(valid), U(s, i) == B(s)))


def s_rcv(rec, kind, dw, callers, depth=1):
    text = rcv_text(kind, dw, callers, depth)
    D = Design(text, 'top')
    bus, usr, valid, ready = rcv_sig(kind)
    held = {}

    def gen(rng, c, r):
        st = {n: rng.getrandbits(D.decls[n].width) for n in D.iports if n != 'CLK'}
        st['RST'] = int(c == 0)
        st[valid] = int(rng.random() < [0.5, 0.95, 0.3][r % 3])
        for i in range(callers):
            st['c%d' % i] = int(rng.random() < [0.4, 0.9, 0.1][(c // 30) % 3] / callers)
        return st
    c = channel_search(text, 'top', gen, lambda st, g: (st[valid] and g(ready), tuple(st[b] for b in bus)),
                       lambda st, g: (g('valid0'), any(st['c%d' % i] for i in range(callers)), tuple(g(u + '0') for u in usr)),
                       seed=rec.seed, hold=kind.endswith('r')) if kind.endswith('r') else None
    if c is None and not kind.endswith('r'):
        s = Sim(D)
        rng = random.Random(rec.seed)
        for n in range(300):
            st = gen(rng, n, n)
            s.set(**st)
            exp = int(any(st['c%d' % i] for i in range(callers)))
            if n and (s.get(ready) != exp or any(s.get(u + '0') != st[b] for u, b in zip(usr, bus)) or s.get('valid0') != st[valid]):
                c = dict(kind='history', stimulus=[st], verilog=text, ready=s.get(ready), expected_ready=exp)
                break
            s.step()
    if c:
        c['call'] = '%s receiver datawidth=%d callers=%d depth=%d' % (kind, dw, callers, depth)
        rec.concrete('receiver search', c)


# -- slave request side --------------------------------------------------------------

def req_text(kind, aw, withcond):
    V, m, clk, rst = start()
    import veriloggen.types.axi as axi
    lite = kind.startswith('lite')
    b = (axi.AxiLiteSlave if lite else axi.AxiSlave)(m, 'p', clk, rst, 32, aw)
    c = m.Input('c') if withcond else None
    k = kind.replace('lite-', '')
    if k == 'both':
        r = b.pull_request(c)
        r = (r[0], None, r[1], r[2]) if lite else r
        addr, length, rv, wv = r
        m.Output('rv').assign(rv)
        m.Output('wv').assign(wv)
    else:
        r = b.pull_write_request(c) if k == 'write' else b.pull_read_request(c)
        addr, length, v = (r[0], None, r[1]) if lite else r
        m.Output('wv' if k == 'write' else 'rv').assign(v)
    m.Output('addr', aw).assign(addr)
    if length is not None:
        m.Output('length', 9).assign(length)
    if k != 'read':
        wr = m.Input('wr')
        b.pull_write_data(cond=wr)
    return m.to_verilog()


def u_req(rec, kind, aw, withcond):
    lite = kind.startswith('lite')
    k = kind.replace('lite-', '')
    cls = 'AxiLiteSlave' if lite else 'AxiSlave'
    rec.function('types.axi.%s.%s' % (cls, {'both': 'pull_request', 'write': 'pull_write_request', 'read': 'pull_read_request'}[k]),
                 'types.axi.%s.__init__' % cls)
    D = Design(req_text(kind, aw, withcond), 'top')
    s = Sym(D, '0').after('', fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    W = z3.And(s.t('p_awvalid'), s.t('p_awready')) if k != 'read' else z3.BoolVal(False)
    R = z3.And(s.t('p_arvalid'), s.t('p_arready')) if k != 'write' else z3.BoolVal(False)
    f = z3.BoolVal(False)
    rec.cover('a request', [z3.Or(W, R)])
    rec.prove('at most one request is accepted per cycle', z3.Not(z3.And(W, R)))
    if k != 'read':
        rec.prove('a write request is reported exactly once, one cycle after it is accepted', a.t('wv') == W)
        rec.prove('its address is the one on the bus', z3.Implies(W, a['addr'] == s['p_awaddr']))
        if not lite:
            rec.prove('its length is awlen+1', z3.Implies(W, a['length'] == z3.ZeroExt(1, s['p_awlen']) + 1))
    if k != 'write':
        rec.prove('a read request is reported exactly once, one cycle after it is accepted', a.t('rv') == R)
        rec.prove('its address is the one on the bus (read)', z3.Implies(R, a['addr'] == s['p_araddr']))
        if not lite:
            rec.prove('its length is arlen+1', z3.Implies(R, a['length'] == z3.ZeroExt(1, s['p_arlen']) + 1))
    if withcond:
        rec.prove('nothing is accepted while the user does not take requests', z3.Implies(z3.Not(s.t('c')), z3.Not(z3.Or(W, R))))
    # progress: a steadily offered request is accepted when nothing else is going on
    p = s.after("p", fix={'RST': 0})
    idle = [z3.Not(p.t(n)) for n in ('wv', 'rv') if n in D.decls] + ([z3.Not(p.t('p_bvalid'))] if k != 'read' else [])
    if withcond:
        idle.append(p.t('c'))
    if k != 'read':
        rec.prove('a held write request is accepted as soon as the slave is idle', p.t('p_awready'), idle + [s.t('p_awvalid'), p.t('p_awvalid')])
    if k != 'write':
        rec.prove('a held read request is accepted as soon as the slave is idle', p.t('p_arready'),
                  idle + [s.t('p_arvalid'), p.t('p_arvalid')] + ([z3.Not(s.t('p_awvalid'))] if k == 'both' else []))
    if k != 'read':
        last = z3.BoolVal(True) if lite else s.t('p_wlast')
        wdone = z3.And(s.t('p_wvalid'), s.t('p_wready'), last)
        bb = z3.And(s.t('p_bvalid'), s.t('p_bready'))
        rec.prove('write response: offered after the last write data, held until taken, then withdrawn',
                  a.t('p_bvalid') == z3.Or(wdone, z3.And(s.t('p_bvalid'), z3.Not(s.t('p_bready')))))
        rec.prove('no new write is accepted while a response is pending', z3.Implies(s.t('p_bvalid'), z3.Not(W)))


def s_req(rec, kind, aw, withcond):
    text = req_text(kind, aw, withcond)
    D = Design(text, 'top')
    lite = kind.startswith('lite')
    for r in range(6):
        rng = random.Random(rec.seed * 31 + r)
        s = Sim(D)
        stim = []
        hold = {}
        prev = None
        for c in range(300):
            st = {n: rng.getrandbits(D.decls[n].width) for n in D.iports if n != 'CLK'}
            st['RST'] = int(c == 0)
            for ch in ('aw', 'ar'):
                if ch in hold:
                    st.update(hold.pop(ch))
            stim.append(st)
            s.set(**st)
            bad = None
            if prev is not None and c > 1:
                for n, v in prev.items():
                    if s.get(n) != v:
                        bad = '%s is %d, expected %d' % (n, s.get(n), v)
            exp = {}
            for ch, vn in (('aw', 'wv'), ('ar', 'rv')):
                if vn not in D.decls:
                    continue
                acc = st['p_%svalid' % ch] and s.get('p_%sready' % ch)
                exp[vn] = int(bool(acc))
                if acc:
                    exp['addr'] = st['p_%saddr' % ch]
                    if not lite:
                        exp['length'] = st['p_%slen' % ch] + 1
                elif st['p_%svalid' % ch]:
                    hold[ch] = {n: v for n, v in st.items() if n.startswith('p_' + ch)}
            if 'p_bvalid' in D.decls and 'wv' in D.decls:
                wd = st['p_wvalid'] and s.get('p_wready') and (lite or st['p_wlast'])
                exp['p_bvalid'] = int(bool(wd or (s.get('p_bvalid') and not st['p_bready'])))
            if bad:
                rec.concrete('slave request search', dict(kind='history', what=bad, cycle=c, stimulus=stim, verilog=text,
                                                          call='%s requests addrwidth %d' % (kind, aw)))
                return
            prev = exp if c else None
            s.step()


# -- wiring ---------------------------------------------------------------------------

def u_wire(rec, kind, dw, aw, idw, uw):
    """connect() joins every signal with its namesake, in the right direction."""
    V, m, clk, rst = start()
    import veriloggen.types.axi as axi
    rec.function('types.axi connect methods: ' + kind)
    names = []
    if kind == 'stream':
        src = axi.AxiStreamOut(m, 'a', clk, rst, dw, True, False, idw, uw, idw, noio=True)
        dst = axi.AxiStreamIn(m, 'b', clk, rst, dw, True, False, idw, uw, idw, noio=True)
        dst.connect_stream(src)
        fwd = ['tdata', 'tvalid', 'tlast'] + (['tid', 'tdest'] if idw else []) + (['tuser'] if uw else [])
        pairs = [('b_' + n, 'a_' + n) for n in fwd] + [('a_tready', 'b_tready')]
        d, l, c = m.Input('d', dw), m.Input('l'), m.Input('c')
        kw = {}
        if idw:
            kw = dict(_id=m.Input('di', idw), dest=m.Input('dd', idw))
        if uw:
            kw['user'] = m.Input('du', uw)
        src.write_data(d, l, cond=c, **kw)
        dst.read_data(cond=m.Input('rc'))
    elif kind == 'stream2':
        src = axi.AxiStreamOut(m, 'a', clk, rst, dw, True, False, idw, uw, idw, noio=True)
        dst = axi.AxiStreamIn(m, 'b', clk, rst, dw, True, False, idw, uw, idw, noio=True)
        src.connect_stream(dst)
        fwd = ['tdata', 'tvalid', 'tlast'] + (['tid', 'tdest'] if idw else []) + (['tuser'] if uw else [])
        pairs = [('b_' + n, 'a_' + n) for n in fwd] + [('a_tready', 'b_tready')]
        d, l, c = m.Input('d', dw), m.Input('l'), m.Input('c')
        kw = {}
        if idw:
            kw = dict(_id=m.Input('di', idw), dest=m.Input('dd', idw))
        if uw:
            kw['user'] = m.Input('du', uw)
        src.write_data(d, l, cond=c, **kw)
        dst.read_data(cond=m.Input('rc'))
    else:
        lite = kind.startswith('lite')
        # a module with a master interface, its ports copied as wires of a test
        # bench and connected to a bus-functional slave and master there
        sub = V.Module('dut')
        sc, sr = sub.Input('CLK'), sub.Input('RST')
        kw = {} if lite else dict(waddr_id_width=idw, raddr_id_width=idw, wresp_id_width=idw, rdata_id_width=idw, waddr_user_width=uw, raddr_user_width=uw)
        side = kind.split('-')[-1]
        cls = {'master': (axi.AxiMaster, axi.AxiLiteMaster), 'slave': (axi.AxiSlave, axi.AxiLiteSlave)}
        b = cls[side][int(lite)](sub, 'q', sc, sr, dw, aw, **kw)
        ports = m.copy_sim_ports(sub, use_wire=True)
        other = cls['slave' if side == 'master' else 'master'][int(lite)](m, 'z', clk, rst, dw, aw, noio=True, **kw)
        other.connect(ports, 'q')
        pairs = []
        for n, p in sub.io_variable.items():
            if n in ('CLK', 'RST'):
                continue
            nm = n[2:]
            isin = isinstance(p, V.core.vtypes.Input)
            pairs.append((n, 'z_' + nm) if isin else ('z_' + nm, n))
        # the opposite side must really carry the signal
    text = m.to_verilog()
    D = Design(text, 'top')
    s = Sym(D)
    n = 0
    for dst_, src_ in pairs:
        if dst_ not in D.decls or src_ not in D.decls:
            continue
        n += 1
        rec.prove('%s carries %s' % (dst_, src_), s[dst_] == s[src_])
    rec.holds('connections examined', n >= (4 if 'stream' in kind else 12), str(n))


def units(tier, seed):
    U = []
    th = tier == 'thorough'

    def add(nm, f, s, *args, **kw):
        U.append(Unit('%s %s' % (nm, ' '.join(str(a) for a in args)), lambda rec: f(rec, *args),
                      search=(lambda rec: s(rec, *args)) if s else None, **kw))
    for w in [(8,), (None,), (32, 4, None), (None, 5), (1, 1, 1), (64, 8, 3)]:
        add('SkidBuffer', u_sb, s_sb, w)
    for c in [('aw', 32, 32, 0, 2, 1), ('aw', 64, 20, 4, 1, 3), ('ar', 32, 32, 0, 2, 2), ('ar', 128, 64, 5, 0, 1),
              ('lite-aw', 32, 32, 0, 0, 2), ('lite-ar', 32, 16, 0, 0, 2), ('r', 32, 32, 0, 0, 1), ('r', 8, 32, 0, 0, 3), ('lite-r', 32, 32, 0, 0, 2),
              ('t', 32, 0, 0, 0, 1), ('t', 16, 0, 3, 2, 2), ('t', 8, 0, 0, 4, 3),
              ('w', 32, 32, 0, 0, 1), ('w', 16, 32, 0, 0, 2, 2), ('w', 8, 32, 4, 0, 2, 3), ('lite-w', 32, 32, 0, 0, 1), ('lite-w', 16, 32, 0, 0, 2, 2)]:
        add('driver', u_drv, s_drv, *c)
    for c in [('r', 32, 1), ('r', 16, 2, 2), ('r', 8, 3, 3), ('lite-r', 32, 2), ('lite-r', 16, 1, 2), ('w', 32, 1), ('w', 16, 3), ('lite-w', 32, 2),
              ('t', 32, 1), ('t', 8, 3)]:
        add('receiver', u_rcv, s_rcv, *c)
    for k in ('both', 'write', 'read', 'lite-both', 'lite-write', 'lite-read'):
        for wc in (True, False):
            if 'both' in k and not wc:
                continue
            add('slave requests', u_req, s_req, k, 32 if wc else 13, wc)
    for c in [('stream', 32, 0, 0, 0), ('stream', 8, 0, 3, 2), ('stream2', 16, 0, 2, 5),
              ('axi-slave', 32, 32, 0, 2), ('axi-slave', 64, 20, 4, 3), ('lite-slave', 32, 16, 0, 0)]:
        add('connect', u_wire, None, *c)
    return U


if __name__ == '__main__':
    main('C11', units, trusted=['lib/vsem.py Verilog-2005 semantics', 'pyverilog parser', 'z3'],
         assumptions=['widths, buffer depths and numbers of callers are enumerated; schedules and payloads are not',
                      'two callers of one driver do not request in the same cycle (precondition)'])
