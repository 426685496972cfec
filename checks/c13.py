"""C13: mutex and barrier.  Rely-guarantee contracts of lock/try_lock/unlock/
wait on the RTL emitted for N sharing threads, for ARBITRARY thread and mutex
states (so for every program and every schedule), plus an inductive invariant
for the barrier."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vpath
import z3
import vsem
from vsem import Design
from rtl import Sym, Sim, bv, iverilog_run
from prove import Unit, main


def start(name='top'):
    import veriloggen as V
    V.reset()
    m = V.Module(name)
    return V, m, m.Input('CLK'), m.Input('RST')


class B(object):
    pass


def blocked_probe(how, width):
    """one thread keeps the mutex; another asks for it without waiting"""
    V, m, clk, rst = start()
    import veriloggen.thread as vthread
    mu = vthread.Mutex(m, 'mu', clk, rst, width)
    a, b = V.FSM(m, 'a', clk, rst), V.FSM(m, 'b', clk, rst)
    mu.lock(a)
    for i in range(10):
        b.goto_next()
    r = mu.acquire(b, blocking=False) if how == 'acquire' else mu.try_lock(b)
    done, got = m.OutputReg('done', initval=0), m.OutputReg('got', initval=0)
    b(done(1), got(r))
    text = m.to_verilog()
    o = iverilog_run(text, 'top', [dict(RST=int(c < 2)) for c in range(60)], ['done', 'got'])[-1]
    if (o['done'], o['got']) == (1, 0):
        return None
    return dict(kind='history', call='%s while another thread holds the mutex' % ('acquire(blocking=False)' if how == 'acquire' else 'try_lock()'),
                after_60_cycles=o, expected=dict(done=1, got=0), verilog=text[:6000])


def mutex_design(n, width, how, seed=0):
    """N threads; thread i waits for an input before each step.  Records, per
    thread, the states in which each operation sits."""
    V, m, clk, rst = start()
    import veriloggen.thread as vthread
    o = B()
    if how == 'lockclass':
        mu = vthread.Lock(m, 'mu', clk, rst, width) if hasattr(vthread, 'Lock') else None
    elif how == 'shared':
        mu = vthread.Shared(m.Reg('sh', 16, initval=0))
    else:
        mu = vthread.Mutex(m, 'mu', clk, rst, width)
    o.th = []
    gos = [m.Input('go%d' % i) for i in range(n)]

    def prog(fsm, t, go, k):
        gate = lambda: (fsm.If(go).goto_next())
        lock = mu.lock if how != 'acquire' else mu.acquire
        trylock = mu.try_lock if how != 'acquire' else (lambda f: mu.acquire(f, blocking=False))
        unlock = mu.unlock if how != 'acquire' else mu.release
        for r in range(2):
            gate()
            t0 = fsm.current
            lock(fsm)
            t1 = fsm.current
            t.lock.append((t0, t1))
            gate()
            gate()
            u = fsm.current
            unlock(fsm)
            t.unlock.append((u, fsm.current))
            t.crit += list(range(t1, u + 1))
            gate()
            t0 = fsm.current
            res = trylock(fsm)
            t1 = fsm.current
            if not hasattr(res, 'name'):
                ex = ValueError('the non-blocking lock returns %r, not a signal' % (res,))
                ex.concrete = blocked_probe(how, width)
                raise ex
            t.trylock.append((t0, t1, res.name))
            # success -> critical section, then unlock
            head = fsm.current
            fsm.If(vt.Not(res)).goto(head + 3)
            fsm.If(res).goto_next()
            c0 = fsm.current
            gate()
            u = fsm.current
            unlock(fsm)
            t.unlock.append((u, fsm.current))
            t.crit += list(range(c0, u + 1))
        fsm.goto_init()
    import veriloggen.core.vtypes as vt
    if how == 'thread':
        marks = {}

        def mark(fsm, what):
            marks[fsm.name, str(getattr(what, 'value', what))] = fsm.current

        def mk(go):
          def body():
              while True:
                  while not go:
                      pass
                  vthread.intrinsic(mark, 'l0')
                  mu.lock()
                  vthread.intrinsic(mark, 'l1')
                  while not go:
                      pass
                  vthread.intrinsic(mark, 'u0')
                  mu.unlock()
                  vthread.intrinsic(mark, 'u1')
                  while not go:
                      pass
                  vthread.intrinsic(mark, 't0')
                  r = mu.try_lock()
                  vthread.intrinsic(mark, 't1')
                  if r:
                      vthread.intrinsic(mark, 'c0')
                      while not go:
                          pass
                      vthread.intrinsic(mark, 'v0')
                      mu.unlock()
                      vthread.intrinsic(mark, 'v1')
          return body
        for i in range(n):
            t = B()
            go = gos[i]     # threads resolve names in the frame that creates them
            th = vthread.Thread(m, 'th%d' % i, clk, rst, mk(gos[i]))
            fsm = th.start()
            g = lambda w: marks[fsm.name, w]
            t.lock, t.unlock, t.trylock = [(g('l0'), g('l1'))], [(g('u0'), g('u1')), (g('v0'), g('v1'))], [(g('t0'), g('t1'), None)]
            t.crit = list(range(g('l1'), g('u0') + 1)) + list(range(g('c0'), g('v0') + 1))
            t.state = fsm.state.name
            t.nstates = fsm.current + 1
            t.id = mu._get_id(fsm.name)
            o.th.append(t)
    else:
        for i in range(n):
            t = B()
            t.lock, t.unlock, t.trylock, t.crit = [], [], [], []
            fsm = V.FSM(m, 'th%d' % i, clk, rst)
            prog(fsm, t, gos[i], i)
            t.state = fsm.state.name
            t.nstates = fsm.current + 1
            mm = mu.mutex if how == 'shared' else mu
            t.id = mm._get_id(fsm.name)
            o.th.append(t)
    mm = mu.mutex if how == 'shared' else mu
    o.reg, o.idr = mm.lock_reg.name, mm.lock_id.name
    o.text = m.to_verilog()
    o.D = Design(o.text, 'top')
    o.n = n
    return o


def u_mutex(rec, n, width, how):
    rec.function('thread.ttypes.Mutex.lock', 'thread.ttypes.Mutex.try_lock', 'thread.ttypes.Mutex.unlock', 'thread.ttypes.Mutex._get_id',
                 'thread.ttypes.Mutex.acquire', 'thread.ttypes.Mutex.release', 'thread.ttypes._MutexFunction')
    o = mutex_design(n, width, how)
    D = o.D
    ids = [t.id for t in o.th]
    rec.holds('thread ids are distinct and fit the id register', len(set(ids)) == n and all(0 <= i < (1 << D.decls[o.idr].width) for i in ids))
    s = Sym(D, '', fix={'RST': 0})
    a = s.after("'", fix={'RST': 0})
    iw = D.decls[o.idr].width
    own = lambda x, t: z3.And(x.t(o.reg), x[o.idr] == bv(t.id, iw))
    at = lambda x, t, *st: z3.Or(*[x[t.state] == bv(q, D.decls[t.state].width) for q in st])
    H = [z3.ULT(s[t.state], bv(t.nstates, D.decls[t.state].width)) for t in o.th]
    free = z3.Not(s.t(o.reg))
    trying = []
    for i, t in enumerate(o.th):
        un = [u for u, _ in t.unlock]
        tr = [p for p, _ in t.lock] + [p for p, _, _ in t.trylock]
        trying.append(at(s, t, *tr))
        p = 'thread %d: ' % i
        rec.cover(p + 'owner in the critical section', H + [own(s, t), at(s, t, *t.crit)])
        rec.prove(p + 'ownership is kept until this thread unlocks', z3.Implies(own(s, t), z3.Or(own(a, t), at(s, t, *un))), H)
        rec.prove(p + 'ownership is only gained in a lock attempt on a free mutex', z3.Implies(z3.And(own(a, t), z3.Not(own(s, t))), z3.And(free, at(s, t, *tr))), H)
        rec.prove(p + 'unlock by the owner frees the mutex', z3.Not(own(a, t)), H + [own(s, t), at(s, t, *un)])
        for u, u1 in t.unlock:
            rec.prove(p + 'unlock finishes', at(a, t, u1), H + [at(s, t, u)])
        for l0, l1 in t.lock:
            ins = list(range(l0, l1))
            rec.prove(p + 'lock completes only as owner', z3.Implies(z3.And(at(s, t, *ins), at(a, t, l1)), z3.And(own(s, t), own(a, t))), H)
            rec.prove(p + 'lock stays inside lock until it completes', z3.Implies(at(s, t, *ins), at(a, t, *(ins + [l1]))), H)
            rec.prove(p + 'the owner completes its lock', z3.Implies(z3.And(own(s, t), at(s, t, *ins[1:])), at(a, t, l1)), H)
            rec.prove(p + 'a loser tries again', z3.Implies(z3.And(z3.Not(own(s, t)), at(s, t, *ins[1:])), at(a, t, l0)), H)
            rec.prove(p + 'a lock attempt on a free or own mutex is verified next', z3.Implies(z3.And(at(s, t, l0), z3.Or(free, own(s, t))), at(a, t, *ins[1:])), H)
        for t0, t1, res in t.trylock:
            rec.prove(p + 'try_lock takes its states in order', z3.And(*[z3.Implies(at(s, t, q), at(a, t, q + 1)) for q in range(t0, t1)]), H)
            if res is not None:
                rec.prove(p + 'try_lock reports success exactly to the owner', z3.Implies(at(s, t, t1 - 1), a.t(res) == own(s, t)), H)
    for i in range(n):
        for j in range(i):
            rec.prove('threads %d and %d are never both owner' % (j, i), z3.Not(z3.And(own(s, o.th[i]), own(s, o.th[j]))))
    someone = z3.And(free, z3.Or(*trying))
    unlocking = z3.Or(*[at(s, t, *[u for u, _ in t.unlock]) for t in o.th])
    rec.cover('free mutex requested', H + [someone])
    rec.prove('a free mutex is obtained by a requester', z3.Or(*[z3.And(tr, own(a, t)) for tr, t in zip(trying, o.th)]), H + [someone, z3.Not(unlocking)])
    # a program that unlocks only what it owns: nobody unlocks a free mutex
    r = Sym(D, 'r', fix={'RST': 1}).after('r1')
    rec.prove('free after reset', z3.Not(r.t(o.reg)))


def s_mutex(rec, n, width, how):
    o = mutex_design(n, width, how)
    D = o.D
    for run in range(20):
        rng = random.Random(rec.seed * 100 + run)
        s = Sim(D)
        stim = []
        busy = 0
        for c in range(300):
            st = dict(RST=int(c == 0))
            for i in range(n):
                st['go%d' % i] = int(rng.random() < [0.5, 0.9, 0.2, 1][run % 4])
            stim.append(st)
            s.set(**st)
            ins = [i for i, t in enumerate(o.th) if s.get(t.state) in t.crit]
            allin = all(any(s.get(t.state) in range(l[0], l[1]) for l in t.lock) for t in o.th) and c
            busy = busy + 1 if allin else 0
            if c and (len(ins) > 1 or busy > 12):
                obs = [t.state for t in o.th]
                iv = iverilog_run(o.text, 'top', stim, obs)[-1]
                iin = [i for i, t in enumerate(o.th) if iv[t.state] in t.crit]
                rec.concrete('schedule search', dict(kind='schedule', call='%d threads sharing one mutex (%s)' % (n, how), stimulus=stim,
                             in_critical_section=ins, iverilog=iin, stuck_cycles=busy, verilog=o.text))
                return
            s.step()


# -- barrier -----------------------------------------------------------------------

def barrier_design(n, sites, extra=0):
    V, m, clk, rst = start()
    import veriloggen.thread as vthread
    o = B()
    bar = vthread.Barrier(m, 'bar', clk, rst, n)
    o.th = []
    for i in range(n):
        t = B()
        fsm = V.FSM(m, 'th%d' % i, clk, rst)
        go = m.Input('go%d' % i)
        t.sites = []
        for k in range(sites):
            fsm.If(go).goto_next()
            e0 = fsm.current
            bar.wait(fsm)
            t.sites.append((e0, fsm.current))
        fsm.goto_init()
        t.state, t.nstates, t.id = fsm.state.name, fsm.current + 1, bar.mutex._get_id(fsm.name)
        o.th.append(t)
    o.count, o.done, o.reg, o.idr = bar.count.name, bar.done.name, bar.mutex.lock_reg.name, bar.mutex.lock_id.name
    o.text = m.to_verilog()
    o.D = Design(o.text, 'top')
    o.n = n
    return o


def u_barrier(rec, n, sites):
    rec.function('thread.ttypes.Barrier.wait', 'thread.ttypes.Barrier.__init__', 'thread.ttypes.Mutex.lock', 'thread.ttypes.Mutex.unlock')
    o = barrier_design(n, sites)
    D = o.D
    z = Sym(D, '', fix={'RST': 0})
    a = z.after("'", fix={'RST': 0})
    cw, iw = D.decls[o.count].width, D.decls[o.idr].width
    at = lambda x, t, sts: z3.Or(*[x[t.state] == bv(q, D.decls[t.state].width) for q in sts])
    # lock = first states, then count.inc, unlock, wait for done
    incs = lambda t: [e1 - 3 for _, e1 in t.sites]
    unl = lambda t: [e1 - 2 for _, e1 in t.sites]
    wai = lambda t: [e1 - 1 for _, e1 in t.sites]
    own = lambda x, t: z3.And(x.t(o.reg), x[o.idr] == bv(t.id, iw))

    def counted(x):
        c = bv(0, cw + 2)
        for t in o.th:
            c = c + z3.If(at(x, t, unl(t) + wai(t)), bv(1, cw + 2), bv(0, cw + 2))
        return c

    def inv(x):
        cs = [z3.ULT(x[t.state], bv(t.nstates, D.decls[t.state].width)) for t in o.th]
        # only the owner is between lock and unlock; the owner is inside wait
        cs += [z3.Implies(at(x, t, incs(t) + unl(t)), own(x, t)) for t in o.th]
        cs += [z3.Implies(own(x, t), at(x, t, [q for e0, e1 in t.sites for q in range(e0, e1 - 1)])) for t in o.th]
        cs.append(z3.Implies(x.t(o.reg), z3.Or(*[own(x, t) for t in o.th])))
        cs.append(z3.If(x.t(o.done), z3.And(x[o.count] == 0, *[at(x, t, wai(t)) for t in o.th]), z3.ZeroExt(2, x[o.count]) == counted(x)))
        return z3.And(*cs)
    r0 = Sym(D, 'r', fix={'RST': 1}).after('r1')
    rec.prove('invariant after reset', inv(r0))
    H = [inv(z)]
    rec.cover('a waiting thread', H + [at(z, o.th[0], wai(o.th[0]))])
    rec.cover('release', H + [z.t(o.done)])
    rec.prove('invariant is inductive', inv(a), H)
    for i, t in enumerate(o.th):
        for e0, e1 in t.sites:
            leave = z3.And(at(z, t, range(e0, e1)), at(a, t, [e1]))
            rec.prove('thread %d leaves only when all have arrived' % i,
                      z3.Implies(leave, z3.And(*[at(z, u, wai(u)) for u in o.th])), H)
            rec.prove('thread %d stays in the barrier otherwise' % i, z3.Implies(at(z, t, range(e0, e1)), at(a, t, range(e0, e1 + 1))), H)
        rec.prove('thread %d is released together with the others' % i, z3.Implies(z.t(o.done), at(a, t, [e1 for _, e1 in t.sites])), H)
    rec.prove('when all have arrived they are released', z3.Implies(counted(z) == n, z3.Or(z.t(o.done), a.t(o.done))), H)


def s_barrier(rec, n, sites):
    o = barrier_design(n, sites)
    D = o.D
    for run in range(20):
        rng = random.Random(rec.seed * 100 + run)
        s = Sim(D)
        stim = []
        rounds = [0] * n
        arrived = [0] * n
        was = [0] * n
        stuck = 0
        for c in range(500):
            st = dict(RST=int(c == 0))
            for i in range(n):
                st['go%d' % i] = int(rng.random() < [0.5, 0.9, 0.1, 1][run % 4])
            stim.append(st)
            s.set(**st)
            now = []
            for i, t in enumerate(o.th):
                q = s.get(t.state)
                ins = any(e0 <= q < e1 for e0, e1 in t.sites)
                now.append(ins)
                if c and ins and not was[i]:
                    arrived[i] += 1
                if c and was[i] and not ins:
                    rounds[i] += 1
            stuck = stuck + 1 if all(now) else 0
            bad = c and any(rounds[i] > min(arrived) for i in range(n))
            if bad or stuck > 20 * n:
                iv = iverilog_run(o.text, 'top', stim, [t.state for t in o.th])[-1]
                rec.concrete('schedule search', dict(kind='schedule', call='%d threads at a barrier' % n, stimulus=stim, arrivals=arrived, departures=rounds,
                             stuck_cycles=stuck, iverilog_states=iv, verilog=o.text))
                return
            was = now
            s.step()


# -- shared variable ------------------------------------------------------------------

def u_shared(rec, n):
    rec.function('thread.ttypes.Shared.write', 'thread.ttypes.Shared.read')
    V, m, clk, rst = start()
    import veriloggen.thread as vthread
    v = m.Reg('v', 16, initval=5)
    w = m.Reg('w', 8, 4, initval=None) if False else None
    sh = vthread.Shared(v)
    th = []
    for i in range(n):
        fsm = V.FSM(m, 'th%d' % i, clk, rst)
        go = m.Input('go%d' % i)
        d = m.Input('d%d' % i, 16)
        sites = []
        for part in ((), (3,), ((11, 4),)):
            fsm.If(go).goto_next()
            sites.append((fsm.current, part))
            sh.write(fsm, d, *part)
        rec.holds('thread %d reads the variable itself' % i, sh.read(fsm) is v)
        fsm.goto_init()
        th.append((fsm.state.name, sites, 'd%d' % i))
    D = Design(m.to_verilog(), 'top')
    s = Sym(D, '', fix={'RST': 0})
    a = s.after("'")
    exp = s['v']
    for i, (stn, sites, dn) in enumerate(th):
        for q, part in sites:
            c = s[stn] == q
            d = s[dn]
            if not part:
                nv = d
            elif isinstance(part[0], int):
                nv = z3.Concat(z3.Extract(15, 4, exp), z3.Extract(0, 0, d), z3.Extract(2, 0, exp))
            else:
                nv = z3.Concat(z3.Extract(15, 12, exp), z3.Extract(7, 0, d), z3.Extract(3, 0, exp))
            exp = z3.If(c, nv, exp)
            rec.prove('thread %d: a write takes one cycle' % i, a[stn] == q + 1, [c])
    one = [z3.Not(z3.And(z3.Or(*[s[th[i][0]] == q for q, _ in th[i][1]]), z3.Or(*[s[th[j][0]] == q for q, _ in th[j][1]])))
           for i in range(n) for j in range(i)]
    rec.prove('writes reach the variable, and only writes do', a['v'] == exp, one)
    r = Sym(D, 'r', fix={'RST': 1}).after('r1')
    rec.prove('initial value after reset', r['v'] == 5)


def units(tier, seed):
    U = []
    th = tier == 'thorough'

    def add(nm, f, s, *args, **kw):
        U.append(Unit('%s %s' % (nm, ' '.join(str(a) for a in args)), lambda rec: f(rec, *args),
                      search=(lambda rec: s(rec, *args)) if s else None, **kw))
    for n in (2, 3, 4, 5) + ((8,) if th else ()):
        for how in ('plain', 'acquire', 'lockclass', 'shared', 'thread'):
            add('mutex', u_mutex, s_mutex, n, 32, how)
        add('mutex', u_mutex, s_mutex, n, 3 if n > 4 else 2, 'plain')
    add('mutex', u_mutex, s_mutex, 2, 1, 'plain')
    for n in (2, 3, 4, 5, 6, 7, 8, 9):
        for sites in (1, 2):
            if n > 5 and sites == 2 and not th:
                continue
            add('barrier', u_barrier, s_barrier, n, sites)
    for n in (1, 2, 3):
        add('shared', u_shared, None, n)
    return U


if __name__ == '__main__':
    main('C13', units, trusted=['lib/vsem.py Verilog-2005 semantics', 'pyverilog parser', 'z3'],
         assumptions=['the number of sharing threads is enumerated; their programs, states and schedules are not',
                      'ownership between completed lock and unlock follows from the step contracts by induction along the thread (pen and paper)',
                      'each thread runs on its own FSM with its own name; a barrier is used by exactly its declared number of threads'])
