"""Working with emitted RTL: concrete simulation with vsem and with iverilog,
bounded search for a failing history, and helpers for inductive proofs."""
import vpath
import os, random, subprocess, tempfile, shutil, time
import z3
import vsem
from vsem import Design, Z3Alg, IntAlg, IV


class Sim(object):
    """Cycle-accurate concrete simulation of a Design (vsem, IntAlg)."""

    def __init__(self, design, default=0, clk='CLK'):
        self.d = design
        self.alg = IntAlg()
        self.state = design.initial_state(self.alg, default=default)
        self.inp = {n: IV(0, d.width) for n, d in design.inputs.items() if not d.dims}
        for n, d in design.inputs.items():
            if d.dims:
                self.inp[n] = {'default': IV(0, d.width)}
        self.trace = []
        self._ctx = None

    def set(self, **kw):
        for k, v in kw.items():
            d = self.d.inputs[k]
            self.inp[k] = IV(v, d.width)
        self._ctx = None

    @property
    def ctx(self):
        if self._ctx is None:
            env = dict(self.inp)
            env.update(self.state)
            self._ctx = self.d.ctx(self.alg, env)
        return self._ctx

    def get(self, n):
        v = self.ctx.val(n)
        return v.v

    def gets(self, n):
        return self.ctx.val(n).s()

    def step(self):
        nxt = self.ctx.next()
        self.trace.append({k: v.v for k, v in self.inp.items() if isinstance(v, IV)})
        self.state = nxt
        self._ctx = None


def iverilog_run(text, top, stimulus, observe, clk='CLK', iports=None, workdir=None, defparam=''):
    """Simulate with iverilog.  stimulus: list of {input: int} (one per cycle);
    observe: list of hierarchical names read just before each clock edge.
    -> list of {name: int or None if x}"""
    d = tempfile.mkdtemp(prefix='ivsim_')
    try:
        D = Design(text, top)
        tb = ['`timescale 1ns/1ps', 'module __tb;', '  reg %s = 0;' % clk]
        ins = [n for n in D.iports if n != clk]
        for n in ins:
            dd = D.decls[n]
            tb.append('  reg %s[%d:%d] %s = 0;' % ('signed ' if dd.signed else '', dd.msb, dd.lsb, n))
        conns = ['.%s(%s)' % (n, n) for n in ins + ([clk] if clk in D.iports else [])]
        tb.append('  %s dut(%s);' % (top, ', '.join(conns)))
        tb.append('  initial begin')
        for i, st in enumerate(stimulus):
            for n, v in st.items():
                if n == clk:
                    continue
                w = D.decls[n].width
                tb.append("    %s = %d'h%x;" % (n, w, v & ((1 << w) - 1)))
            tb.append('    #4;')
            for o in observe:
                tb.append('    $display("OBS %d %s %%b", dut.%s);' % (i, o, o))
            tb.append('    #1 %s = 1; #5 %s = 0;' % (clk, clk))
        tb.append('    $finish;')
        tb.append('  end')
        tb.append('endmodule')
        p = os.path.join(d, 't.v')
        with open(p, 'w') as f:
            f.write('\n'.join(tb) + '\n' + text + '\n')
        r = subprocess.run(['iverilog', '-g2005', '-o', os.path.join(d, 'a.out'), '-s', '__tb', p],
                           capture_output=True, text=True, cwd=d, timeout=120)
        if r.returncode != 0:
            raise RuntimeError('iverilog: ' + r.stderr[:2000] + r.stdout[:500])
        r = subprocess.run(['vvp', '-n', os.path.join(d, 'a.out')], capture_output=True, text=True, cwd=d, timeout=120)
        out = [dict() for _ in stimulus]
        for line in r.stdout.split('\n'):
            if line.startswith('OBS '):
                _, i, o, b = line.split()
                out[int(i)][o] = int(b, 2) if set(b) <= {'0', '1'} else None
        return out
    finally:
        shutil.rmtree(d, True)


def crosscheck(text, top, cycles=60, seed=1, clk='CLK', rst='RST', observe=None, fixed=None):
    """vsem against iverilog on a random history; -> list of mismatches.
    x in iverilog matches anything."""
    rng = random.Random(seed)
    D = Design(text, top)
    if observe is None:
        observe = list(D.oports)
    ins = [n for n in D.iports if n != clk]
    stim = []
    for c in range(cycles):
        st = {}
        for n in ins:
            w = D.decls[n].width
            if n == rst:
                st[n] = 1 if c < 2 or rng.random() < 0.02 else 0
            else:
                r = rng.random()
                st[n] = (rng.getrandbits(w) if r < 0.6 else rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(min(w, 3))]))
            if fixed and n in fixed:
                st[n] = fixed[n]
        stim.append(st)
    iv = iverilog_run(text, top, stim, observe, clk)
    s = Sim(D)
    bad = []
    for c, st in enumerate(stim):
        s.set(**st)
        for o in observe:
            e = iv[c].get(o)
            g = s.get(o)
            if e is not None and e != g:
                bad.append((c, o, e, g))
        s.step()
    return bad


def bv(v, w):
    return z3.BitVecVal(v, w)


class Sym(object):
    """One symbolic step of a design: s.pre(name), s.post(name), s.wire(name)."""

    def __init__(self, design, suffix='', alg=None, fix=None, state=None):
        self.d = design
        self.alg = alg or Z3Alg()
        self.state = state if state is not None else design.sym_state(self.alg, suffix)
        self.inputs = design.sym_inputs(self.alg, suffix)
        if fix:
            for k, v in fix.items():
                self.inputs[k] = z3.BitVecVal(v, design.inputs[k].width) if isinstance(v, int) else v
        env = dict(self.inputs)
        env.update(self.state)
        self.env = env
        self.ctx = design.ctx(self.alg, env)
        self._next = None
        self._postctx = None

    def __getitem__(self, n):
        return self.ctx.val(n)

    def t(self, n):
        """truth of a signal as a Bool"""
        return self.alg.truth(self.ctx.val(n))

    @property
    def next(self):
        if self._next is None:
            self._next = self.ctx.next()
        return self._next

    def after(self, suffix="'", fix=None):
        """the following cycle, with fresh inputs"""
        return Sym(self.d, suffix, self.alg, fix, state=self.next)


def bmc(design, cycles, bad, rst='RST', reset_cycles=1, hyp=None, timeout_ms=60000, default=None):
    """Bounded search from reset: bad(k, syms) -> Bool that is a violation in
    cycle k.  -> list of input dicts, or None."""
    alg = Z3Alg()
    st = design.initial_state(alg, default)
    syms = []
    sol = z3.Solver()
    sol.set('timeout', timeout_ms)
    for k in range(cycles):
        fix = {}
        if rst is not None and rst in design.inputs:
            fix[rst] = 1 if k < reset_cycles else 0
        s = Sym(design, '#%d' % k, alg, fix, state=st)
        syms.append(s)
        if hyp is not None and k >= reset_cycles:
            for h in hyp(k, syms):
                sol.add(h)
        if k >= reset_cycles:
            b = bad(k, syms)
            if b is not None:
                sol.push()
                sol.add(b)
                r = sol.check()
                if r == z3.sat:
                    m = sol.model()
                    out = []
                    for q in syms:
                        out.append({n: m.eval(v, model_completion=True).as_long()
                                    for n, v in q.inputs.items() if not design.inputs[n].dims})
                    return out
                sol.pop()
        st = s.next
    return None


def history_search(text, top, model_factory, gen, cycles=400, runs=8, seed=1, default=0, clk='CLK', confirm=True,
                   time_limit=60):
    """Bounded search for a failing history: run the design (vsem, concrete)
    against a reference model.  model: .outputs(inputs) -> {name: expected},
    called before the edge; .step(inputs) at the edge.  gen(rng, c, D) -> inputs.
    A mismatch is confirmed with iverilog.  -> concrete failing input or None"""
    D = Design(text, top)
    t0 = time.time()
    for r in range(runs):
        rng = random.Random(seed * 1000 + r)
        s = Sim(D, default=default)
        m = model_factory()
        stim = []
        for c in range(cycles):
            if time.time() - t0 > time_limit:
                return None
            st = gen(rng, c, D)
            stim.append(st)
            s.set(**{k: v for k, v in st.items() if k in D.inputs})
            exp = m.outputs(st)
            for o, e in exp.items():
                g = s.get(o)
                if e is not None and g != e:
                    rep = dict(kind='history', top=top, observe=o, cycle=c, expected=e, got=g,
                               stimulus=stim, verilog=text)
                    if confirm:
                        try:
                            iv = iverilog_run(text, top, stim, [o], clk)
                            rep['iverilog'] = iv[c].get(o)
                            if iv[c].get(o) == e:
                                rep = None
                        except Exception as ex:
                            rep['iverilog'] = 'not run: %s' % ex
                    if rep is not None:
                        return rep
                    return None
            m.step(st)
            s.step()
    return None
