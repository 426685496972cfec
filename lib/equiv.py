"""Two Verilog texts compared: same interface, same sensitivity, and (z3) the
same outputs and next state for every state and input.  A difference is
replayed in iverilog from the counterexample's state."""
import vpath
import os, random, re, shutil, subprocess, tempfile
import z3
import vsem
from vsem import Design, Z3Alg, Unsupported
import pyverilog.vparser.ast as va


class FixedX(Z3Alg):
    """both sides of a comparison read the same value for x"""

    def fresh(self, w, hint='x'):
        return z3.BitVecVal(int('10110' * (w // 5 + 1), 2) & ((1 << w) - 1), w)

    def mem_var(self, name, iw, w):
        return z3.Array(name, z3.BitVecSort(iw), z3.BitVecSort(w))


# ------------------------------------------------------------ normal form --
_SKIP = ('lineno', 'coord')


def cfold(n):
    """a constant range bound: its value, else its normal form"""
    if isinstance(n, va.Rvalue):
        return cfold(n.var)
    if isinstance(n, va.IntConst) and n.value.replace('_', '').isdigit():
        return int(n.value.replace('_', ''))
    if isinstance(n, (va.Plus, va.Minus, va.Times)):
        a, b = cfold(n.left), cfold(n.right)
        if isinstance(a, int) and isinstance(b, int):
            return a + b if isinstance(n, va.Plus) else a - b if isinstance(n, va.Minus) else a * b
    return nf(n)


def nf(n):
    """normal form of an AST: unnamed blocks flattened, single statement blocks
    opened, declaration lists split"""
    if n is None or isinstance(n, (str, int, bool, float)):
        return n
    if isinstance(n, (list, tuple)):
        return tuple(nf(x) for x in n)
    if isinstance(n, va.Block):
        out = []
        for s in n.statements or ():
            f = nf(s)
            if isinstance(f, tuple) and f and f[0] == 'Block' and f[1] is None:
                out += list(f[2])
            elif f == ('Block', None, ()):
                pass
            else:
                out.append(f)
        if n.scope is None and len(out) == 1:
            return out[0]
        return ('Block', n.scope, tuple(out))
    if isinstance(n, (va.Lvalue, va.Rvalue)):
        return nf(n.var)
    if isinstance(n, va.IntConst):
        t = n.value.replace('_', '').replace(' ', '').lower()
        return ('IntConst', t)
    if isinstance(n, (va.Width, va.Length)):
        return (type(n).__name__, cfold(n.msb), cfold(n.lsb))
    name = type(n).__name__
    attrs = tuple(nf(getattr(n, a)) for a in getattr(n, 'attr_names', ()) if a not in _SKIP)
    kids = []
    for k, v in sorted(n.__dict__.items()):
        if k in _SKIP or k in getattr(n, 'attr_names', ()) or k == 'end_lineno':
            continue
        kids.append((k, nf(v)))
    return (name, attrs, tuple(kids))


def modules(text):
    return {d.name: d for d in vsem.parse(text).description.definitions if isinstance(d, va.ModuleDef)}


def flat_items(mod):
    out = []
    for it in mod.items or ():
        if isinstance(it, va.Decl):
            out += list(it.list)
        else:
            out.append(it)
    return out


def norm_module(mod):
    ports = tuple(nf(p) for p in (mod.portlist.ports if mod.portlist else ()))
    params = tuple(nf(p) for d in (mod.paramlist.params if mod.paramlist else ()) for p in (d.list if isinstance(d, va.Decl) else [d]))
    items = flat_items(mod)
    decls = tuple(nf(i) for i in items if isinstance(i, (va.Variable, va.Parameter, va.Localparam, va.Genvar)))
    rest = tuple(nf(i) for i in items if not isinstance(i, (va.Variable, va.Parameter, va.Localparam, va.Genvar)))
    return dict(name=mod.name, ports=ports, params=params, decls=tuple(sorted(decls, key=repr)), items=rest)


def same_ast(a, b):
    ma, mb = modules(a), modules(b)
    if sorted(ma) != sorted(mb):
        return 'modules %s, expected %s' % (sorted(ma), sorted(mb))
    for n in ma:
        x, y = norm_module(ma[n]), norm_module(mb[n])
        for k in x:
            if x[k] != y[k]:
                for u, v in list(zip(x[k], y[k])) + [(x[k], y[k])]:
                    if u != v:
                        return 'module %s, %s: %s, expected %s' % (n, k, str(u)[:600], str(v)[:600])
    return None


def interface(D):
    """ports and state elements of an elaborated design"""
    out = {}
    for n, d in D.decls.items():
        k = 'port ' + d.kind if '.' not in n and d.kind in ('input', 'output', 'inout') else 'net'
        out[n] = (k, d.msb, d.lsb, d.signed, tuple(d.dims), bool(getattr(d, 'isreg', False)))
    return out


def sens(D_text):
    out = {}
    for n, m in modules(D_text).items():
        out[n] = [tuple(sorted((s.type, repr(nf(s.sig))) for s in it.sens_list.list)) for it in _always(m.items)]
    return out


def _always(items):
    for it in items or ():
        if isinstance(it, va.Always):
            yield it
        elif isinstance(it, va.GenerateStatement):
            for x in _always(it.items):
                yield x
        elif isinstance(it, va.Block):
            for x in _always(it.statements):
                yield x
        elif isinstance(it, va.IfStatement):
            for x in _always([it.true_statement, it.false_statement]):
                yield x
        elif isinstance(it, va.ForStatement):
            for x in _always([it.statement]):
                yield x


def replay_state(text, top, state, inputs, observe, clk):
    """iverilog: registers and inputs set, one clock edge; observed before and after"""
    d = tempfile.mkdtemp(prefix='ivst_')
    try:
        D = Design(text, top)
        tb = ['`timescale 1ns/1ps', 'module __tb;', '  reg __c = 0;']
        ins = [n for n in D.iports if n != clk]
        for n in ins:
            dd = D.decls[n]
            tb.append('  reg %s[%d:%d] %s = 0;' % ('signed ' if dd.signed else '', dd.msb, dd.lsb, n))
        conn = ['.%s(%s)' % (n, n) for n in ins] + (['.%s(__c)' % clk] if clk in D.iports else [])
        tb += ['  %s dut(%s);' % (top, ', '.join(conn)), '  initial begin', '    #1;']
        for n, v in state.items():
            if n in D.decls and not D.decls[n].dims and n not in D.iports:
                tb.append("    dut.%s = %d'h%x;" % (n, D.decls[n].width, v))
        for n in ins:
            if n in inputs:
                tb.append("    %s = %d'h%x;" % (n, D.decls[n].width, inputs[n]))
        tb.append('    #3;')
        for k in (0, 1):
            for o in observe:
                tb.append('    $display("OBS %d %s %%b", dut.%s);' % (k, o, o))
            if k == 0:
                tb.append('    __c = 1; #3;')
        tb += ['    $finish;', '  end', 'endmodule']
        p = os.path.join(d, 't.v')
        with open(p, 'w') as f:
            f.write('\n'.join(tb) + '\n' + text + '\n')
        r = subprocess.run(['iverilog', '-g2005', '-o', os.path.join(d, 'a.out'), '-s', '__tb', p], capture_output=True, text=True, cwd=d, timeout=60)
        if r.returncode:
            return {'error': (r.stderr + r.stdout)[:800]}
        r = subprocess.run(['vvp', '-n', os.path.join(d, 'a.out')], capture_output=True, text=True, cwd=d, timeout=60)
        out = {}
        for l in r.stdout.split('\n'):
            if l.startswith('OBS '):
                _, k, o, b = l.split()
                out['%s %s' % ('before' if k == '0' else 'after', o)] = b
        return out
    except Exception as ex:
        return {'error': repr(ex)[:800]}
    finally:
        shutil.rmtree(d, True)


def trace(text, top, extra='', seconds=30):
    """output of a self-contained simulation"""
    d = tempfile.mkdtemp(prefix='ivtr_')
    try:
        p = os.path.join(d, 't.v')
        with open(p, 'w') as f:
            f.write(text + '\n' + extra)
        r = subprocess.run(['iverilog', '-g2005', '-o', os.path.join(d, 'a.out'), '-s', top, p], capture_output=True, text=True, cwd=d, timeout=60)
        if r.returncode:
            return 'iverilog: ' + (r.stderr + r.stdout)[:800]
        r = subprocess.run(['vvp', '-n', os.path.join(d, 'a.out')], capture_output=True, text=True, cwd=d, timeout=seconds)
        return re.sub(r'.*\$finish called.*\n', '', r.stdout)
    except subprocess.TimeoutExpired:
        return 'simulation does not end'
    finally:
        shutil.rmtree(d, True)


def random_history(a, b, top, clk, seed, cycles=60):
    """-> first difference of the observable signals in iverilog, or None"""
    from rtl import iverilog_run
    DA, DB = Design(a, top), Design(b, top)
    obs = [n for n in DB.decls if n in DA.decls and '[' not in n and not DB.decls[n].dims]
    rng = random.Random(seed)
    stim = []
    for c in range(cycles):
        st = {}
        for n in DB.iports:
            if n == clk:
                continue
            w = DB.decls[n].width
            st[n] = (1 if c < 2 else 0) if n.lower() in ('rst', 'reset') else rng.choice([rng.getrandbits(w), rng.getrandbits(w), 0, (1 << w) - 1])
        stim.append(st)
    u, v = iverilog_run(a, top, stim, obs, clk), iverilog_run(b, top, stim, obs, clk)
    for i, (x, y) in enumerate(zip(u, v)):
        d = {n: (x.get(n), y.get(n)) for n in obs if x.get(n) != y.get(n)}
        if d:
            return dict(cycle=i, inputs=stim[:i + 1][-5:], difference={n: 'emitted %s, expected %s' % p for n, p in d.items()})
    return None


def compare(rec, name, a, b, top, what=None, ignore=(), decls=True, params=None, sensitivity=True):
    """a: emitted text (or an exception), b: reference text.  One obligation per
    interface, output and state element."""
    info = dict(kind='module', described=what, expected=b[:3000])
    if isinstance(a, Exception):
        return rec.holds('%s: the module is emitted' % name, False, repr(a), dict(info, error=repr(a)[:800]))
    info['emitted'] = a[:4000]
    try:
        DB = Design(b, top, params)
    except Unsupported as ex:
        return fallback(rec, name, a, b, top, info, 'reference: %r' % ex)
    try:
        DA = Design(a, top, params)
    except Unsupported as ex:
        return fallback(rec, name, a, b, top, info, 'emitted: %r' % ex)
    except Exception as ex:
        return rec.holds('%s: legal Verilog' % name, False, repr(ex), dict(info, error='not legal Verilog: %r' % (str(ex)[:500],)))
    ok = True
    ia, ib = interface(DA), interface(DB)
    if decls:
        ok &= rec.holds('%s: ports in order' % name, (DA.iports, DA.oports) == (DB.iports, DB.oports), '', dict(info, ports=[DA.iports, DA.oports]))
        diff = {n: (ia.get(n), ib.get(n)) for n in set(ia) | set(ib) if ia.get(n) != ib.get(n) and n not in ignore}
        ok &= rec.holds('%s: declarations' % name, not diff, str(diff), dict(info, declarations={n: 'emitted %s, expected %s' % p for n, p in diff.items()}))
        sa, sb = (sens(a), sens(b)) if sensitivity else (None, None)
        ok &= rec.holds('%s: sensitivity' % name, sa == sb, '%s / %s' % (sa, sb), dict(info, sensitivity='emitted %s, expected %s' % (sa, sb)))
    if not ok:
        return False
    alg = FixedX()
    env = {}
    for D in (DB, DA):
        for n, d in list(D.state.items()) + list(D.inputs.items()):
            if n not in env:
                env[n] = alg.mem_var(n, d.iw, d.width) if d.dims else z3.BitVec(n, d.width)
    clk = sorted(DB.clocks)[0] if DB.clocks else ''

    def cex(model):
        val = {n: model.eval(v, model_completion=True).as_long() for n, v in env.items() if z3.is_bv(v)}
        obs = [n for n in DB.decls if n in DA.decls and '[' not in n and not DB.decls[n].dims]
        st = {n: val[n] for n in DB.state if n in val}
        inp = {n: val[n] for n in DB.inputs if n in val}
        u, v = (replay_state(t, top, st, inp, obs, clk) for t in (a, b))
        if u != v and 'error' not in v:
            return dict(info, state=st, inputs=inp, difference={k: 'emitted gives %s, expected %s' % (u.get(k), v[k]) for k in v if u.get(k) != v[k]},
                        error=u.get('error'))
        h = random_history(a, b, top, clk, 7)
        return dict(info, **h) if h else None

    try:
        ca, cb = DA.ctx(alg, dict(env)), DB.ctx(alg, dict(env))
        for n in DB.decls:
            if n in DB.inputs or n in DB.state or DB.decls[n].dims or n in ignore or n not in DA.decls:
                continue
            ok &= rec.prove('%s: %s' % (name, n), ca.val(n) == cb.val(n), on_fail=cex)
        na, nb = ca.next(), cb.next()
        for n in nb:
            if n in na:
                ok &= rec.prove('%s: next %s' % (name, n), na[n] == nb[n], on_fail=cex)
            else:
                ok &= rec.prove('%s: next %s' % (name, n), nb[n] == env[n], on_fail=cex)
        if DA.initials or DB.initials:
            xa, xb = DA.initial_state(alg), DB.initial_state(alg)
            for n in xb:
                if n in xa:
                    ok &= rec.prove('%s: initial %s' % (name, n), xa[n] == xb[n], on_fail=cex)
    except Unsupported as ex:
        return fallback(rec, name, a, b, top, info, 'semantics: %r' % ex)
    return ok


def fallback(rec, name, a, b, top, info, why, tb=''):
    """constructs outside the RTL semantics: the syntax trees agree; if not, the
    two texts are run"""
    try:
        d = same_ast(a, b)
    except Exception as ex:
        return rec.holds('%s: legal Verilog' % name, False, repr(ex), dict(info, error='not legal Verilog: %r' % (str(ex)[:500],)))
    conc = None
    if d is not None:
        u, v = trace(a, top, tb), trace(b, top, tb)
        if u != v:
            conc = dict(info, difference=d, simulation_of_emitted=u[:2000], simulation_of_expected=v[:2000])
        elif not tb:
            try:
                h = random_history(a, b, top, 'CLK', 3)
                conc = dict(info, **h) if h else None
            except Exception:
                pass
        if conc is None:
            conc = dict(info, difference=d) if ('modules ' in d or ', ports' in d or ', decls' in d or ', params' in d) else None
    return rec.holds('%s: same statements (syntax tree)' % name, d is None, '%s (%s)' % (d, why), conc)
