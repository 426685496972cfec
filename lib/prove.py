"""Obligation bookkeeping: every unit of a check runs in its own process,
generates named obligations from /repo's current source and discharges them
with z3 (second opinion: cvc5).  See DESIGN.md for the reporting protocol."""
import vpath
import os, sys, json, time, glob, signal, traceback, subprocess, tempfile, multiprocessing, resource, select
import z3

Z3_VERSION = 'z3 ' + z3.get_version_string()


class Undecided(Exception):
    pass


class Rec(object):
    """What one unit did."""

    def __init__(self, tier, seed, unit):
        self.tier, self.seed, self.unit = tier, seed, unit
        self.obl = []            # (name, status, backend, seconds)
        self.covers = 0
        self.failures = []       # dict(name, kind, detail, concrete)
        self.functions = set()
        self.assumptions = set()
        self.bounded = []        # (function, bound, cases)
        self.samples = []
        self.solver_s = 0.0
        self.timeout_ms = 60000

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def function(self, *names):
        self.functions.update(names)

    def assume(self, *texts):
        self.assumptions.update(texts)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:1000])

    # -- solving
    def _check(self, fs, timeout_ms=None):
        """-> ('unsat'|'sat'|'unknown', model, backend)"""
        t0 = time.time()
        tmo = timeout_ms or self.timeout_ms
        s = z3.Solver()
        s.set('timeout', tmo)
        s.add(*fs)
        r = s.check()
        backend = Z3_VERSION
        model = s.model() if r == z3.sat else None
        res = str(r)
        if res == 'unknown':
            r2 = self._cvc5(s, tmo)
            if r2 is not None:
                res, backend = r2, 'cvc5 1.1.2'
                if r2 == 'sat':
                    t = z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat').solver()
                    t.set('timeout', tmo)
                    try:
                        t.add(*fs)
                        if t.check() == z3.sat:
                            model = t.model()
                    except z3.Z3Exception:
                        pass
        self.solver_s += time.time() - t0
        return res, model, backend

    def _cvc5(self, solver, tmo):
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        try:
            f.write(txt)
            f.close()
            p = subprocess.run(['cvc5', '--tlimit=%d' % tmo, f.name], capture_output=True, text=True,
                               timeout=tmo / 1000.0 + 20)
            out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
            return out if out in ('sat', 'unsat') else None
        except Exception:
            return None
        finally:
            os.unlink(f.name)

    def prove(self, name, claim, hyps=(), on_fail=None, timeout_ms=None, expect_cover=False):
        """One obligation: hyps => claim is valid.  on_fail(model) may return a
        concrete failing input of the real code (a JSON-able object)."""
        t0 = time.time()
        if isinstance(claim, bool):
            claim = z3.BoolVal(claim)
        hyps = [z3.BoolVal(h) if isinstance(h, bool) else h for h in hyps]
        res, model, backend = self._check(list(hyps) + [z3.Not(claim)], timeout_ms)
        dt = time.time() - t0
        if res == 'unsat':
            if self.thorough and dt < 20:
                s = z3.Solver()
                s.add(*hyps)
                s.add(z3.Not(claim))
                r2 = self._cvc5(s, 20000)
                if r2 == 'sat':
                    self.fail(name, 'undecided', 'z3 says unsat, cvc5 says sat')
                    return False
                if r2 == 'unsat':
                    backend += ' + cvc5 1.1.2'
            self.obl.append((name, 'discharged', backend, round(dt, 3)))
            return True
        concrete = None
        detail = 'solver: %s' % res
        if res == 'sat':
            if model is not None:
                detail += '\ncounterexample:\n' + model_text(model)
            if on_fail is not None and model is not None:
                try:
                    concrete = on_fail(model)
                except Exception:
                    detail += '\nreplay failed:\n' + traceback.format_exc()
        self.obl.append((name, 'refuted' if res == 'sat' else 'undecided', backend, round(dt, 3)))
        self.fail(name, 'refuted' if res == 'sat' else 'undecided', detail, concrete, add=False)
        return False

    def holds(self, name, cond, detail='', concrete=None):
        """An obligation the engine decides by evaluation (no free variable
        left after symbolic execution)."""
        self.obl.append((name, 'discharged' if cond else 'refuted', 'evaluation', 0.0))
        if not cond:
            self.fail(name, 'refuted', detail, concrete, add=False)
        return bool(cond)

    def cover(self, name, hyps):
        """Vacuity guard: the hypotheses must be satisfiable."""
        res, model, backend = self._check(list(hyps))
        if res == 'sat':
            self.covers += 1
            return True
        self.fail(name, 'vacuous', 'precondition unsatisfiable or unknown: %s' % res)
        return False

    def fail(self, name, kind, detail='', concrete=None, add=True):
        if add:
            self.obl.append((name, kind, '-', 0.0))
        self.failures.append(dict(name=name, kind=kind, detail=str(detail)[:20000], concrete=concrete))

    def concrete(self, name, what):
        """A failing input of the real code was found by running it."""
        self.failures.append(dict(name=name, kind='concrete', detail='', concrete=what))

    def ran(self, function, bound, cases):
        self.bounded.append((function, bound, cases))


def model_text(m, limit=200):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name())[:limit]:
        out.append('  %s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:300]))
    return '\n'.join(out)


class Unit(object):
    def __init__(self, name, fn, args=(), kwargs=None, timeout=600, search=None):
        """fn(rec, *args).  search(rec): bounded search for a failing input of
        the real code, run only when fn leaves an obligation open."""
        self.name, self.fn, self.args, self.kwargs = name, fn, args, kwargs or {}
        self.timeout, self.search = timeout, search


def _worker(unit, tier, seed, conn):
    os.setpgrp()
    rec = Rec(tier, seed, unit.name)
    t0 = time.time()
    try:
        d = tempfile.mkdtemp(prefix='verif_')
        os.chdir(d)
        try:
            unit.fn(rec, *unit.args, **unit.kwargs)
        except Exception as e:
            rec.fail('generate obligations', 'error', traceback.format_exc(),
                     getattr(e, 'concrete', None))
        if not rec.obl and not rec.failures and not rec.bounded:
            rec.fail('generate obligations', 'error', 'the unit generated no obligation')
        if any(f['concrete'] is None for f in rec.failures) and unit.search is not None:
            try:
                unit.search(rec)
            except Exception:
                rec.failures.append(dict(name='search', kind='searcherror',
                                         detail=traceback.format_exc(), concrete=None))
        os.chdir('/')
        subprocess.run(['rm', '-rf', d])
        out = dict(unit=unit.name, obl=rec.obl, covers=rec.covers, failures=rec.failures,
                   functions=sorted(rec.functions), assumptions=sorted(rec.assumptions),
                   bounded=rec.bounded, samples=rec.samples, solver_s=rec.solver_s,
                   wall=time.time() - t0)
    except BaseException:
        out = dict(unit=unit.name, obl=[], covers=0, functions=[], assumptions=[], bounded=[], samples=[],
                   solver_s=0, wall=time.time() - t0,
                   failures=[dict(name='worker', kind='error', detail=traceback.format_exc(), concrete=None)])
    try:
        conn.send_bytes(json.dumps(out, default=str).encode())
        conn.close()
    except Exception:
        pass
    sys.stdout.flush()
    os._exit(0)


def run_units(units, tier, seed, jobs=8, budget=840, verbose=False):
    import vsem
    vsem.parse('module __warm(); endmodule')     # parser tables are built once, before forking
    ctx = multiprocessing.get_context('fork')
    pending = list(units)
    running = []
    results = []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(u, tier, seed, w))
            p.start()
            w.close()
            running.append((u, p, r, time.time()))
        ready = multiprocessing.connection.wait([r for _, _, r, _ in running], timeout=1.0)
        keep = []
        for u, p, r, st in running:
            out = None
            if r in ready:
                try:
                    out = json.loads(r.recv_bytes().decode())
                except (EOFError, OSError):
                    out = _lost(u, 'the worker died')
            elif time.time() - st > u.timeout or time.time() - t0 > budget:
                out = _lost(u, 'time limit (%d s)' % (time.time() - st))
            if out is None:
                keep.append((u, p, r, st))
            else:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    try:
                        p.kill()
                    except Exception:
                        pass
                p.join(5)
                results.append(out)
                if verbose:
                    bad = [f['name'] for f in out['failures']]
                    print('  unit %-50s %4d obl %6.1fs %s' % (u.name, len(out['obl']), out['wall'], bad or ''), flush=True)
        running = keep
    return results


def _lost(u, why):
    return dict(unit=u.name, obl=[('unit', 'undecided', '-', 0)], covers=0, functions=[], assumptions=[], bounded=[],
                samples=[], solver_s=0, wall=u.timeout,
                failures=[dict(name='unit', kind='undecided', detail=why, concrete=None)])


def known_findings():
    p = os.path.join(vpath.VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main(pid, units, trusted, assumptions=(), level='proof', jobs=8):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(sys.argv[1:])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    us = units(a.tier, seed) if callable(units) else units
    if a.only:
        us = [u for u in us if a.only in u.name]
    budget = 840 if a.tier == 'quick' else 3600
    res = run_units(us, a.tier, seed, jobs=jobs, budget=budget, verbose=a.v)
    res.sort(key=lambda r: r['unit'])
    obl = [(r['unit'],) + tuple(o) for r in res for o in r['obl']]
    disch = [o for o in obl if o[2] == 'discharged']
    fails = [dict(f, unit=r['unit']) for r in res for f in r['failures']]
    kf = [k for k in known_findings()['findings'] if k['property'] == pid]
    new, listed = [], []
    for f in fails:
        hit = [k for k in kf if k['unit'] == f['unit'] and f['name'] == k['name']]
        (listed if hit else new).append((f, hit))
    backends = {}
    for o in disch:
        backends[o[3]] = backends.get(o[3], 0) + 1
    cov = dict(
        obligations=len(obl), discharged=len(disch),
        checker_cmd='python3-vt /verif/checks/%s.py --tier %s' % (pid.lower(), a.tier),
        trusted_base=sorted(set(trusted)),
        units=len(res), vacuity_covers=sum(r['covers'] for r in res),
        back_ends=backends, solver_time_s=round(sum(r['solver_s'] for r in res), 2),
        functions_under_contract=sorted(set(x for r in res for x in r['functions'])),
        bounded_standins=[dict(function=b[0], bound=b[1], cases=b[2]) for r in res for b in r['bounded']],
        samples=[s for r in res for s in r['samples']][:5],
        open_obligations=['%s: %s (%s)' % (f['unit'], f['name'], f['kind']) for f in fails][:50],
    )
    ev = dict(property=pid, tier=a.tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(set(assumptions) | set(x for r in res for x in r['assumptions'])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(vpath.VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(vpath.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for f, hit in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
    print('%s: %d obligations, %d discharged, %d units, %.1f s' % (pid, len(obl), len(disch), len(res), time.time() - t0))
    rc = 0
    for old in glob.glob(os.path.join(vpath.VERIF, 'out', 'replay', pid + '-*.json')):
        os.unlink(old)
    if not obl:
        new.append((dict(unit='-', name='zero obligations', kind='error', detail='', concrete=None), []))
    if new:
        rd = os.path.join(vpath.VERIF, 'out', 'replay')
        os.makedirs(rd, exist_ok=True)
        # one line per failing unit; replayed ones first
        withc = [f for f, _ in new if f['concrete'] is not None]
        rest = [f for f, _ in new if f['concrete'] is None]
        seen = set()
        n = 0
        for f in withc + rest:
            if f['concrete'] is None and (f['unit'] in seen or withc):
                continue
            if f['unit'] in seen:
                continue
            seen.add(f['unit'])
            path = os.path.join(rd, '%s-%d.json' % (pid, n))
            n += 1
            with open(path, 'w') as g:
                json.dump(dict(property=pid, unit=f['unit'], failed_obligation=f['name'], kind=f['kind'],
                               failing_input=f['concrete'], verifier_output=f['detail'],
                               rerun='cd /verif && python3-vt checks/%s.py -v --only "%s"' % (pid.lower(), f['unit'])),
                          g, indent=1, default=str)
            print('VIOLATION property=%s replay=%s%s' % (
                pid, path, '' if f['concrete'] is not None else ' no-failing-input-found'))
            if n >= 10:
                break
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
