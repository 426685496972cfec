"""The meaning of call chains on Seq and FSM objects, written from the
documentation and independently of the implementation, as reference Verilog;
and the equivalence of two modules whose helper registers only remember the
last few cycles."""
import vpath
import random
import z3
import vsem
from vsem import Design, Z3Alg, Unsupported
from equiv import FixedX, interface, sens, random_history, modules, fallback


# --------------------------------------------------------- the equivalence --
def streams(rec, name, a, b, top, visible, depth, what=None, group=None, rst='RST', decls=True, params=None):
    """a: emitted text or an exception, b: reference text.  Registers outside
    `visible` are helpers of either side; started from arbitrary and unrelated
    values, `depth` cycles of arbitrary inputs and arbitrary values of the visible
    registers must make both sides agree on every output and on the next value of
    every visible register.  As the helpers of a real history are one instance of
    that, the sides agree in every cycle of every history."""
    info = dict(kind='module', described=what, expected=b[:3000])
    if isinstance(a, Exception):
        return rec.holds('%s: the module is emitted' % name, False, repr(a), dict(info, error=repr(a)[:800]))
    info['emitted'] = a[:6000]
    DB = Design(b, top, params)
    try:
        DA = Design(a, top, params)
    except Unsupported as ex:
        return fallback(rec, name, a, b, top, info, 'emitted: %r' % ex)
    except Exception as ex:
        return rec.holds('%s: legal Verilog' % name, False, repr(ex), dict(info, error='not legal Verilog: %r' % (str(ex)[:500],)))
    ok = True
    ia, ib = interface(DA), interface(DB)
    ok &= rec.holds('%s: ports in order' % name, (DA.iports, DA.oports) == (DB.iports, DB.oports), '', dict(info, ports=[DA.iports, DA.oports]))
    diff = {n: (ia.get(n), ib.get(n)) for n in visible if ia.get(n) != ib.get(n)} if decls else {}
    ok &= rec.holds('%s: declarations' % name, not diff, str(diff), dict(info, declarations={n: 'emitted %s, expected %s' % p for n, p in diff.items()}))
    ca, cb = DA.clocks, DB.clocks
    ok &= rec.holds('%s: clocked alike' % name, sorted(ca) == sorted(cb), '%s / %s' % (ca, cb), dict(info, clocks='%s, expected %s' % (sorted(ca), sorted(cb))))
    if not ok:
        return False
    clk = sorted(DB.clocks)[0] if DB.clocks else ''
    alg = FixedX()

    def var(d, n):
        return alg.mem_var(n, d.iw, d.width) if d.dims else z3.BitVec(n, d.width)
    hid = [{n: var(d, 'A!' + n) for n, d in DA.state.items() if n not in visible},
           {n: var(d, 'B!' + n) for n, d in DB.state.items() if n not in visible}]
    memo = []

    def cex(model):
        if not memo:
            for seed in range(1, 9):
                memo.append(random_history(a, b, top, clk, seed, 150))
                if memo[-1]:
                    break
        return dict(info, **memo[-1]) if memo[-1] else None

    try:
        for k in range(depth + 1):
            com = {n: var(d, '%s@%d' % (n, k)) for n, d in list(DB.inputs.items()) + list(DB.state.items()) if n in visible or n in DB.inputs}
            cs, ns = [], []
            for D, h in ((DA, hid[0]), (DB, hid[1])):
                env = {n: v for n, v in com.items() if n in D.state or n in D.inputs}
                env.update(h)
                c = D.ctx(alg, env)
                cs.append(c)
                ns.append(c.next())
            hid = [{n: ns[i].get(n, h[n]) for n in h} for i, h in enumerate(hid)]
        for n in DB.decls:
            if n in DB.inputs or n in DB.state or DB.decls[n].dims or n not in DA.decls or (n not in visible and n not in DB.oports):
                continue
            ok &= rec.prove('%s: %s' % (name, n), cs[0].val(n) == cs[1].val(n), on_fail=cex)
        for n in visible:
            if n in DB.state:
                x = ns[0].get(n, com[n])
                y = ns[1].get(n, com[n])
                ok &= rec.prove('%s: next %s' % (name, n), x == y, on_fail=cex)
    except Unsupported as ex:
        return fallback(rec, name, a, b, top, info, 'semantics: %r' % ex)
    return ok


# --------------------------------------------------------------- the ghost --
def conj(*cs):
    cs = [c for c in cs if c is not None]
    if not cs:
        return None
    if len(cs) == 1:
        return cs[0]
    return '(' + ' && '.join(cs) + ')'


class Chain(object):
    """what conditions the next statement has: `pend` is the pending condition,
    `chain` the if/elif/else chain the previous statement belongs to"""

    def __init__(self):
        self.pend, self.opts, self.chain = None, {}, []

    def copy(self):
        c = Chain()
        c.pend, c.opts, c.chain = self.pend, dict(self.opts), list(self.chain)
        return c

    def head(self, op, args=()):
        if op == 'If':
            self.pend = conj(self.pend, *args)
            self.chain = [self.pend]
        elif op == 'Else':
            self.chain[-1] = '(!%s)' % self.chain[-1]
            self.pend = conj(*self.chain)
        elif op == 'Elif':
            self.chain[-1] = '(!%s)' % self.chain[-1]
            self.chain.append(conj(*args))
            self.pend = conj(*self.chain)
        elif op == 'Then':
            self.pend = conj(self.pend, *self.chain)
            self.chain = [self.pend]
        elif op == 'Clear':
            self.pend, self.opts, self.chain = None, {}, []
        else:                                    # Delay, Keep, LazyCond, EagerVal, When
            self.opts[op] = args[0] if args else True

    def take(self):
        r = self.pend, self.opts
        self.pend, self.opts = None, {}
        return r


class Ref(object):
    """reference clocked block: statements by delay, hidden chains, resets"""

    def __init__(self, prefix, clk='CLK', rst='RST'):
        self.prefix, self.clk, self.rst = prefix, clk, rst
        self.n = 0
        self.decl, self.chains, self.late, self.now, self.resets = [], [], {}, [], []
        self.depth = 0

    def hidden(self, first, n, width=None, signed=False):
        self.depth = max(self.depth, n)
        prev = first
        for i in range(n):
            r = 'gh_%s_%d' % (self.prefix, self.n)
            self.n += 1
            self.decl.append('  reg %s%s %s;' % ('signed ' if signed else '', '[%d-1:0]' % width if width else '', r))
            self.chains.append('%s <= %s;' % (r, prev))
            self.resets.append('%s <= 0;' % r)
            prev = r
        return prev

    def stmt(self, cond, opts, subs, where=None):
        """subs: (left, right, width, signed) plain assignments, or (text,)"""
        for i in range(opts.get('Keep', 1)):
            d = opts.get('Delay', 0) + i
            c = cond
            if d == 0:
                c = conj(where, c)
                lines = [self.plain(s) for s in subs]
                self.now.append('if(%s) begin %s end' % (c, ' '.join(lines)) if c is not None else ' '.join(lines))
                continue
            lines = []
            for s in subs:
                if opts.get('EagerVal') and len(s) == 4 and not s[1].replace("'d", '').isdigit():
                    s = (s[0], self.hidden(s[1], d, s[2], s[3])) + tuple(s[2:])
                lines.append(self.plain(s))
            if opts.get('LazyCond'):
                t = self.hidden(conj(where, "1'd1") if where else "1'd1", d)
                c = conj(t, c)
            else:
                c = self.hidden("((%s) ? 1'd1 : 1'd0)" % (conj(where, c) or "1'd1"), d)
            self.late.setdefault(d, []).append('if(%s) begin %s end' % (c, ' '.join(lines)))

    def plain(self, s):
        return s[0] if len(s) == 1 else '%s <= %s;' % (s[0], s[1])

    def text(self, resets=(), pre=()):
        body = list(pre) + list(self.chains)
        for d in sorted(self.late, reverse=True):
            body += self.late[d]
        body += self.now
        rs = list(resets) + self.resets
        out = list(self.decl) + ['  always @(posedge %s) begin' % self.clk]
        if self.rst and rs:
            out += ['    if(%s) begin' % self.rst] + ['      ' + r for r in rs] + ['    end else begin'] + ['      ' + b for b in body] + ['    end']
        else:
            out += ['    ' + b for b in body]
        return out + ['  end']
