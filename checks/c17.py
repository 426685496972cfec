"""C17: No two objects of a module share a name."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpath
import itertools, re, traceback
import z3
import vsem, pyvc, equiv
import pyverilog.vparser.ast as va
from prove import Unit, main
import veriloggen as V
import veriloggen.core.vtypes as vt
import veriloggen.core.module as mod
import veriloggen.core.function as function
import veriloggen.core.task as task
from c03 import decls_of, zeq


# ------------------------------------------------------- the name tables --
class Peek(Exception):
    pass


def _no(what):
    def f(self, *a, **k):
        raise Peek('the characters of a declared name are inspected: %s' % what)
    return f


class Name(str):
    """a name that can only be compared and hashed: what the code does with
    it, it does with every name"""

    def __bool__(self):
        return True


for _m in ('__getitem__', '__len__', '__iter__', '__contains__', '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__mul__', 'startswith',
           'endswith', 'find', 'index', 'split', 'rsplit', 'lower', 'upper', 'strip', 'replace', 'isidentifier', 'isdigit', 'count', 'encode'):
    setattr(Name, _m, _no(_m))

TABLES = ('io_variable', 'variable', 'global_constant', 'local_constant', 'function', 'task', 'instance', 'generate')


def kind(o):
    return type(o).__name__


def child():
    c = V.Module('child')
    c.Input('a')
    return c


def _src(f):
    """an object of another module, for the *Like methods"""
    s = V.Module('src')
    return f(s)


OPS = {}


def op(*kinds, **kw):
    def deco(f):
        OPS[f.__name__] = (f, kinds, kw)
        return f
    return deco


def _simple(meth, *kinds, **kw):
    args = kw.get('args', ())

    def f(m, n):
        return getattr(m, meth)(n, *args)
    OPS[meth] = (f, kinds, kw)


for _k in ('Input', 'Output', 'Inout'):
    _simple(_k, _k, port=True)
_simple('OutputReg', 'Output', 'Reg', port=True)
for _k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Function', 'Task'):
    _simple(_k, _k)
for _k in ('Parameter', 'Localparam'):
    _simple(_k, _k, args=(3,))


def _like(meth, kinds, **kw):
    def f(m, n):
        s = _src(lambda s: s.Localparam('other_name', 5, 4) if 'aram' in meth else s.Reg('other_name', 4))
        return getattr(m, meth)(s, n)
    OPS[meth] = (f, kinds, kw)

    def g(m, n):
        s = _src(lambda s: s.Localparam(n, 5, 4) if 'aram' in meth else s.Reg(n, 4))
        return getattr(m, meth)(s)
    OPS[meth + ' (name of the source)'] = (g, kinds, kw)


for _k in ('Input', 'Output', 'Inout'):
    _like(_k + 'Like', (_k,), port=True)
_like('OutputRegLike', ('Output', 'Reg'), port=True)
for _k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Parameter', 'Localparam'):
    _like(_k + 'Like', (_k,))


@op('GenerateFor')
def gen_for(m, n):
    i = vt.Genvar(name='i')
    return m.GenerateFor(i(0), i < 2, i(i + 1), n)


@op('GenerateIf')
def gen_if(m, n):
    return m.GenerateIf(vt.Int(1), n)


@op('GenerateIfElse')
def gen_else(m, n):
    return m.GenerateIf(vt.Int(1), 'tside').Else(n)


@op('GenerateIfElse')
def gen_else_unnamed(m, n):
    return m.GenerateIf(vt.Int(1)).Else(n)


@op('Instance')
def instance(m, n):
    return m.Instance(child(), n)


@op('Instance')
def instance_str(m, n):
    return m.Instance('stub', n)


def _obj(k, f, **kw):
    def g(m, n):
        o = f(n)
        m.add_object(o)
        return o
    OPS['add_object(%s)' % k] = (g, (k.split()[0],), kw)


for _k in ('Input', 'Output', 'Inout'):
    _obj(_k, lambda n, k=_k: getattr(vt, k)(1, name=n), port=True)
for _k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar'):
    _obj(_k, lambda n, k=_k: getattr(vt, k)(1, name=n))
for _k in ('Parameter', 'Localparam'):
    _obj(_k, lambda n, k=_k: getattr(vt, k)(3, name=n))
_obj('Function', lambda n: function.Function(n))
_obj('Task', lambda n: task.Task(n))
_obj('Instance', lambda n: mod.Instance(child(), n))
_obj('Instance of a stub', lambda n: mod.Instance(mod.StubModule('stub'), n))
_obj('GenerateFor', lambda n: mod.GenerateFor(V.Module('d'), None, None, None, n))
_obj('GenerateIf', lambda n: mod.GenerateIf(V.Module('d'), vt.Int(1), n))


@op('Function')
def add_function(m, n):
    return m.add_function(function.Function(n))


@op('Task')
def add_task(m, n):
    return m.add_task(task.Task(n))


def _copy(meth, k, f, **kw):
    def g(m, n):
        s = V.Module('src')
        f(s, n)
        return list(getattr(m, meth)(s).values())[0]
    OPS['%s (%s)' % (meth, k)] = (g, (k,), kw)


_copy('copy_params', 'Parameter', lambda s, n: s.Parameter(n, 3))
_copy('copy_params_as_localparams', 'Localparam', lambda s, n: s.Parameter(n, 3))
_copy('copy_localparams', 'Localparam', lambda s, n: s.Localparam(n, 3))
_copy('copy_ports', 'Input', lambda s, n: s.Input(n), port=True)
_copy('copy_ports', 'Output', lambda s, n: s.Output(n), port=True)
_copy('copy_ports_as_vars', 'Reg', lambda s, n: s.Input(n))
_copy('copy_ports_as_vars', 'Wire', lambda s, n: s.Output(n))
_copy('copy_vars', 'Reg', lambda s, n: s.Reg(n))
_copy('copy_vars', 'Wire', lambda s, n: s.Wire(n))

# a port with its own net or register
PAIRS = [{'Input', 'Wire'}, {'Output', 'Wire'}, {'Output', 'Reg'}]
MAY = [{'Inout', 'Wire'}]        # legal, the order of declaration decides whether the library takes it


def others(m, gen, full=True):
    """one object of every kind under other names: the frame (or none)"""
    if not full:
        return
    if not gen:
        m.Input('o_in')
        m.Output('o_out')
        m.Inout('o_io')
        m.OutputReg('o_or')
    for k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Function', 'Task'):
        getattr(m, k)('o_' + k)
    m.Parameter('o_par', 1)
    m.Localparam('o_lp', 1)
    m.Instance(child(), 'o_inst')
    gen_for(m, 'o_for')
    gen_if(m, 'o_if')


def snapshot(m, n):
    tabs = {t: [(k, id(v), tuple(map(id, v)) if isinstance(v, list) else 0) for k, v in getattr(m, t).items() if k != n] for t in TABLES}
    return tabs, [id(o) for o in m.items], {t: (id(getattr(m, t)[n]) if n in getattr(m, t) else None) for t in TABLES}


def name_of(o):
    for a in ('instname', 'scope', 'true_scope', 'false_scope', 'name'):
        if a == 'name' and isinstance(o, mod.Generate):
            continue
        if getattr(o, a, None) is not None:
            return getattr(o, a)
    return None


def decl_kinds(m, n):
    """what is declared under the name: every emitted item"""
    r = [kind(o) for o in m.items if name_of(o) == n]
    r += ['GenerateIfElse' for o in m.items if isinstance(o, mod.GenerateIf) and o.Else.false_scope == n]
    return sorted(r)


def table_kinds(m, n):
    return sorted(kind(getattr(m, t)[n]) for t in TABLES if n in getattr(m, t))


def fresh_module(ctx):
    V.reset()
    m = V.Module('dut')
    alone = ctx.startswith('bare ')
    ctx = ctx.replace('bare ', '')
    if ctx.endswith('module'):
        others(m, False, not alone)
        return m
    i = m.Genvar('pi')
    g = m.GenerateFor(i(0), i < 2, i(i + 1), 'pscope') if ctx == 'generate for' else m.GenerateIf(vt.Int(1), 'pscope')
    if ctx == 'generate else':
        g = g.Else('pelse')
    others(g, True, not alone)
    return g


def build(ctx, path, n):
    m = fresh_module(ctx)
    for o in path:
        OPS[o][0](m, n)
    return m


def program(ctx, path, last):
    return 'in a %s with the name x: %s, then %s' % (ctx, ', '.join(path) or '(free)', last)


def u_decl(rec, ctx):
    try:
        decl(rec, ctx, Name('x'))
    except Peek as ex:            # the code looks into the name: a sample name stands for the others
        rec.ran('declarations in a %s with one concrete name (%s)' % (ctx, ex), 'the name x', 1)
        decl(rec, ctx, 'x')


def decl(rec, ctx, n):
    """every declaring method, in every reachable state of the name's tables"""
    rec.function(*['Module.' + o.split()[0].split('(')[0] for o in OPS if o[0].isupper()])
    rec.function('Module.check_existing_identifier', 'Module.find_identifier', 'Module.__getitem__', 'Module.add_object', 'Module.add_function',
                 'Module.add_task', 'Module.GenerateFor', 'Module.GenerateIf', 'GenerateIfElse.__call__', 'Module.Instance', 'Module.is_input',
                 'Module.is_output', 'Module.is_inout', 'Module.is_reg', 'Module.is_wire', 'Module.copy_params', 'Module.copy_localparams',
                 'Module.copy_params_as_localparams', 'Module.copy_ports', 'Module.copy_ports_as_vars', 'Module.copy_vars')
    seen, todo = {(): ()}, [()]
    while todo:
        path = todo.pop(0)
        before = decl_kinds(build(ctx, path, n), n)
        for o, (f, kinds, kw) in OPS.items():
            m = build(ctx, path, n)
            snap = snapshot(m, n)
            nm = 'name holds %s: %s' % ('+'.join(before) or 'nothing', o)
            conc = dict(kind='names', calls=program(ctx, path, o), declared_before=before)
            exc = obj = None
            try:
                obj = f(m, n)
            except Peek:
                raise
            except (ValueError, TypeError, NameError, KeyError) as ex:
                exc = ex
            after = decl_kinds(m, n)
            tab, items, own = snapshot(m, n)
            conc.update(declared_after=after, error=repr(exc))
            new = sorted(before + list(kinds))
            if set(new) in PAIRS + MAY and len(new) == 2:
                legal = 'must' if set(new) in PAIRS else 'may'
            else:
                legal = 'must' if not before else 'no'
            if o.startswith(('add_object', 'copy_')) and len(kinds) == 1 and kinds[0] in ('Input', 'Output', 'Inout', 'Parameter') and kinds[0] in before:
                legal, new = 'replace', before
            if kw.get('port') and not ctx.endswith('module') and not o.startswith(('add_object', 'copy_')):
                legal = 'no'
            elif kw.get('port') and not ctx.endswith('module'):
                continue      # a port object put into a generate block: outside the property
            if exc is not None:
                rec.holds('%s is rejected only if the name is taken' % nm, legal not in ('must', 'replace'), repr(exc), conc)
                same = (own == snap[2] and after == before)
                if 'Generate' in ''.join(kinds) and 'Else' in ''.join(kinds):
                    pass          # the true side has been declared by its own call
                else:
                    same = same and (tab, items) == snap[:2]
                rec.holds('%s, rejected, declares nothing' % nm, same, '', conc)
                continue
            rec.holds('%s is not accepted on a taken name' % nm, legal != 'no', 'now %s' % after, conc)
            if legal == 'no':
                continue
            rec.holds('%s declares exactly one object' % nm, after == new, '%s expected %s' % (after, new), conc)
            rec.holds('%s is in exactly one table' % nm, table_kinds(m, n) == new, '%s' % table_kinds(m, n), dict(conc, tables=table_kinds(m, n)))
            got = m.find_identifier(n)
            try:
                got2 = m[n] if ctx.endswith('module') else got
            except Exception as ex:
                got2 = ex
            mine = [x for x in m.items if name_of(x) == n] + [x.Else for x in m.items if isinstance(x, mod.GenerateIf) and x.Else.false_scope == n]
            rec.holds('%s is found again' % nm, got2 is got and any(got is x for x in mine), repr(got2), dict(conc, found=repr(got2)))
            if legal == 'replace':
                rec.holds('%s takes the place of the earlier declaration' % nm, got is obj and tab == snap[0] and len(items) == len(snap[1]), '', conc)
            elif 'Else' not in ''.join(kinds):
                rec.holds('%s leaves every other name alone' % nm, tab == snap[0] and items[:len(snap[1])] == snap[1] and
                          len(items) == len(snap[1]) + len(kinds), '', conc)
            isq = {q: getattr(m, q)(n) for q in ('is_input', 'is_output', 'is_inout', 'is_reg', 'is_wire')}
            port = [k for k in after if k in ('Input', 'Output', 'Inout')]
            want = {'is_input': 'Input' in after, 'is_output': 'Output' in after, 'is_inout': 'Inout' in after, 'is_reg': 'Reg' in after,
                    'is_wire': 'Wire' in after or (bool(port) and 'Reg' not in after)}
            rec.holds('%s: is_input, is_output, is_inout, is_reg, is_wire' % nm, isq == want, '%s' % isq, dict(conc, answers=isq, expected=want))
            key = (tuple(after), tuple(sorted((t, kind(getattr(m, t)[n])) for t in TABLES if n in getattr(m, t))))
            if key not in seen:
                seen[key] = path + (o,)
                todo.append(path + (o,))
    rec.holds('the tables of one name are explored', len(seen) > 8, str(len(seen)))


def u_scope_pair(rec):
    """the two sides of one generate-if"""
    rec.function('GenerateIfElse.__call__')
    V.reset()
    m = V.Module('dut')
    g = m.GenerateIf(vt.Int(1), 'a')
    e = g.Else('b')
    rec.holds('both sides are found', m.find_identifier('a') is g and m.find_identifier('b') is e, '', dict(calls="GenerateIf(1, 'a').Else('b')"))
    rec.holds('the else side is resolved once', [id(x) for x in m.get_generates()] == [id(g), id(e)], str(m.get_generates()), None)
    m2 = V.Module('dut2')
    try:
        e2 = m2.GenerateIf(vt.Int(1), 'a').Else('a')
        ok = m2.find_identifier('a') is not None
    except ValueError:
        ok = False
    rec.holds('the two alternatives may carry one label', ok, '', dict(calls="GenerateIf(1, 'a').Else('a')"))


# ------------------------------------------------------------ temporaries --
def u_tmp(rec):
    rec.function('Module.get_tmp', *['Module.Tmp' + k for k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Localparam')])
    rec.function(*['Module.Tmp%sLike' % k for k in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Localparam')])
    rec.function('Module.Probe')
    k0 = pyvc.var('count')

    def run():
        V.reset()
        m = V.Module('dut')
        m.tmp_count = k0
        return m.get_tmp(), m.tmp_count
    for path, res in pyvc.explore(run, [k0.t >= 0]):
        if rec.holds('get_tmp does not fail', not isinstance(res, Exception), str(type(res))):
            a, b = res
            rec.prove('get_tmp returns a number not below the counter', pyvc.term(a) >= k0.t, [k0.t >= 0] + list(path))
            rec.prove('get_tmp leaves the counter above it', pyvc.term(b) > pyvc.term(a), [k0.t >= 0] + list(path))
    a, b = z3.Ints('a b')
    rec.prove('different numbers are different names', z3.IntToStr(a) != z3.IntToStr(b), [a >= 0, b >= 0, a != b])
    makers = {}
    for kd in ('Wire', 'Reg', 'Integer', 'Real', 'Genvar'):
        makers['Tmp' + kd] = lambda m, kd=kd, **kw: getattr(m, 'Tmp' + kd)(**kw)
        makers['Tmp%sLike' % kd] = lambda m, kd=kd, **kw: getattr(m, 'Tmp%sLike' % kd)(vt.Reg(4, name='zz'), **kw)
    makers['TmpLocalparam'] = lambda m, **kw: m.TmpLocalparam(3, **kw)
    makers['TmpLocalparamLike'] = lambda m, **kw: m.TmpLocalparamLike(vt.Localparam(3, 4, name='zz'), **kw)
    makers['Probe'] = lambda m, **kw: m.Probe(vt.Reg(4, name='zz'), **kw)
    cases = 0
    for (u, f), (v, g) in itertools.product(makers.items(), makers.items()):
        for ctx in ('module', 'generate for', 'generate if', 'generate else', 'inner', 'outer after inner'):
            for pa, pb in ((None, None), ('p', None), ('p', 'p'), ('_tmp', None), ('p_1', 'p')):
                V.reset()
                top = V.Module('dut')
                i = top.Genvar('i')
                ka = {} if pa is None else dict(prefix=pa)
                kb = {} if pb is None else dict(prefix=pb)
                calls = '%s(%s), %s(%s) in %s' % (u, ka, v, kb, ctx)
                err = None
                try:
                    if ctx.endswith('module'):
                        A, B = top, top
                    elif ctx in ('generate for', 'inner', 'outer after inner'):
                        gg = top.GenerateFor(i(0), i < 2, i(i + 1), 's')
                        A, B = {'generate for': (gg, gg), 'inner': (top, gg), 'outer after inner': (gg, top)}[ctx]
                    else:
                        gg = top.GenerateIf(vt.Int(1), 's')
                        if ctx == 'generate else':
                            gg = gg.Else('t')
                        A, B = gg, gg
                    x, y = f(A, **ka), g(B, **kb)
                    names = (x.name, y.name)
                except Exception as ex:
                    names, err = (None, None), repr(ex)
                cases += 1
                rec.holds('%s: two temporaries, two names' % calls, err is None and names[0] != names[1], '%s %s' % (names, err),
                          dict(kind='names', calls=calls, names=names, error=err))
                if err is None:
                    rec.holds('%s: found again' % calls, A.find_identifier(names[0]) is x and B.find_identifier(names[1]) is y, '', dict(kind='names', calls=calls))
                    kd = {'Probe': 'Wire'}
                    wants = [kd.get(q, q.replace('Tmp', '').replace('Like', '')) for q in (u, v)]
                    rec.holds('%s: of the kind asked for' % calls, [kind(x), kind(y)] == wants, '', dict(kind='names', calls=calls))


# --------------------------------------------------------------- patterns --
KEYS = [''.join(b) for b in itertools.product('pq', repeat=4)]       # four letters, each p or q
PATS = ['..' + 'p.', 'q' + '...', '.q..', '...p']
WIDE = ['a', 'ab', 'abc', 'b', 'xa', 'a_b', 'aXb', 'abcabc', '_a', 'a1', 'a11']
WPATS = ['a', 'a|b', 'ab', 'a.', 'a.*', '.*b', 'b$', '^a', 'a|b|xa', '(ab)+', '[ab]', r'a\d', '', 'a1|ab', 'b|a.', r'a_b', '.', '(a|b)']


def expected(keys, inc, exc, full):
    mt = (lambda p, k: re.fullmatch(p, k)) if full else (lambda p, k: re.match(p, k))
    inc = [] if inc is None else [inc] if isinstance(inc, str) else list(inc)
    exc = [] if exc is None else [exc] if isinstance(exc, str) else list(exc)
    return [k for k in keys if (not inc or any(mt(p, k) for p in inc)) and not any(mt(p, k) for p in exc)]


COPIES = {'copy_params': ('Parameter', 'global_constant'), 'copy_params_as_localparams': ('Parameter', 'local_constant'),
          'copy_localparams': ('Localparam', 'local_constant'), 'copy_ports': ('Input', 'io_variable'), 'copy_ports_as_vars': ('Input', 'variable'),
          'copy_sim_ports': ('Input', 'variable'), 'copy_vars': ('Reg', 'variable'), 'connect_params': ('Parameter', None),
          'connect_ports': ('Input', None)}


def source(kind, keys):
    s = V.Module('src')
    for k in keys:
        if kind in ('Parameter', 'Localparam'):
            getattr(s, kind)(k, 3)
        else:
            getattr(s, kind)(k, 4)
    return s


def choices(thorough):
    r = []
    for n in range(0, 4):
        for c in itertools.combinations(range(4), n):
            r.append([PATS[i] for i in c])
    return r


def u_pattern(rec, meth):
    rec.function('Module.' + meth)
    kd, table = COPIES[meth]
    cases = 0

    def one(keys, inc, exc, full, prefix=None, postfix=None):
        V.reset()
        s = source(kd, keys)
        m = V.Module('dut')
        p, q = prefix or '', postfix or ''
        if table is None:
            for i, k in enumerate(keys):
                if kd == 'Parameter':
                    (m.Parameter if i % 2 else m.Localparam)(p + k + q, 1)
                else:
                    (m.Input if i % 2 else m.Wire)(p + k + q, 4)
        kw = dict(prefix=prefix, postfix=postfix, include=inc, exclude=exc, use_fullmatch=full)
        conc = dict(kind='patterns', call='%s(src, %s)' % (meth, kw), names=keys)
        try:
            r = getattr(m, meth)(s, **kw)
        except Exception as ex:
            rec.holds('%s %s: no exception' % (meth, kw), False, repr(ex), dict(conc, error=repr(ex)))
            return
        want = expected(keys, inc, exc, full)
        if table is None:
            got = list(r)
            ok = got == want and all(r[k] is m[p + k + q] for k in got)
        else:
            got = list(r)
            want = [p + k + q for k in want]
            ok = got == want and list(getattr(m, table)) == want and all(m[k] is r[k] for k in got) and all(r[k].name == k for k in got)
        rec.holds('%s include=%s exclude=%s fullmatch=%s %s%s' % (meth, inc, exc, full, p, q), ok, 'got %s, expected %s' % (got, want),
                  dict(conc, selected=got, expected=want))

    # every truth assignment of up to three patterns of each list occurs among the sixteen names
    for inc in choices(rec.thorough):
        for exc in choices(rec.thorough):
            for full in (False, True):
                cases += 1
                one(KEYS, inc, exc, full)
    for p in WPATS:
        for full in (False, True):
            for pre, post in ((None, None), ('u_', None), (None, '_v'), ('a', 'b')):
                one(WIDE, p, None, full, pre, post)
                one(WIDE, None, p, full, pre, post)
                cases += 2
            one(WIDE, [p], (p,), full)
            one(WIDE, (p, 'xa'), ['ab'], full)
    rec.ran('Module.' + meth, 'pattern lists of up to three entries (every truth assignment), %d patterns over %d names' % (len(WPATS), len(WIDE)), cases)


def u_connect(rec):
    """connect_*: the object of that name, and strict"""
    rec.function('Module.connect_params', 'Module.connect_ports')
    for meth, kd, cands in (('connect_params', 'Parameter', ('Parameter', 'Localparam', None)),
                            ('connect_ports', 'Input', ('Input', 'Output', 'Wire', 'Reg', 'OutputReg', None))):
        for strict, pre, post in itertools.product((False, True), ('', 'p_'), ('', '_q')):
            for c in cands:
                V.reset()
                s = source(kd, ['x', 'y'])
                m = V.Module('dut')
                nm = pre + 'x' + post
                if c in ('Parameter', 'Localparam'):
                    o = getattr(m, c)(nm, 1)
                elif c:
                    o = getattr(m, c)(nm, 4)
                if nm != 'x':
                    m.Wire('x', 4) if kd == 'Input' else m.Localparam('x', 4)
                conc = dict(kind='patterns', call="%s(src with x, prefix=%r, postfix=%r, strict=%s, include='x')" % (meth, pre, post, strict), own=c)
                try:
                    r = getattr(m, meth)(s, prefix=pre, postfix=post, strict=strict, include='x')
                except IndexError as ex:
                    rec.holds('%s strict=%s %s%s own %s: IndexError only if nothing matches' % (meth, strict, pre, post, c), strict and c is None, repr(ex), conc)
                    continue
                if c is None:
                    rec.holds('%s strict=%s %s%s: nothing to connect' % (meth, strict, pre, post), not strict and not r, str(r), conc)
                else:
                    rec.holds('%s strict=%s %s%s own %s: connected to the object of that name' % (meth, strict, pre, post, c),
                              list(r) == ['x'] and r['x'] is m[nm], str(r), dict(conc, got=str({k: v.name for k, v in r.items()})))


# ------------------------------------------------------- what is copied --
def exprs(W, D):
    """width expressions over the parameters of the source"""
    return {'none': None, 'one': 1, 'eight': 8, 'param': W, 'plus': W + 1, 'minus': W - D, 'times': W * 2, 'paren': (W + 1) * (D - 2),
            'shift': vt.Sll(vt.Int(1), D), 'cond': vt.Mux(W > 3, W, D), 'div': W / 2, 'slice': vt.Slice(W, 3, 1), 'bit': W[2] + 1, 'cat': vt.Cat(W, D),
            'rep': vt.Repeat(D, 2), 'neg': -W, 'sra': vt.Sra(W, 1), 'lit': vt.Int(12, width=8, base=16), 'land': vt.Land(W, D), 'lnot': vt.Not(W),
            'embedded': vt.EmbeddedNumeric('7')}


TEXT = {'none': None, 'one': '1', 'eight': '8', 'param': 'W', 'plus': 'W+1', 'minus': 'W-D', 'times': 'W*2', 'paren': '(W+1)*(D-2)', 'shift': '1<<D',
        'cond': '(W>3)? W : D', 'div': 'W/2', 'slice': 'W[3:1]', 'bit': 'W[2]+1', 'cat': '{W,D}', 'rep': '{2{D}}', 'neg': '-W', 'sra': 'W>>>1',
        'lit': "8'hc", 'land': 'W&&D', 'lnot': '!W', 'embedded': '7'}


def ren(t, pre, post, keep=()):
    return re.sub(r'\b[WD]\b', lambda m: m.group(0) if m.group(0) in keep else pre + m.group(0) + post, t)


def decl_text(kind, name, w, signed, dims=None, value=None, pre='', post='', keep=()):
    if w is None:
        rg = ''
    else:
        t = ren(w, pre, post, keep)
        rg = '[%s-1:0] ' % (t if re.match(r'^[\w]+$', t) else '(%s)' % t)
    sg = 'signed ' if signed else ''
    ds = ''.join(' [0:%s-1]' % d for d in (dims or ()))
    v = '' if value is None else ' = %s' % ren(value, pre, post, keep)
    return '%s %s%s%s%s%s' % (kind, sg, rg, name, ds, v)


def u_copy(rec, meth):
    """the copied declarations are those of the source, with the names renamed"""
    rec.function('Module.' + meth, 'RenameVisitor.visit')
    for pre, post, keep in (('', '', ()), ('c_', '', ()), ('', '_z', ()), ('c_', '_z', ('W',)), ('c_', '', ('D',))):
        for signed in (False, True):
            for key in TEXT:
                V.reset()
                s = V.Module('src')
                W = s.Parameter('W', 8)
                D = s.Parameter('D', 4)
                e = exprs(W, D)[key]
                wt = TEXT[key]
                lines, names = [], []
                P = lambda n: pre + n + post
                m = V.Module('dut')
                consts = ['parameter W = 8', 'parameter D = 4']
                try:
                    if meth in ('copy_params', 'copy_params_as_localparams', 'copy_localparams'):
                        lp = meth == 'copy_localparams'
                        if key in ('none',):
                            (s.Localparam if lp else s.Parameter)('X', 5, None, signed)
                            val, wid = '5', None
                        else:
                            if key in ('lit', 'embedded', 'one', 'eight'):
                                (s.Localparam if lp else s.Parameter)('X', e, 8, signed)
                                val, wid = wt, '8'
                            else:
                                (s.Localparam if lp else s.Parameter)('X', e, W, signed)
                                val, wid = wt, 'W'
                        m.copy_params(s, pre, post, include=['W', 'D'], rename_exclude=None) if lp else None
                        for k in keep:
                            if P(k) != k:
                                m.Parameter(k, 3)
                        getattr(m, meth)(s, pre, post, rename_exclude=list(keep))
                        kd = {'copy_params': 'parameter', 'copy_params_as_localparams': 'localparam', 'copy_localparams': 'localparam'}[meth]
                        ref = ['parameter %s = 8' % P('W'), 'parameter %s = 4' % P('D')] if lp or meth == 'copy_params' else \
                            ['localparam %s = 8' % P('W'), 'localparam %s = 4' % P('D')]
                        ref = (ref if lp else []) + ['parameter %s = 3' % k for k in keep if P(k) != k] + ([] if lp else ref)
                        ref.append(decl_text(kd, P('X'), wid, signed, None, val, pre, post, keep))
                        what = ref
                    else:
                        m.copy_params(s, pre, post)
                        for k in keep:
                            if P(k) != k:
                                m.Parameter(k, 3)
                        ref = ['parameter %s = 8' % P('W'), 'parameter %s = 4' % P('D')] + ['parameter %s = 3' % k for k in keep if P(k) != k]
                        if meth == 'copy_vars':
                            s.Wire('v0', e, signed=signed)
                            s.Reg('v1', e, signed=signed, initval=3)
                            s.Reg('v2', e, dims=(D, 16), signed=signed)
                            s.Reg('v4', 4, initval=D + 1)
                            s.Integer('v3')
                            m.copy_vars(s, pre, post, rename_exclude=list(keep))
                            ref += [decl_text('wire', P('v0'), wt, signed, pre=pre, post=post, keep=keep),
                                    decl_text('reg', P('v1'), wt, signed, pre=pre, post=post, keep=keep),
                                    decl_text('reg', P('v2'), wt, signed, (ren('D', pre, post, keep), '16'), pre=pre, post=post, keep=keep),
                                    'reg [3:0] %s' % P('v4'), 'integer %s' % P('v3')]
                            m.Initial(*m.make_reset())
                            ref.append('initial begin %s = 3; %s = %s + 1; end' % (P('v1'), P('v4'), ren('D', pre, post, keep)))
                        else:
                            s.Input('i0', e, signed=signed)
                            s.Output('o0', e, signed=signed)
                            s.Inout('b0', e, signed=signed)
                            s.OutputReg('q0', e, signed=signed)
                            if meth == 'copy_ports':
                                m.copy_ports(s, pre, post, rename_exclude=list(keep))
                                kds = ('input', 'output', 'inout', 'output')
                            elif meth == 'copy_ports_as_vars':
                                m.copy_ports_as_vars(s, pre, post, rename_exclude=list(keep))
                                kds = ('reg', 'wire', 'wire', 'wire')
                            elif meth == 'copy_sim_ports':
                                m.copy_sim_ports(s, pre, post, rename_exclude=list(keep), use_wire=True)
                                kds = ('wire', 'wire', 'wire', 'wire')
                            ref += [decl_text(k, P(x), wt, signed, pre=pre, post=post, keep=keep) for k, x in zip(kds, ('i0', 'o0', 'b0', 'q0'))]
                    got = m.to_verilog()
                    err = None
                except Exception as ex:
                    got, err = '', repr(ex)
                pars = [r for r in ref if r.startswith('parameter')]
                prt = [r for r in ref if r.startswith(('input', 'output', 'inout'))]
                rest = [r for r in ref if r not in pars and r not in prt]
                text = 'module dut %s (%s);\n%s\nendmodule\n' % ('#(%s)' % ', '.join(pars) if pars else '', ', '.join(prt), '\n'.join(r + ('' if r.endswith('end') else ';') for r in rest))
                nm = '%s of width %s signed=%s prefix=%r postfix=%r rename_exclude=%s' % (meth, key, signed, pre, post, list(keep))
                conc = dict(kind='copied declarations', call=nm, emitted=got, expected=text, error=err)
                if err:
                    rec.holds('%s: no exception' % nm, False, err, conc)
                    continue
                try:
                    a, b = canon(got), canon(text)
                except Exception as ex:
                    rec.holds('%s: legal Verilog' % nm, False, repr(ex), dict(conc, error=repr(ex)))
                    continue
                rec.holds('%s: declarations' % nm, a == b, '%s\n%s' % (a, b), conc)
                for o in list(m.io_variable.values()) + list(m.variable.values()):
                    rec.holds('%s: %s belongs to the module' % (nm, o.name), o.module is m, repr(o.module), dict(conc, object=o.name, belongs_to=repr(o.module)))
                for o in list(s.io_variable.values()) + list(s.variable.values()) + list(s.global_constant.values()) + list(s.local_constant.values()):
                    rec.holds('%s: the source keeps %s' % (nm, o.name), s[o.name] is not None and (o.module is s), '', conc)


def canon(text):
    """declarations of a module as normal forms, grouped per table in order"""
    md = equiv.modules(text)['dut']
    out = []
    for d in (md.paramlist.params if md.paramlist else ()):
        for p in (d.list if isinstance(d, va.Decl) else [d]):
            out.append(equiv.nf(p))
    for p in (md.portlist.ports if md.portlist else ()):
        out.append(equiv.nf(p.first if isinstance(p, va.Ioport) else p))
    for it in equiv.flat_items(md):
        out.append(equiv.nf(it))
    return out


def u_copied_use(rec):
    """a copied object is driven in its new module, not in the source"""
    rec.function('Module.copy_ports', 'Module.copy_vars', 'Module.copy_ports_as_vars')
    for meth, decl in (('copy_ports', 'Output'), ('copy_vars', 'Wire'), ('copy_ports_as_vars', 'Output')):
        for driven in (False, True):
            V.reset()
            s = V.Module('src')
            a = s.Input('a', 4)
            y = getattr(s, decl)('y', 4)
            if driven:
                y.assign(a)
            m = V.Module('dut')
            b = m.Input('b', 4)
            conc = dict(kind='copied declarations', call='%s of a %s%s, then .assign(b)' % (meth, decl, ' that the source drives' if driven else ''))
            try:
                c = list(getattr(m, meth)(s, 'c_', include='y').values())[0]
                c.assign(b)
                text, src, err = m.to_verilog(), s.to_verilog(), None
            except Exception as ex:
                text, src, err = '', '', repr(ex)
            what = '%s, source %s' % (meth, 'drives it' if driven else 'does not drive it')
            rec.holds('%s: the copy can be driven in the new module' % what, err is None and 'assign c_y = b;' in text, err or text, dict(conc, error=err, emitted=text))
            if err is None:
                rec.holds('%s: the source is unchanged' % what, ('assign y = a;' in src) == driven and 'c_y' not in src, src, dict(conc, source=src))


# ----------------------------------------------------------- Submodule --
def child_module():
    c = V.Module('child')
    W = c.Parameter('W', 8)
    D = c.Parameter('D', 4)
    E = c.Parameter('E', 2)
    K = c.Parameter('K', 1)
    L0 = c.Localparam('L0', W + K)
    L = c.Localparam('L', L0 + D)
    c.Input('CLK')
    c.Input('a', W)
    c.Input('b', D)
    c.Output('y', W)
    c.OutputReg('z', L)
    c.Inout('t', E)
    return c


def u_submodule(rec):
    """a Submodule declares one object for every port not given, with the
    widths of the child under its parameters, and binds every port to it"""
    rec.function('Submodule.__init__', 'CollectVisitor.visit')
    pd = dict(W=8, D=4, E=2)
    ports = ['CLK', 'a', 'b', 'y', 'z', 't']
    cases = 0
    for style in ('named', 'dict', 'positional'):
        for np_, na in itertools.product(range(0, 4), range(0, 5)):
            for as_io, as_wire in (((), ()), (('y', 'b'), ()), ((), ('b',)), (('z',), ('a', 'b')), ('y', 'b')):
                for prefix in (None, 'q_'):
                    V.reset()
                    m = V.Module('dut')
                    CLK = m.Input('CLK')
                    given = [CLK] + [m.Wire('g%d' % i, 1 + i) for i in range(1, na)] if na else []
                    # width of what is given does not matter for the binding
                    pn = ['W', 'D', 'E'][:np_]
                    pv = [16, 5, 3][:np_]
                    io = (as_io,) if isinstance(as_io, str) else as_io
                    wr = (as_wire,) if isinstance(as_wire, str) else as_wire
                    if set(ports[:na]) & (set(io) | set(wr)):
                        continue
                    cases += 1
                    ap = pv if style == 'positional' else list(zip(pn, pv)) if style == 'named' else dict(zip(pn, pv))
                    aq = given if style == 'positional' else list(zip(ports, given)) if style == 'named' else dict(zip(ports, given))
                    nm = 'Submodule %s params=%s ports=%d as_io=%s as_wire=%s prefix=%s' % (style, pv, na, as_io, as_wire, prefix)
                    conc = dict(kind='submodule', call=nm)
                    try:
                        sub = V.Submodule(m, child_module(), 'inst', prefix=prefix, arg_params=ap, arg_ports=aq, as_io=as_io, as_wire=as_wire)
                        text, err = m.to_verilog(), None
                    except Exception as ex:
                        text, err = '', repr(ex) + traceback.format_exc()
                    if not rec.holds('%s: no exception' % nm, err is None, err, dict(conc, error=err)):
                        continue
                    pre = 'inst_' if prefix is None else prefix
                    val = dict(pd)
                    val.update(zip(pn, pv))
                    wid = dict(CLK=1, a=val['W'], b=val['D'], y=val['W'], z=val['W'] + val['D'] + 1, t=val['E'])
                    try:
                        D = vsem.Design(outer(text), 'dut')
                    except Exception as ex:
                        rec.holds('%s: legal Verilog' % nm, False, repr(ex), dict(conc, emitted=text, error=repr(ex)))
                        continue
                    inst = [it for it in equiv.flat_items(equiv.modules(text)['dut']) if isinstance(it, (va.Instance, va.InstanceList))]
                    inst = [x for i in inst for x in (i.instances if isinstance(i, va.InstanceList) else [i])]
                    rec.holds('%s: one instance' % nm, [i.name for i in inst] == ['inst'], '', dict(conc, emitted=text))
                    bind = {p.portname: p.argname.name for i in inst for p in i.portlist if p.argname is not None}
                    want = {p: (given[i].name if i < na else pre + p) for i, p in enumerate(ports)}
                    rec.holds('%s: every port is bound' % nm, bind == want, '%s' % bind, dict(conc, emitted=text, bound=bind, expected=want))
                    for i, p in enumerate(ports):
                        if i < na:
                            continue
                        n = pre + p
                        d = D.decls.get(n)
                        kd = 'port' if p in io else 'wire' if p in wr or p in ('y', 'z', 't') else 'reg'
                        o = m.find_identifier(n)
                        got = 'none' if o is None else 'port' if n in m.io_variable else type(o).__name__.lower()
                        rec.holds('%s: %s declared as a %s' % (nm, n, kd), got == kd, got, dict(conc, emitted=text, got=got))
                        rec.holds('%s: %s is %d wide' % (nm, n, wid[p]), d is not None and d.width == wid[p], str(d and d.width),
                                  dict(conc, emitted=text, width=d and d.width, expected=wid[p]))
                        rec.holds('%s: sub[%s]' % (nm, p), sub[p] is o and getattr(sub, p) is o, '', dict(conc, emitted=text))
                    pb = {a.paramname: a.argname for i in inst for a in (inst_params(text))}
                    wantp = set(pn)
                    rec.holds('%s: the parameters are bound' % nm, set(pb) == wantp and all(pval(text, pb[k], D) == val[k] for k in pb), str(pb.keys()),
                              dict(conc, emitted=text))
    for bad in ('params', 'ports'):
        V.reset()
        m = V.Module('dut')
        try:
            V.Submodule(m, child_module(), 'inst', arg_params=[1, 2, 3, 4, 5] if bad == 'params' else None,
                        arg_ports=[m.Wire('w%d' % i) for i in range(7)] if bad == 'ports' else None)
            err = None
        except (ValueError, IndexError, TypeError) as ex:
            err = ex
        rec.holds('Submodule: more positional %s than the child has are rejected' % bad, err is not None, '', dict(kind='submodule', call='too many positional ' + bad))
    for bad in ('params', 'ports'):
        V.reset()
        m = V.Module('dut')
        w = m.Wire('w')
        kw = {'params': dict(arg_params=[('nope', 3)]), 'ports': dict(arg_ports=[('nope', w)])}[bad]
        try:
            V.Submodule(m, child_module(), 'inst', **kw)
            err = None
        except (ValueError, IndexError, TypeError, KeyError) as ex:
            err = ex
        rec.holds('Submodule: unknown name in %s is rejected' % bad, err is not None, '', dict(kind='submodule', call=str(kw.keys()) + ' of an unknown name'))
    rec.ran('Submodule.__init__', 'the combinations of up to 3 parameters, 4 ports, 5 as_io/as_wire choices', cases)


def outer(text):
    """the parent alone, its local parameters in front of the ports"""
    t = re.sub(r'(?s)\n  child\b.*?\);', '', text.split('module child')[0])
    lp = re.findall(r'localparam (.*?);', t)
    t = re.sub(r'localparam .*?;', '', t)
    return re.sub(r'module dut\s*\(', 'module dut #(%s) (' % ', '.join('parameter ' + x for x in lp), t) if lp else t


def inst_params(text):
    for it in equiv.flat_items(equiv.modules(text)['dut']):
        if isinstance(it, va.InstanceList):
            return it.parameterlist or ()
        if isinstance(it, va.Instance):
            return it.parameterlist or ()
    return ()


def pval(text, e, D):
    if isinstance(e, va.Identifier):
        m = re.search(r'localparam (?:\[.*?\] )?%s = (\d+);' % e.name, text)
        return int(m.group(1)) if m else None
    return vsem.parse_int(e.value)[0]


UNITS = [Unit('declare in a %s' % c, u_decl, (c,), timeout=600) for c in ('module', 'generate for', 'generate if', 'generate else', 'bare module', 'bare generate for', 'bare generate if', 'bare generate else')]
UNITS += [Unit('scope pair', u_scope_pair, ()), Unit('temporaries', u_tmp, (), timeout=600), Unit('connect', u_connect, ()),
          Unit('copied use', u_copied_use, ()), Unit('submodule', u_submodule, (), timeout=600)]
UNITS += [Unit('pattern %s' % k, u_pattern, (k,), timeout=600) for k in COPIES]
UNITS += [Unit('copy %s' % k, u_copy, (k,), timeout=600) for k in COPIES if k.startswith('copy')]

if __name__ == '__main__':
    main('C17', UNITS, trusted=['dict and str of CPython', 're.match and re.fullmatch of CPython (the documented meaning of a pattern)', 'pyverilog parser',
                                'lib/vsem.py declaration widths'],
         assumptions=['a declared name is only hashed and compared: any other use of its characters raises in the check',
                      'no object of type AnyType (the wildcard of an imported port without declaration) carries the name',
                      'names written through Module.append or the item list directly are outside the property',
                      'a port object put into a generate block through add_object is outside the property'])
