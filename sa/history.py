"""C23: analysing a file leaves nothing behind that later analyses see.

Shared state is everything that exists before the first analysis: module globals, class attributes, default arguments and
the objects they hold.  Proved when no unit changes any of it.  Where one does, every unit is summarised again from the state
left behind (inputs of the first analysis renamed) and compared with its summary from the initial state.
"""
import ast
import itertools
from . import top
from . import topcheck as TC
from . import scenarios as S
from . import units as U
from .cells import constants, regions
from .compare import ATTRS, TREES, Oracle, canon, crash_of, describe, make_env
from .decide import flat, sorted_obl, unit_name
from .evalt import PyRaise, TooLong, UNK
from .terms import T, atom, cv
from .topcheck import branches
from .topprops import PROPS, graphs, pick

TOPS = ('checkOneFile', 'human', 'mix')
TAG = "'"


def changed(run, I, heap):
    """[(object, field)] of the shared state that differs after the analysis"""
    out = []
    memo0, memo1 = {}, {}
    for k, o in I.st0.heap.items():
        if k in ('LOG', 'OBL'):
            continue
        n = heap.get(k)
        run.count('shared_fields', len(o.f))
        if n is o:
            continue
        if n is None:
            out.append((k, '*'))
            continue
        for f in sorted(set(o.f) | set(n.f), key=str):
            a, b = o.f.get(f), n.f.get(f)
            if a is b:
                continue
            if isinstance(a, T) and isinstance(b, T):
                try:
                    if I.resolve(a, I.st0.heap, memo=memo0) is I.resolve(b, heap, memo=memo1):
                        continue
                except Exception:
                    pass
            out.append((k, f))
    return out


def names(I, ch):
    """readable names of shared fields"""
    at = {}
    for m, r in I.modobj.items():
        k = r.a[0] if isinstance(r, T) else r
        at[k] = m
    for _ in range(3):
        for k, o in I.st0.heap.items():
            for f, v in o.f.items():
                if isinstance(v, T) and v.op == 'ref' and k in at and v.a[0] not in at:
                    at[v.a[0]] = '%s.%s' % (at[k], f)
    return ['%s.%s' % (at.get(k, 'object %s' % k), f) if f not in ('seq', 'm', 'ch') else str(at.get(k, 'object %s' % k)) for k, f in ch]


def observe(env, s):
    """{part: value}"""
    try:
        c = crash_of(env, s)
        if c:
            return {'crash': str(c.exc)}
        d = {'crash': None}
        for f in TREES:
            d[f] = canon(env.ev(s.f[f]))
        for f in ATTRS:
            v = env.ev(s.f[f]) if s.f[f] is not None else None
            d[f] = v if v is UNK else repr(v)
        return d
    except PyRaise as e:
        return {'crash': e.name}
    except TooLong:
        return {'crash': 'no end'}


def spread(it, n):
    xs = list(itertools.islice(it, 4000))
    return xs[::max(1, len(xs) // n)][:n]


def same(a, b):
    return all(a.f[f] is b.f[f] for f in a.f) and sorted_ids(a) == sorted_ids(b)


def sorted_ids(s):
    return [x[0] for x in sorted_obl(s)]


def samples(m, key, n):
    s = m.unit(key)
    cs = constants(*[x for x in s.f.values() if x is not None])
    return spread(regions(key, cs, False), n)


def validators(run, deep):
    m = U.code_model()
    changers = []
    for k in U.ALLKEYS:
        run.count('units')
        try:
            s = m.unit(k)
        except Exception as e:
            run.count('units_not_extracted')
            run.notes.append('%s: %s' % (unit_name(k), str(e)[:200]))
            continue
        ch = changed(run, m.I, s.heap)
        ASSIGNED.update(assigned(s, ()))
        if ch:
            changers.append((k, ch))
            run.cov.setdefault('changes_shared_state', {})[str(unit_name(k))] = names(m.I, ch)
        else:
            run.count('units_that_change_no_shared_state')
    run.cov['pairs_compared'] = 0
    groups = {}
    for k, ch in changers:
        groups.setdefault(tuple(names(m.I, ch)), []).append(k)
    for what, ks in groups.items():
        for k1 in ks[:3]:
            try:
                first = m.extract(k1, TAG)
            except Exception as e:
                run.notes.append('%s: %s' % (unit_name(k1), str(e)[:200]))
                continue
            for k2 in U.ALLKEYS:
                run.count('pairs_compared')
                try:
                    s1, s2 = m.unit(k2), m.extract(k2, '', first.heap)
                except Exception as e:
                    run.count('pairs_not_extracted')
                    continue
                if same(s1, s2):
                    run.count('pairs_congruent')
                    continue
                pair(run, m, k1, k2, s1, s2, what, deep)


ASSIGNED = set()


def assigned(s, args):
    """names of module globals and class attributes the unit assigns, other than to its own arguments"""
    for log in [s.log] + list(getattr(s, 'outlogs', ())):
        for _, e in flat(log):
            for _, x in branches(e):
                if x.op == 'eff' and x.a[0] == 'global.set' and not all(v in args for v in ends(x.a[2])):
                    yield cv(x.a[1])


def located(I, name):
    """(object, field) of a global"""
    m, _, f = name.rpartition('.')
    for key, ref in list(I.modobj.items()) + [(k, c['ns']) for k, c in I.classes.items()]:
        if key == m or key.rpartition('.')[2] == m:
            return (ref.a[0], f)


def pair(run, m, k1, k2, s1, s2, what, deep):
    oc = Oracle(U.spec_model(), True)
    n = 0
    firsts = samples(m, k1, 40 if deep else 16)
    for r2 in samples(m, k2, 120 if deep else 50):
        base = observe(make_env(r2, oc), s1)
        for r1 in firsts:
            n += 1
            run.count('histories_evaluated')
            after = observe(make_env(dict(r2, **dict((a + TAG, v) for a, v in r1.items())), oc), s2)
            for f in base:
                x, y = base[f], after.get(f)
                if x is UNK or y is UNK or x == y or f not in after:
                    continue
                run.violation('%s/%s' % (what[0], f), '%s after %s: %s is %s instead of %s; carried in %s (%s; before: %s)' % (
                    unit_name(k2), unit_name(k1), f, str(y)[:160], str(x)[:160], ', '.join(what), describe(r2)[:200],
                    describe(r1)[:200]), unit=unit_name(k2))
                return


def program(run, deep):
    left = []
    I, _ = top.model('code')
    for u in TOPS:
        run.count('units')
        try:
            s = top.extract('code', u)
        except Exception as e:
            run.count('units_not_extracted')
            run.notes.append('%s: %s' % (u, str(e)[:200]))
            continue
        ch = changed(run, I, s.heap)
        ASSIGNED.update(assigned(s, set(top.arguments(u))))
        if not ch:
            run.count('units_that_change_no_shared_state')
            continue
        what = names(I, ch)
        run.cov.setdefault('changes_shared_state', {})[u] = what
        try:
            first = top.again(u, TAG)
        except Exception as e:
            run.notes.append('%s: %s' % (u, str(e)[:200]))
            continue
        for v in TOPS:
            run.count('pairs_compared')
            try:
                s1, s2 = top.extract('code', v), top.again(v, '', first.heap)
            except Exception:
                run.count('pairs_not_extracted')
                continue
            a, b = TC.parts(s1), TC.parts(s2)
            if all(a.get(f) == b.get(f) for f in set(a) | set(b)):
                run.count('pairs_congruent')
                continue
            later(run, u, v, s1, s2, what, deep)
        if u == 'checkOneFile':
            left = real(I, s, ch)
    extra = [x for x in (located(I, n) for n in sorted(ASSIGNED)) if x and x not in left and x[0] in I.st0.heap]
    run.cov['assigned_globals'] = sorted(ASSIGNED)
    if left or extra:
        loop(run, I, left + extra)


def later(run, u, v, s1, s2, what, deep):
    before = list(firsts(u))
    for d, play in runs(v):
        base = play(s1, {})
        if base.unknown:
            continue
        for b in before:
            run.count('histories_evaluated')
            after = play(s2, b)
            if after.unknown:
                continue
            for f, x, y in TC.differences(v, after, base, {}) or ():
                run.violation('%s/%s' % (what[0], f), '%s after an earlier %s: %s is %s instead of %s; carried in %s (%s)' % (
                    top.CODE[v][1], top.CODE[u][1], f, str(x)[:160], str(y)[:160], ', '.join(what), d), unit=v)
                return


def firsts(u):
    """inputs of the earlier call"""
    def t(**k):
        return dict((a + TAG, b) for a, b in k.items())
    if u == 'checkOneFile':
        for p in (TC.FIRST, '/data/gone.jp2', '/data/a.jp2', '/data/empty1.jp2', '/data/huge1.jp2', '/data/n\u00e4\x01.jp2'):
            for fmt, fl, mix in (('jp2', False, 0), ('j2c', True, 0), ('jph', False, 2)):
                yield t(path=p, fmt=fmt, verbose=fl, pm=fl, nullxml=fl, mix=mix)
    elif u == 'human':
        for d, tree, tab in itertools.islice(S.trees(TC.all_tables()), 0, 60, 6):
            yield t(E=TC.copy(tree), table=tab)
    else:
        for d, v, tree in itertools.islice(S.mix_inputs(), 0, 200, 11):
            yield t(E=TC.copy(tree), mix=v)


def runs(v):
    if v == 'checkOneFile':
        xs = list(S.one_file())
        for d, w, a, valid in xs[:36] + xs[36::4]:
            w.files.update((TC.FIRST, '/data/empty1.jp2', '/data/huge1.jp2', '/data/n\u00e4\x01.jp2'))
            w.sizes = dict(w.sizes, **{'/data/empty1.jp2': 0, '/data/huge1.jp2': 2**34 + 5})
            yield d, lambda s, m, w=w, a=a, valid=valid: TC.run_one(s, w, a, valid, None, more=m)
    elif v == 'human':
        for d, tree, tab in itertools.islice(S.trees(TC.all_tables()), 0, 120, 3):
            yield d, lambda s, m, tree=tree, tab=tab: TC.run_human(s, tree, tab, more=m)
    else:
        for d, ver, tree in S.mix_inputs():
            yield d, lambda s, m, ver=ver, tree=tree: TC.run_mix(s, ver, tree, more=m)


def real(I, s, ch):
    args = set(top.arguments('checkOneFile'))
    out = []
    for k, f in ch:
        v = s.heap[k].f.get(f) if k in s.heap else None
        old = I.st0.heap[k].f.get(f)
        if isinstance(v, T) and all(x is old or x in args for x in ends(v)):
            continue
        out.append((k, f))
    return out


def loop(run, I, real):
    """state the analysis of one file changes must not reach the analysis of the next one through the program"""
    what = names(I, real)
    try:
        a = TC.parts(top.extract('code', 'main'))
        b = TC.parts(top.again('main', havoc=('checkOneFile', real)))
    except Exception as e:
        run.notes.append('main: %s' % str(e)[:200])
        return
    run.count('pairs_compared')
    bad = [f for f in ('analyse', 'stdout', 'exit', 'files') if a.get(f) != b.get(f)]
    if bad:
        run.violation('main/%s' % what[0], 'the analysis of one file changes %s, which the program reads when it handles the next '
                      'file (%s)' % (', '.join(what), ', '.join(bad)))
    else:
        run.count('pairs_congruent')


def ends(v):
    if v.op == 'ite':
        for x in v.a[1:]:
            for y in ends(x):
                yield y
    else:
        yield v


PROPS['C23'] = dict(units=dict(main=graphs('analyse', 'stdout', 'exit', 'files')),
                    pick=pick(main=lambda f, i, a, b: f in ('options', 'paths', 'stdout') and len(b.f['paths']) > 1))


def settings(run, deep):
    """what the command line leaves in module globals must not reach analyses asked for with options of their own"""
    I, _ = top.model('code')
    try:
        heap = top.extract('code', 'main').heap
    except Exception as e:
        run.notes.append('main: %s' % str(e)[:200])
        return
    at = dict((r.a[0], m) for m, r in I.modobj.items())
    fields = []
    for k, f in changed(run, I, heap):
        old = I.st0.heap[k].f.get(f) if k in I.st0.heap else None
        if k in at and isinstance(old, T) and old.op == 'c' and isinstance(cv(old), (bool, int, str)):
            fields.append((at[k], f, cv(old)))
    run.cov['settings_left_by_the_command_line'] = ['%s.%s' % x[:2] for x in fields]
    if not fields:
        return

    def left(J):
        h = dict(J.st0.heap)
        for m, f, _ in fields:
            k = J.modobj[m].a[0]
            h[k] = h[k].copy()
            h[k].f[f] = atom('set:%s.%s' % (m, f), None)
        return h
    other = [dict(('set:%s.%s' % (m, f), v) for (m, f, _), v in zip(fields, vs)) for vs in zip(*[variants(o) for _, _, o in fields])]
    what = tuple('%s.%s' % x[:2] for x in fields)
    m = U.code_model()
    h = left(m.I)
    for k in U.ALLKEYS:
        run.count('pairs_compared')
        try:
            s1, s2 = m.unit(k), m.extract(k, '', h)
        except Exception:
            run.count('pairs_not_extracted')
            continue
        if same(s1, s2):
            run.count('pairs_congruent')
            continue
        oc = Oracle(U.spec_model(), True)
        for r in samples(m, k, 200 if deep else 80):
            base = observe(make_env(r, oc), s1)
            for o in other:
                run.count('histories_evaluated')
                after = observe(make_env(dict(r, **o), oc), s2)
                for f in base:
                    x, y = base[f], after.get(f)
                    if not (x is UNK or y is UNK or x == y or f not in after):
                        run.violation('settings/%s' % f, '%s: %s depends on what the command line last left in %s: %s or %s (%s)' % (
                            unit_name(k), f, ', '.join(what), str(y)[:160], str(x)[:160], describe(r)[:200]), unit=unit_name(k))
                        break
    run.count('pairs_compared')
    try:
        s1, s2 = top.extract('code', 'checkOneFile'), top.again('checkOneFile', '', left(I))
    except Exception:
        run.count('pairs_not_extracted')
        return
    a, b = TC.parts(s1), TC.parts(s2)
    if all(a.get(f) == b.get(f) for f in set(a) | set(b)):
        run.count('pairs_congruent')
        return
    for d, play in runs('checkOneFile'):
        base = play(s1, {})
        for o in other:
            run.count('histories_evaluated')
            after = play(s2, o)
            if base.unknown or after.unknown:
                continue
            for f, x, y in TC.differences('checkOneFile', after, base, {}) or ():
                run.violation('settings/%s' % f, 'checkOneFile: %s depends on what the command line last left in %s: %s or %s (%s)' % (
                    f, ', '.join(what), str(x)[:160], str(y)[:160], d), unit='checkOneFile')
                return


def variants(old):
    if isinstance(old, bool):
        return [not old, True, False]
    if isinstance(old, int):
        return [1, 2, 0]
    return ['jph', 'j2c', 'jp2']


STATEFUL = ('open', 'stat', 'lstat', 'getsize', 'getmtime', 'getctime', 'isfile', 'isdir', 'exists', 'lexists', 'mmap', 'time', 'ctime', 'now',
            'read', 'readline', 'readlines', 'listdir', 'scandir', 'walk', 'glob', 'iglob', 'getcwd', 'abspath', 'Element', 'SubElement')


def cached(run):
    """a function whose results are kept must not depend on anything but its arguments, nor hand out what a report holds"""
    p = U.code_model().I.p
    funcs = {}
    for m, tree in p.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                funcs.setdefault(n.name, []).append((m, n))
    for name, places in sorted(funcs.items()):
        for m, n in places:
            if not any(keeps(d) for d in n.decorator_list):
                continue
            run.count('functions_that_keep_results')
            seen, todo = set(), [n]
            while todo:
                x = todo.pop()
                if id(x) in seen:
                    continue
                seen.add(id(x))
                for y in ast.walk(x):
                    why = None
                    if isinstance(y, ast.Call):
                        c = y.func.attr if isinstance(y.func, ast.Attribute) else y.func.id if isinstance(y.func, ast.Name) else ''
                        if c in STATEFUL:
                            why = 'calls %s' % c
                        todo += [k for _, k in funcs.get(c, ())]
                    elif isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'config' and y.attr.endswith('_FLAG'):
                        why = 'reads config.%s' % y.attr
                    if why:
                        run.violation('%s.%s keeps results' % (m, name), '%s.py:%d: %s keeps its results between calls although it %s' % (
                            m, n.lineno, name, why))
                        todo = []
                        break


def keeps(d):
    d = d.func if isinstance(d, ast.Call) else d
    return (d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else '') in ('lru_cache', 'cache')


def check(run, deep):
    run.cov['explanation'] = (
        'Every unit is summarised from the state after loading the modules; the shared part of the heap (module globals, class '
        'attributes, default arguments and what they hold) after the unit must be the same normal form as before it. ')
    cached(run)
    validators(run, deep)
    program(run, deep)
    settings(run, deep)
    from .topprops import check as rest
    rest(run, deep)
