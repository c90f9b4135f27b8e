"""Non-interference of the reporting options with what is judged.

The failing part of the tests graph, the verdict and the properties are
extracted with the option atoms replaced by each combination of constants;
they must be the same graph for all of them.
"""
import itertools
from .terms import T, C, TRUE, FALSE, And, Is, Not, atom, cv, gs, inset, raw, rebuild, subst, ty, walk, show

FLAGS = (('verbose', 'bool'), ('nullxml', 'bool'), ('pm', 'bool'))
COMBOS = [dict(zip([f for f, _ in FLAGS], v)) for v in itertools.product((False, True), repeat=3)]
XML = ('xmlBox', 'uuidBox')     # --nullxml adds extracted XML here
REPORTED = ('plt', 'plm', 'ppt', 'ppm')


def fix(t, combo):
    return subst(t, dict((atom(n, ty_), C(combo[n])) for n, ty_ in FLAGS))


def neutral(t, memo):
    """child(options, ...) with the options blanked: nested validators have their own obligations"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(neutral(x, memo) for x in t)
        return t
    r = memo.get(t)
    if r is None:
        if t.op == 'child':
            r = raw('child', C('options'), *[neutral(x, memo) for x in t.a[1:]])
        elif t.op == 'mcall' and t.a[0].op == 'elem' and t.a[1] in ('find', 'findall') and head(t) not in REPORTED:
            e = t.a[0]
            e = raw('elem', e.a[0], e.a[1], e.a[2], without(e.a[3]))
            r = rebuild('mcall', tuple(neutral(x, memo) for x in (e,) + t.a[1:]))
        elif not t.a or not any(isinstance(x, (T, tuple)) for x in t.a):
            r = t
        else:
            a = tuple(neutral(x, memo) for x in t.a)
            r = t if a == t.a else rebuild(t.op, a)
        memo[t] = r
    return r


MARKERS = tuple(C(m) for m in (b'\xff\x57', b'\xff\x58', b'\xff\x60', b'\xff\x61'))


def head(t):
    p = t.a[2]
    p = cv(p) if isinstance(p, T) and p.op == 'c' else p
    return p.split('/')[0] if isinstance(p, str) else 'plt'


def without(seq):
    """children that are not packet marker segments (a lookup of another name cannot see those)"""
    if seq.op != 'gs':
        return seq
    out = []
    for it in seq.a:
        if it.op == 'gi':
            v, g = it.a[1], it.a[0]
            if v.op == 'attr' and v.a[0].op == 'child':
                g = And(g, Not(inset(v.a[0].a[1], MARKERS)))
            if g is not FALSE:
                out.append(raw('gi', g, v))
        elif it.op == 'gx':
            out.append(raw('gx', it.a[0], without(it.a[1])))
        else:
            out.append(raw('gl', it.a[0], it.a[1], without(it.a[2])))
    return gs(*out)


def same(a, b):
    """same graph, guards compared by mutual implication"""
    if a is b:
        return True
    if a is None or b is None or a.op != b.op:
        return False
    if a.op != 'gs' or len(a.a) != len(b.a):
        return False
    for x, y in zip(a.a, b.a):
        if x is y:
            continue
        if x.op != y.op or not equal(x.a[0], y.a[0]):
            return False
        if x.op == 'gi':
            if x.a[1] is not y.a[1]:
                return False
        elif x.op == 'gx':
            if not same(x.a[1], y.a[1]):
                return False
        elif x.a[1] is not y.a[1] or not same(x.a[2], y.a[2]):
            return False
    return True


def equal(g, h):
    if g is h or And(g, Not(h)) is FALSE and And(h, Not(g)) is FALSE:
        return True
    atoms = sorted(set(literals(g)) | set(literals(h)), key=lambda t: t.dg)
    return len(atoms) <= 12 and table(g, h, atoms)


def literals(g):
    if g.op in ('and', 'or', 'not'):
        for x in g.a:
            for y in literals(x):
                yield y
    elif g.op != 'c':
        yield g


def value(g, env):
    if g.op == 'c':
        return bool(cv(g))
    if g.op == 'not':
        return not value(g.a[0], env)
    if g.op == 'and':
        return all(value(x, env) for x in g.a)
    if g.op == 'or':
        return any(value(x, env) for x in g.a)
    return env[g]


def table(g, h, atoms):
    for v in itertools.product((False, True), repeat=len(atoms)):
        env = dict(zip(atoms, v))
        if value(g, env) != value(h, env):
            if And(*[a if env[a] else Not(a) for a in atoms]) is not FALSE:
                return False
    return True


def is_len_guard(c):
    s = repr(c)
    return c.op == 'not' and c.a[0].op == 'inset' and c.a[0].a[0].op == 'len'


def child_tests(v):
    return v.op == 'attr' and v.a[0].op == 'child' and v.a[1] == 'tests'


def failing(seq):
    """the items of a tests graph that report a failure"""
    if seq.op != 'gs':
        return seq
    out = []
    for it in seq.a:
        if it.op == 'gi':
            v, g = it.a[1], it.a[0]
            if v.op == 'elem' and v.a[3].op == 'gs' and not v.a[3].a:
                t = v.a[1]
                if t.op == 'c' and cv(t) is None:
                    continue
                g = And(g, Not(t) if ty(t) == 'bool' else Is(t, FALSE))
                v = raw('elem', v.a[0], FALSE, *v.a[2:])
            elif v.op == 'elem':
                v = raw('elem', v.a[0], v.a[1], v.a[2], failing(v.a[3]))
                if v.a[3].op == 'gs' and not v.a[3].a:
                    continue
                cs = g.a if g.op == 'and' else (g,)
                g = And(*[c for c in cs if not is_len_guard(c)])
            elif child_tests(v):
                cs = g.a if g.op == 'and' else (g,)
                g = And(*[c for c in cs if not is_len_guard(c)])
            if g is not FALSE:
                out.append(raw('gi', g, v))
        elif it.op == 'gx':
            s = failing(it.a[1])
            if s.op != 'gs' or s.a:
                out.append(raw('gx', it.a[0], s))
        else:
            s = failing(it.a[2])
            if s.op != 'gs' or s.a:
                out.append(raw('gl', it.a[0], it.a[1], s))
    return gs(*out)


def views(summary):
    """(name, list of graphs per option combination) for one unit"""
    out = {}
    for combo in COMBOS:
        memo = {}

        def f(t):
            return None if t is None else neutral(fix(t, combo), memo)
        tests = f(summary.f['tests'])
        out.setdefault('failed tests', []).append(failing(tests.a[3]) if tests.op == 'elem' else tests)
        ch = fix(summary.f['characteristics'], combo)
        if ch.op == 'elem':
            ch = neutral(raw('elem', ch.a[0], ch.a[1], ch.a[2], without(ch.a[3])), memo).a[3]
        name = 'properties' if summary.name not in XML else 'properties, nullxml=%s' % combo['nullxml']
        out.setdefault(name, []).append(ch)
        # packet marker segments: only their own option decides
        full = fix(summary.f['characteristics'], combo)
        if full.op == 'elem':
            seen = counts_tests(full)
            full = neutral(full, {}).a[3]
            if seen:
                full = gs(raw('gi', C(combo['verbose']), full))     # number of reported tests: left to the regions
            out.setdefault('%s, pm=%s' % (name, combo['pm']), []).append(full)
        for a in ('returnOffset', 'tilePartLength'):
            out.setdefault(a, []).append(f(summary.f[a]))
    return out


def counts_tests(t):
    return any(x.op == 'len' and isinstance(x.a[0], T) and child_tests(x.a[0]) for x in walk(t))


def interference(summary):
    """names of the views that differ between option combinations, and how many were compared"""
    bad = []
    n = 0
    for name, ts in views(summary).items():
        n += 1
        if any(not same(t, ts[0]) for t in ts[1:]):
            bad.append(name)
    return bad, n


def evaluate(key, region, a, oc, deep=False):
    """records of option interference on one region"""
    from .decide import clean, outcomes
    from .compare import collect, crash_of, describe, make_env
    from .evalt import PyRaise, TooLong, UNK
    res = []
    for combo in COMBOS if deep else [c for c in COMBOS if sum(c.values()) <= 1]:
        r = dict(region, **combo)
        e = make_env(r, oc)
        e.LIMIT = 8000
        try:
            if crash_of(e, a):
                return [], 0
            if a.f['tests'].op != 'elem' or a.f['characteristics'].op != 'elem':
                return [], 0
            o, p = [], []
            collect(e, a.f['tests'].a[3], o)
            collect(e, a.f['characteristics'].a[3], p)
            v = e.ev(a.f['isValid']) if key in ('JP2', 'contiguousCodestreamBox', b'jp2c') else None
        except (TooLong, PyRaise):
            return [], 0
        ls = list(outcomes(o))
        if v is UNK or any(t is UNK for _, t, _x in ls) or any(c is UNK for _, c in p):
            return [], 0
        f = sorted(paths(o))
        q = [c for t, c in p if t not in REPORTED]
        q = [drop(c) for c in q]
        if a.name in XML:
            q = [combo['nullxml'], q]
        every = [c for t, c in p]
        res.append((combo, f, v, q, every))
    out = []
    for combo, f, v, q, every in res[1:]:
        for r0 in res:
            if f != r0[1]:
                out.append(('tests', 'failed tests', f, r0[1], combo, r0[0]))
            elif v is not r0[2]:
                out.append(('isValid', 'isValid', repr(v), repr(r0[2]), combo, r0[0]))
            elif q != r0[3] and not (a.name in XML and q[0] != r0[3][0]):
                out.append(('characteristics', 'properties', brief_diff(q, r0[3]), brief_diff(r0[3], q), combo, r0[0]))
            elif a.name not in XML and combo['pm'] == r0[0]['pm'] and every != r0[4]:
                out.append(('characteristics', 'packet marker segments', brief_diff(every, r0[4]), brief_diff(r0[4], every), combo, r0[0]))
            if out:
                break
        if out:
            break
    return [dict(kind='option', field=x[0], tag=x[1], got='with %s: %s' % (x[4], x[2]), want='with %s: %s' % (x[5], x[3]),
                 region=describe(region), atoms=clean(region)) for x in out], 1


def drop(c):
    """without what the packet marker option adds further down"""
    if isinstance(c, tuple) and len(c) == 5 and c[4]:
        return c[:4] + (tuple(drop(x) for x in c[4] if x[0] not in REPORTED),)
    return c


def brief_diff(a, b):
    from .decide import brief
    return [brief(x) for x in a if x not in b][:4]


def paths(items, pre=''):
    for t, c in items:
        if c[4]:
            for x in paths([(None, y) for y in c[4]], pre + c[0] + '/'):
                yield x
        elif c[2] == 'False':
            yield pre + c[0]
