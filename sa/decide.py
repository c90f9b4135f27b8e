"""Obligations of a unit and how they are discharged.

Every (unit, field, tag) is an obligation "the value graph extracted from the
source equals the value graph of the reference rule".  Congruent graphs (same
normal form) discharge it for every input.  The others are compared on every
region of the input space the guards of the two graphs induce; a region on
which the two graphs have different values is a violation, a region on which
one of the graphs is unknown leaves the obligation undecided.
"""
import multiprocessing
import os
import resource
import signal
import time
import traceback
import xml.etree.ElementTree as ET
from .terms import Not
from .evalt import UNK, PyRaise, TooLong, Diverges
from . import units as U
from . import canon as K
from .compare import (TREES, ATTRS, Oracle, by_tag, canon, collect, crash_of, describe, make_env, project, tags_of)

WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)


def unit_name(key):
    return U.spec_model().unit(key).name + ('(codestream)' if key == 'contiguousCodestreamBox' else '')


class UnitState(object):
    """code and reference summaries of one unit, and which obligations are congruent"""

    def __init__(self, key):
        self.key = key
        self.error = None
        self.spec = U.spec_model().unit(key)
        self.name = unit_name(key)
        try:
            self.code = U.code_model().unit(key)
        except Exception as e:      # construct the extraction does not cover
            self.code = None
            self.error = '%s: %s' % (type(e).__name__, str(e)[:200])
        self.ok = []
        self.open = []
        if self.code is not None:
            self.split()

    def same(self, x, y):
        """equal normal forms, or equal decision diagrams"""
        if x is y:
            return True
        if K.same(x, y):
            self.by_diagram += 1
            return True
        return False

    def split(self):
        a, b = self.code, self.spec
        self.by_diagram = 0
        for f in TREES:
            ta, tb = tags_of(a.f[f]), tags_of(b.f[f])
            if ta is None or tb is None:
                (self.ok if self.same(a.f[f], b.f[f]) else self.open).append((f, '*'))
                continue
            good = True
            for t in sorted(ta | tb):
                same = self.same(project(a.f[f].a[3], t), project(b.f[f].a[3], t))
                good = good and same
                (self.ok if same else self.open).append((f, t))
            # (none), or the order of everything reported
            (self.ok if a.f[f] is b.f[f] or good and K.same(a.f[f], b.f[f]) else self.open).append(
                (f, '(order)' if ta | tb else '(none)'))
        for f in ATTRS:
            (self.ok if self.same(a.f[f], b.f[f]) else self.open).append((f, f))
        ra = sorted_obl(a)
        rb = sorted_obl(b)
        self.raise_total = len(ra)
        names = set(y[0] for y in rb)
        self.raise_open = [x for x in ra if x[0] not in names]
        if self.raise_open:
            self.raise_open = K.uncovered(self.raise_open, rb)

    def raise_open_new(self):
        from .raises import discharged
        return [x for x in self.raise_open if not discharged(x[0][0], x[0][1])]


def flat(seq, ctx=()):
    if seq.op != 'gs':
        return
    for it in seq.a:
        if it.op == 'gi':
            yield ctx + (it.a[0],), it.a[1]
        elif it.op == 'gx':
            for x in flat(it.a[1], ctx + (it.a[0],)):
                yield x
        else:
            for x in flat(it.a[2], ctx + (it.a[0], it.a[1])):
                yield x


def expand(items):
    for ctx, ob in items:
        if ob.op == 'ite':
            for x in expand([(ctx + (ob.a[0],), ob.a[1]), (ctx + (Not(ob.a[0]),), ob.a[2])]):
                yield x
        elif ob.op == 'obl':
            yield ctx, ob


def sorted_obl(s):
    """raise obligations without their source position: (identity, where)"""
    out = []
    for ctx, ob in expand(flat(s.obl)):
        out.append(((ctx, ob.a[0], ob.a[1]), '%s.py:%s in %s' % tuple(ob.a[2:5])))
    return out


# ------------------------------------------------------------ evaluation
def leaves(e):
    if len(e) == 0:
        yield e
    for c in e:
        for x in leaves(c):
            yield x


def brief(v):
    if isinstance(v, tuple) and len(v) == 5 and isinstance(v[0], str):
        if v[4]:
            return '<%s>%s</%s>' % (v[0], ''.join(str(brief(x)) for x in v[4][:6]), v[0])
        return '<%s>%s' % (v[0], v[2])
    if isinstance(v, list):
        return [brief(x) for x in v[:6]]
    return repr(v)


def clean(region):
    return dict((k, v.hex() if isinstance(v, bytes) else v) for k, v in region.items())


def lines(items, parent, out):
    for c in items:
        if c[4] or c[0] in CONTAINER_TAGS:
            out[(parent, c[0], '')] = out.get((parent, c[0], ''), 0) + 1
            lines(c[4], c[0], out)
        else:
            k = (parent, c[0], c[1:4])
            out[k] = out.get(k, 0) + 1
    return out


def inner(u, v):
    """(container, tag) of the values that differ between two nested reports"""
    a, b = lines(u, '', {}), lines(v, '', {})
    return set((k[0], k[1]) for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))


def count(items, text):
    return sum((c[2] == text) + count(c[4], text) for c in items)


def slot(x):
    """disagreements of which a few are kept"""
    return x['kind'], x['field'], x['tag'], x.get('short'), x.get('passes'), tuple(sorted(set(c for c, t in x.get('inner', ())))), x.get('tests_differ')


def sentinel(items):
    """a reported value says that a field could not be read"""
    for t, c in items:
        if c is not UNK and (c[2] == '-9999' or '-9999' in c[2] or c[4] and sentinel([(None, x) for x in c[4]])):
            return True
    return False


def outcomes(items):
    for t, c in items:
        if c is UNK:
            yield None, UNK, ''
        elif c[4]:
            for x in outcomes([(None, y) for y in c[4]]):
                yield x
        else:
            yield c[0], c[1], c[2]


def verdict(items, isvalid, key):
    """test outcomes are booleans, and the verdict says that none of them is False"""
    failed = False
    unk = False
    for tag, ty, text in outcomes(items):
        if ty is UNK:
            unk = True
        elif ty != 'bool' and not (ty == 'NoneType' and tag in CONTAINER_TAGS):
            return 'nonbool', tag, '%s %s' % (ty, text), 'a boolean outcome'
        elif text == 'False':
            failed = True
    if key not in ('JP2', 'contiguousCodestreamBox', b'jp2c') or isvalid is UNK:
        return None
    if failed and isvalid is not False:
        return 'verdict', 'isValid', repr(isvalid), 'False: a test failed'
    if not failed and not unk and isvalid is not True:
        return 'verdict', 'isValid', repr(isvalid), 'True: no test failed'
    return None


class _Names(object):
    def __init__(self):
        self.n = None

    def __contains__(self, tag):
        if self.n is None:
            self.n = set(U.spec_model().unit(k).name for k in U.ALLKEYS) | {'tileParts'}
        return tag in self.n


CONTAINER_TAGS = _Names()


def examine(key, region, a, b, oc, limit=None):
    """records of disagreement on one region, and the tags left undecided"""
    recs = []
    und = []
    e1 = make_env(region, oc)
    e2 = make_env(region, oc)
    e1.LIMIT = 8000
    if limit:
        e1.LIMIT, e2.LIMIT = 3 * limit, limit

    def rec(kind, field, tag, got, want, **kw):
        recs.append(dict(kw, kind=kind, field=field, tag=tag, got=got, want=want, region=describe(region),
                         atoms=clean(region)))
    try:
        c2 = crash_of(e2, b)
        sob = []
        for f in TREES:
            o = []
            collect(e2, b.f[f].a[3], o)
            sob.append(o)
        e2.LIMIT = max(e2.LIMIT, 6000)      # loops over what was reported
        at2 = [e2.ev(b.f[f]) for f in ATTRS]
    except TooLong:
        return recs, [('reference', 'long')], 0
    except PyRaise as e:
        return recs, [('reference', 'raise ' + e.name)], 0
    if c2:
        return recs, [('reference', 'raise')], 0
    try:
        c1 = crash_of(e1, a)
        if c1:
            rec('crash', '', c1.where, repr(c1), 'no exception')
            return recs, und, 1
        cob = []
        for f in TREES:
            o = []
            if a.f[f].op != 'elem':
                v = e1.ev(a.f[f])
                if v is UNK:
                    o.append((None, UNK))
                else:
                    for x in v:
                        c = canon(x)
                        o.append((c[0] if c is not UNK else None, c))
            else:
                collect(e1, a.f[f].a[3], o)
            cob.append(o)
        at1 = [e1.ev(a.f[f]) if a.f[f] is not None else None for f in ATTRS]
    except TooLong as e:
        rec('long', '', 'loop', 'loop repeats its state' if isinstance(e, Diverges) else
            'loop does not end within %d iterations' % e1.LIMIT, 'loop ends within %d' % e2.LIMIT)
        return recs, und, 1
    except PyRaise as e:
        rec('crash', '', e.name, 'raises %s' % e.name, 'no exception')
        return recs, und, 1
    dtests = False
    short = sentinel(sob[1]) or not region.get('B')
    bad = verdict(cob[0], at1[0], key)
    if bad:
        rec(bad[0], 'tests', bad[1], bad[2], bad[3])
    for f, x, y in zip(TREES, cob, sob):
        dx, dy = by_tag(x), by_tag(y)
        unk = False
        differ = False
        for tg in sorted(set(dx) | set(dy), key=str):
            u, v = dx.get(tg, []), dy.get(tg, [])
            if UNK in u or UNK in v:
                und.append((f, tg))
                unk = True
                continue
            if None in dx or None in dy:
                unk = True
            if u != v and not (None in dx and UNK in dx[None]) and not (None in dy and UNK in dy[None]):
                inside = inner(u, v) if tg in CONTAINER_TAGS or tg is None else ()
                rec('value', f, tg, brief(u), brief(v), short=short, inner=sorted(inside), passes=count(v, 'False') > count(u, 'False'))
                differ = True
        if differ and f == 'tests':
            dtests = True
        if not unk and not differ and x != y:
            rec('order', f, '(order)', [t for t, _ in x][:40], [t for t, _ in y][:40])
            cx, cy = [t for t, _ in x if t in CONTAINER_TAGS], [t for t, _ in y if t in CONTAINER_TAGS]
            if cx != cy:
                rec('sequence', f, '(order)', cx[:40], cy[:40])
    for f, x, y in zip(ATTRS, at1, at2):
        if x is UNK or y is UNK:
            und.append((f, f))
        elif x != y or type(x) is not type(y):
            rec('attr', f, f, repr(x), repr(y), tests_differ=dtests)
    return recs, und, 1


_CTX = {'want': None, 'stop': None}


# units whose loops are counted by a field, not by nested validators
LONG = (b'\xff\x5f', b'\xff\x52', b'\xff\x53', b'\xff\x5c', b'\xff\x5d', b'\xff\x63', 'icc', b'cdef', b'cmap', b'bpcc', b'ulst')


class Late(Exception):
    pass


def _late(*a):
    raise Late()


def _limits():
    """a worker gives up before the machine runs out of memory"""
    signal.signal(signal.SIGALRM, _late)
    room = 24 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (room // WORKERS + (1 << 30),) * 2)
    except (ValueError, OSError):
        pass


def _shard(args):
    key, w, n, budget, deep, stop_on = args
    t0 = time.time()
    out = dict(key=key, regions=0, decided=0, undecided={}, recs=[], finished=False, error=None, long=0)
    signal.setitimer(signal.ITIMER_REAL, budget + 15)
    try:
        from .cells import constants, counted, regions, texts
        from . import options
        a = U.code_model().unit(key)
        b = U.spec_model().unit(key)
        ca, cb = [constants(*[x for x in s.f.values() if x is not None]) for s in (a, b)]
        cs = ca | cb
        ta, tb = [texts(*[x for x in s.f.values() if x is not None]) for s in (a, b)]
        odd = (ca - cb) | (ta - tb)
        many = set(x[0] for x in counted(key, odd))
        oc = Oracle(U.spec_model(), True)
        seen = {}
        spent, again = 0.0, set()
        for i, r in enumerate(regions(key, cs, deep, odd)):
            if i % n != w:
                continue
            if time.time() - t0 > budget or _CTX['stop'] is not None and _CTX['stop'].value:
                break
            if stop_on == 'options':
                recs, d = options.evaluate(key, r, a, oc, deep)
                und = () if d else (('options', 'undecided'),)
            else:
                recs, und, d = examine(key, r, a, b, oc)
                if und == [('reference', 'long')] and (key in LONG or r['B'] in many) and r.get('verbose') and (r['B'], r['N']) not in again and \
                        spent < 2 + 0.3 * (time.time() - t0):
                    again.add((r['B'], r['N']))
                    t1 = time.time()
                    recs, und, d = examine(key, r, a, b, oc, 12000)
                    spent += time.time() - t1
                    out['long'] += d
            out['regions'] += 1
            out['decided'] += d
            for u in und:
                k = '%s/%s' % u
                out['undecided'][k] = out['undecided'].get(k, 0) + 1
            for x in recs:
                k = slot(x)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 3:
                    x['unit'] = key
                    out['recs'].append(x)
                    if _CTX['want'] and _CTX['stop'] is not None and _CTX['want'](x):
                        _CTX['stop'].value = 1
        else:
            out['finished'] = True
    except Late:
        out['undecided']['region/late'] = 1
    except MemoryError:
        out['undecided']['region/memory'] = 1
    except Exception:
        out['error'] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['seconds'] = time.time() - t0
    return out


def run_regions(keys, budget, deep=False, want=None, mode=None):
    """region comparison of the given units; stops once want(rec) holds for a unit"""
    res = []
    t0 = time.time()
    ctx = multiprocessing.get_context('fork')
    left = list(keys)
    _CTX['want'] = want
    _CTX['stop'] = ctx.Value('b', 0, lock=False)
    pool = ctx.Pool(WORKERS, _limits)
    try:
        while left:
            k = left.pop(0)
            b = max(2.0, (budget - (time.time() - t0)) / (len(left) + 1))
            job = pool.map_async(_shard, [(k, w, WORKERS, b, deep, mode) for w in range(WORKERS)], chunksize=1)
            try:
                parts = job.get(b + 60)
            except multiprocessing.TimeoutError:        # a worker was ended
                pool.terminate()
                pool = ctx.Pool(WORKERS, _limits)
                parts = [dict(key=k, regions=0, decided=0, undecided={'workers/ended': 1}, recs=[], finished=False, error=None, long=0)]
            r = dict(key=k, regions=sum(p['regions'] for p in parts), decided=sum(p['decided'] for p in parts), long=sum(p['long'] for p in parts),
                     finished=all(p['finished'] for p in parts), error=[p['error'] for p in parts if p['error']][:1],
                     undecided={}, recs=[])
            seen = {}
            for p in parts:
                for u, n in p['undecided'].items():
                    r['undecided'][u] = r['undecided'].get(u, 0) + n
                for x in p['recs']:
                    kk = slot(x)
                    seen[kk] = seen.get(kk, 0) + 1
                    if seen[kk] <= 3:
                        r['recs'].append(x)
            res.append(r)
            if want and any(want(x) for x in r['recs']):
                break
    finally:
        pool.terminate()
    return res
