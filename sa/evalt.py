"""Valuation of summary terms on one region of the input space.

A summary is a guarded value term extracted from source.  To decide whether two
summaries that are not congruent really differ, the guards partition the input
space into regions; this module computes the value a summary takes on a region,
given by one valuation of the atoms (field bytes, options, results of nested
validators).  It interprets terms only; no analysed code is imported or run.
"""
import binascii
import datetime
import math
import os.path
import struct
import unicodedata
import uuid
import xml.etree.ElementTree as ET
from .terms import T, cv, NONE, UNBOUND
from .interp import exc_sub, PURE_METHODS


class _U(object):
    def __repr__(self):
        return 'UNKNOWN'

    def __bool__(self):
        raise RuntimeError('truth of unknown')


UNK = _U()
UNKTAG = '\0UNK'


class PyRaise(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class TooLong(Exception):
    """loop did not finish within the bound of the region"""


class Diverges(TooLong):
    """the values the loop's exit depends on repeat: it never ends"""


_DEPS = {}


def loop_deps(desc):
    """(indexes of the loop variables the exit depends on, whether on the iteration number)"""
    r = _DEPS.get(desc)
    if r is not None:
        return r
    d, trip, cond, breaks, system = desc.a
    seen = set()
    phis = set()
    idx = False

    def go(x):
        nonlocal idx
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, tuple):
                todo.extend(y)
                continue
            if not isinstance(y, T) or y in seen:
                continue
            seen.add(y)
            if y.op == 'idx' and y.a[0] == d:
                idx = True
            elif y.op in ('phi', 'phi?') and y.a[0] == d:
                k = y.a[1]
                if not isinstance(k, int) or k >= len(system):
                    idx = True
                elif k not in phis:
                    phis.add(k)
                    todo.append(system[k][1])
            else:
                todo.extend(z for z in y.a if isinstance(z, (T, tuple)))
    go(cond)
    go(breaks)
    r = _DEPS[desc] = (sorted(phis), idx)
    return r


class Rec(object):
    """abstract result of a nested validator / external object"""

    def __init__(self, **f):
        self.f = f

    def __repr__(self):
        return 'Rec(%s)' % ','.join(sorted(self.f))


class Excv(object):
    def __init__(self, name):
        self.name = name


_FREE = {}


def free(t):
    """loop depths whose frame the term depends on"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= free(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _FREE.get(t)
    if r is not None:
        return r
    if t.op in ('idx', 'phi', 'phi?'):
        r = frozenset((t.a[0],))
    elif t.op == 'gl':
        r = free(t.a[0]) | free(t.a[1]) | (free(t.a[2]) - {t.a[1].a[0]})
    elif t.op == 'cloop':
        r = free(t.a[1])
    elif t.op == 'loop':
        d, trip, cond, breaks, system = t.a
        r = free(trip) | ((free(cond) | free(breaks) | free(tuple(s[1] for s in system))) - {d}) | free(tuple(s[0] for s in system))
    elif t.op == 'outk':
        r = free(t.a[0]) | (free(t.a[2]) - {t.a[0].a[0]})
    elif t.op == 'exit':
        r = free(t.a[0])
    else:
        r = frozenset()
        for x in t.a:
            if isinstance(x, (T, tuple)):
                r |= free(x)
    _FREE[t] = r
    return r


# methods a program adds to the element class (filled in from its source)
PATCHED = set()


class _Run(object):
    __slots__ = ('exit', 'frames', 'last')


class Env(object):
    LIMIT = 400

    def __init__(self, atoms, child=None, ext=None):
        self.atoms = atoms
        self.child = child
        self.ext = ext
        self.frames = {}
        self.ver = 0
        self.memo = {}
        self.runs = {}
        self.begun = {}

    # ------------------------------------------------------------ core
    def key(self, t):
        f = free(t)
        if not f:
            return t
        fr = self.frames
        return (t,) + tuple(fr[d][0] if d in fr else -1 for d in sorted(f))

    def ev(self, t):
        if t.op == 'c':
            return cv(t)
        k = self.key(t)
        m = self.memo.get(k, self)
        if m is not self:
            if type(m) is PyRaise:
                raise m
            return m
        try:
            v = getattr(self, 'v_' + t.op, self.v_unknown)(t)
        except PyRaise as e:
            self.memo[k] = e
            raise
        self.memo[k] = v
        return v

    def v_unknown(self, t):
        return UNK

    def v_atom(self, t):
        v = self.atoms.get(t.a[0], UNK)
        return v

    def v_unbound(self, t):
        return UNK

    # ------------------------------------------------------------ logic
    def b(self, t):
        """truth value: True / False / UNK"""
        v = self.ev(t)
        if v is UNK:
            return UNK
        return self.tr(v)

    def tr(self, v):
        if v is UNK:
            return UNK
        if isinstance(v, ET.Element):
            return len(v) > 0
        if isinstance(v, (Rec, Excv)):
            return True
        return bool(v)

    def v_and(self, t):
        unk = False
        err = None
        for x in t.a:
            try:
                v = self.b(x)
            except PyRaise as e:
                err = err or e
                continue
            if v is False:
                return False
            if v is UNK:
                unk = True
        if unk:
            return UNK
        if err:
            raise err
        return True

    def v_or(self, t):
        unk = False
        err = None
        for x in t.a:
            try:
                v = self.b(x)
            except PyRaise as e:
                err = err or e
                continue
            if v is True:
                return True
            if v is UNK:
                unk = True
        if unk:
            return UNK
        if err:
            raise err
        return False

    def v_not(self, t):
        v = self.b(t.a[0])
        return UNK if v is UNK else (not v)

    def v_truth(self, t):
        return self.b(t.a[0])

    def v_ite(self, t):
        c = self.b(t.a[0])
        if c is UNK:
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if a is not UNK and b is not UNK and type(a) is type(b) and not isinstance(a, ET.Element) and a == b:
                return a
            return UNK
        return self.ev(t.a[1] if c else t.a[2])

    def v_inset(self, t):
        x = self.ev(t.a[0])
        if x is UNK:
            return UNK
        return any(x == cv(c) for c in t.a[1])

    def v_eq(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK or self.hasunk(a) or self.hasunk(b):
            return UNK
        return a == b

    def hasunk(self, v):
        if v is UNK:
            return True
        if isinstance(v, (list, tuple)):
            return any(self.hasunk(x) for x in v)
        if isinstance(v, dict):
            return any(self.hasunk(x) for x in v.values())
        return False

    def _cmp(self, t, f):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK:
            return UNK
        try:
            return f(a, b)
        except TypeError:
            raise PyRaise('TypeError')

    def v_lt(self, t):
        return self._cmp(t, lambda a, b: a < b)

    def v_le(self, t):
        return self._cmp(t, lambda a, b: a <= b)

    def v_is(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK:
            return UNK
        for c in (None, True, False):
            if a is c or b is c:
                return a is b
        if isinstance(a, (ET.Element, Rec)) or isinstance(b, (ET.Element, Rec)):
            return UNK
        return type(a) is type(b) and a == b

    def v_in(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK or self.hasunk(b):
            return UNK
        try:
            return a in b
        except TypeError:
            raise PyRaise('TypeError')

    def v_raises(self, t):
        try:
            v = self.ev(t.a[0])
        except PyRaise:
            return True
        return self._noraise(t.a[0]) if v is UNK else False

    def _noraise(self, x):
        """False when an unknown value still cannot come from an exception"""
        if x.op == 'attr':
            o = self.ev(x.a[0])
            if o is not UNK and (hasattr(o, x.a[1]) or isinstance(o, ET.Element) and x.a[1] in PATCHED):
                return False
        return UNK

    def v_raises_as(self, t):
        try:
            v = self.ev(t.a[0])
        except PyRaise as e:
            return any(exc_sub(e.name, n) for n in t.a[1])
        return self._noraise(t.a[0]) if v is UNK else False

    def v_raise(self, t):
        raise PyRaise(t.a[0])

    def v_excval(self, t):
        try:
            self.ev(t.a[0])
        except PyRaise as e:
            return Excv(e.name)
        return UNK

    def v_bound(self, t):
        def chk(x):
            if x is UNBOUND:
                raise PyRaise('UnboundLocalError')
            if x.op == 'ite':
                c = self.b(x.a[0])
                if c is UNK:
                    return UNK
                return chk(x.a[1] if c else x.a[2])
            if x.op == 'outk':
                run = self.run(x.a[0])
                if run is None or run.exit is UNK:
                    return UNK
                if run.exit != x.a[1]:
                    return True
                return self.at(x.a[0].a[0], run.last, lambda: chk(x.a[2]))
            if x.op == 'phi':
                v = self.ev(x)
                if v is _UNB:
                    raise PyRaise('UnboundLocalError')
            return True
        return chk(t.a[0])

    def v_noattr(self, t):
        raise PyRaise('AttributeError')

    def v_badcall(self, t):
        raise PyRaise('TypeError')

    def v_isint(self, t):
        v = self.ev(t.a[0])
        return UNK if v is UNK else isinstance(v, int)

    def v_isinst(self, t):
        v = self.ev(t.a[0])
        if v is UNK:
            return UNK
        tys = {'int': int, 'str': str, 'bytes': bytes, 'float': float, 'list': list, 'tuple': tuple, 'bool': bool,
               'dict': dict}
        r = False
        for n in t.a[1]:
            if n in tys:
                r = r or isinstance(v, tys[n])
            elif isinstance(v, Excv):
                r = r or exc_sub(v.name, n)
            elif isinstance(v, (int, str, bytes, float, list, tuple, type(None))):
                r = r or False
            else:
                return UNK
        return r

    # ------------------------------------------------------------ numbers
    def v_sum(self, t):
        n = t.a[0]
        for k, x in t.a[1:]:
            v = self.ev(x)
            if v is UNK:
                return UNK
            try:
                n = n + k * v if k != 1 else n + v
            except TypeError:
                raise PyRaise('TypeError')
        return n

    def _bin(self, t, f):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK:
            return UNK
        try:
            return f(a, b)
        except ZeroDivisionError:
            raise PyRaise('ZeroDivisionError')
        except (TypeError, ValueError, OverflowError) as e:
            raise PyRaise(type(e).__name__)

    def v_mul(self, t):
        n = self.ev(t.a[0])
        for x in t.a[1:]:
            v = self.ev(x)
            if v is UNK or n is UNK:
                return UNK
            try:
                n = n * v
            except (TypeError, OverflowError) as e:
                raise PyRaise(type(e).__name__)
        return n

    v_mul2 = v_mul

    def v_add(self, t):
        return self._bin(t, lambda a, b: a + b)

    v_fadd = v_add

    def v_fsub(self, t):
        return self._bin(t, lambda a, b: a - b)

    v_subt = v_fsub

    def v_div(self, t):
        return self._bin(t, lambda a, b: a / b)

    def v_floordiv(self, t):
        return self._bin(t, lambda a, b: a // b)

    def v_mod(self, t):
        return self._bin(t, lambda a, b: a % b)

    def v_pow(self, t):
        def f(a, b):
            if isinstance(b, int) and b > 5000:
                return UNK
            return a ** b
        return self._bin(t, f)

    def v_shl(self, t):
        def f(a, b):
            if b > 5000:
                return UNK
            return a << b
        return self._bin(t, f)

    def v_shr(self, t):
        return self._bin(t, lambda a, b: a >> b)

    def v_band(self, t):
        return self._bin(t, lambda a, b: a & b)

    def v_bor(self, t):
        return self._bin(t, lambda a, b: a | b)

    def v_bxor(self, t):
        return self._bin(t, lambda a, b: a ^ b)

    def v_max0(self, t):
        v = self.ev(t.a[0])
        if v is UNK:
            return UNK
        if not isinstance(v, int):
            raise PyRaise('TypeError')
        return max(0, v)

    # ------------------------------------------------------------ bytes, sequences
    def v_unpack(self, t):
        f, x = self.ev(t.a[0]), self.ev(t.a[1])
        if f is UNK or x is UNK:
            return UNK
        try:
            return struct.unpack(f, x)
        except (struct.error, TypeError) as e:
            raise PyRaise('struct.error' if isinstance(e, struct.error) else 'TypeError')

    def v_unpackidx(self, t):
        f, x = self.ev(t.a[0]), self.ev(t.a[1])
        if f is UNK or x is UNK:
            return UNK
        try:
            return struct.unpack(f, x)[t.a[2]]
        except (struct.error, TypeError) as e:
            raise PyRaise('struct.error' if isinstance(e, struct.error) else 'TypeError')

    def v_cat(self, t):
        vs = [self.ev(x) for x in t.a]
        if any(v is UNK for v in vs):
            return UNK
        r = vs[0]
        for v in vs[1:]:
            try:
                r = r + v
            except TypeError:
                raise PyRaise('TypeError')
        return r

    def v_illtyped(self, t):
        raise PyRaise('TypeError')

    def v_slice(self, t):
        x, lo, hi = self.ev(t.a[0]), self.ev(t.a[1]), self.ev(t.a[2])
        if x is UNK or lo is UNK or hi is UNK:
            return UNK
        try:
            return x[lo:hi]
        except TypeError:
            raise PyRaise('TypeError')

    def v_slice3(self, t):
        x, lo, hi, st = [self.ev(a) for a in t.a]
        if any(v is UNK for v in (x, lo, hi, st)):
            return UNK
        return x[lo:hi:st]

    def v_index(self, t):
        x, i = self.ev(t.a[0]), self.ev(t.a[1])
        if x is UNK or i is UNK:
            return UNK
        if isinstance(x, (Rec, Excv)):
            return UNK
        try:
            return x[i]
        except IndexError:
            raise PyRaise('IndexError')
        except KeyError:
            raise PyRaise('KeyError')
        except TypeError:
            raise PyRaise('TypeError')

    def v_len(self, t):
        x = self.ev(t.a[0])
        if x is UNK or isinstance(x, (Rec, Excv)):
            return UNK
        if isinstance(x, ET.Element) and any(c.tag == UNKTAG for c in x):
            return UNK
        try:
            return len(x)
        except TypeError:
            raise PyRaise('TypeError')

    def v_count(self, t):
        x, y = self.ev(t.a[0]), self.ev(t.a[1])
        if x is UNK or y is UNK or self.hasunk(x):
            return UNK
        return x.count(y)

    def v_indexof(self, t):
        x, y = self.ev(t.a[0]), self.ev(t.a[1])
        if x is UNK or y is UNK or self.hasunk(x):
            return UNK
        try:
            return x.index(y)
        except ValueError:
            raise PyRaise('ValueError')

    def v_tuple(self, t):
        return tuple(self.ev(x) for x in t.a)

    def v_range(self, t):
        a = [self.ev(x) for x in t.a]
        if any(x is UNK for x in a):
            return UNK
        try:
            return list(range(*a)) if len(range(*a)) <= 100000 else UNK
        except (TypeError, ValueError) as e:
            raise PyRaise(type(e).__name__)

    def v_zip(self, t):
        a = [self.ev(x) for x in t.a]
        if any(x is UNK for x in a):
            return UNK
        return list(zip(*a))

    def v_enumerate(self, t):
        a = [self.ev(x) for x in t.a]
        if any(x is UNK for x in a):
            return UNK
        return list(enumerate(a[0], a[1]))

    def v_repeat(self, t):
        return self._bin(t, lambda a, b: a * b)

    def v_firstor(self, t):
        x = self.ev(t.a[0])
        if x is UNK:
            return UNK
        return x[0] if len(x) else self.ev(t.a[1])

    def v_lput(self, t):
        x, i, v = self.ev(t.a[0]), self.ev(t.a[1]), self.ev(t.a[2])
        if x is UNK or i is UNK:
            return UNK
        x = list(x)
        try:
            x[i] = v
        except IndexError:
            raise PyRaise('IndexError')
        return x

    def items(self, t, out):
        """flatten a guarded sequence; unknown guards give UNK entries"""
        if t.op != 'gs':
            v = self.ev(t)
            if v is UNK:
                out.append(UNK)
            else:
                try:
                    out.extend(list(v))
                except TypeError:
                    out.append(UNK)
            return
        for it in t.a:
            g = self.b(it.a[0])
            if g is False:
                continue
            if g is UNK:
                out.append(UNK)
                continue
            if it.op == 'gi':
                out.append(self.ev(it.a[1]))
            elif it.op == 'gx':
                self.items(it.a[1], out)
            else:
                desc, body = it.a[1], it.a[2]
                run = self.run(desc)
                if run is None:
                    out.append(UNK)
                    continue
                for fr in run.frames:
                    self.at(desc.a[0], fr, lambda: self.items(body, out))

    def v_gs(self, t):
        out = []
        self.items(t, out)
        return out

    def v_distinct(self, t):
        v = self.ev(t.a[0])
        if v is UNK or self.hasunk(v):
            return UNK
        try:
            return list(dict.fromkeys(v))
        except TypeError:
            return UNK

    def v_setof(self, t):
        v = self.ev(t.a[0])
        if v is UNK or self.hasunk(v):
            return UNK
        try:
            return set(v)
        except TypeError:
            return UNK

    def v_any(self, t):
        x = self.ev(t.a[0]) if t.a[0].op != 'gs' else None
        if x is UNK:
            return UNK
        if x is None:
            x = self.v_gs(t.a[0])
        unk = False
        for v in x:
            r = self.tr(v)
            if r is True:
                return True
            if r is UNK:
                unk = True
        return UNK if unk else False

    def v_all(self, t):
        x = self.ev(t.a[0])
        if x is UNK:
            return UNK
        rs = [self.tr(v) for v in x]
        if any(r is False for r in rs):
            return False
        return UNK if any(r is UNK for r in rs) else True

    # ------------------------------------------------------------ loops
    def at(self, d, frame, f):
        old = self.frames.get(d)
        self.frames[d] = frame
        try:
            return f()
        finally:
            if old is None:
                del self.frames[d]
            else:
                self.frames[d] = old

    def newframe(self, i, phis):
        self.ver += 1
        return (self.ver, i, phis)

    def v_idx(self, t):
        fr = self.frames.get(t.a[0])
        return UNK if fr is None else fr[1]

    def v_phi(self, t):
        fr = self.frames.get(t.a[0])
        if fr is None or not isinstance(t.a[1], int) or t.a[1] >= len(fr[2]):
            return UNK
        return fr[2][t.a[1]]

    def run(self, desc):
        k = self.key(desc)
        r = self.runs.get(k, self)
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._run(desc)
        except (PyRaise, TooLong) as e:
            self.runs[k] = e
            raise
        self.runs[k] = r
        return r

    def frames_of(self, desc):
        """iterations that are certain to take place"""
        run = self.run(desc)
        return run.frames if run is not None else self.begun.get(self.key(desc), ())

    def _run(self, desc):
        d = desc.a[0]
        run = _Run()
        run.frames = []
        if desc.op == 'cloop':
            n = self.ev(desc.a[1])
            if n is UNK:
                return None
            if not isinstance(n, int):
                raise PyRaise('TypeError')
            if n > self.LIMIT:
                raise TooLong()
            for i in range(n):
                run.frames.append(self.newframe(i, ()))
            run.exit = 0
            run.last = self.newframe(n, ())
            return run
        d, trip, cond, breaks, system = desc.a
        n = None
        if trip is not NONE:
            n = self.ev(trip)
            if n is UNK:
                return None
        phis = []
        for init, step in system:
            if init is UNBOUND:
                phis.append(_UNB)
            else:
                phis.append(self.ev(init))
        i = 0
        dep, byidx = loop_deps(desc)
        states = set()
        while True:
            if n is None and not byidx:
                try:
                    st = tuple(phis[k] for k in dep)
                    if UNK not in st:
                        if st in states:
                            raise Diverges()
                        states.add(st)
                except TypeError:
                    byidx = True
            fr = self.newframe(i, tuple(phis))
            if n is not None and i >= n:
                run.exit = 0
                run.last = fr
                return run
            if i > self.LIMIT:
                raise TooLong()

            def one():
                c = self.b(cond)
                if c is UNK:
                    return UNK, None
                if not c:
                    return 0, None
                for k, b in enumerate(breaks, 1):
                    x = self.b(b)
                    if x is UNK:
                        run.frames.append(fr)       # how it ends is open, that it starts is not
                        return UNK, None
                    if x:
                        return k, None
                return None, [self._unb(st) for _, st in system]
            ex, nxt = self.at(d, fr, one)
            if ex is UNK:
                self.begun[self.key(desc)] = run.frames
                return None
            if ex == 0:
                run.exit = 0
                run.last = fr
                return run
            run.frames.append(fr)
            if ex is not None:
                run.exit = ex
                run.last = fr
                return run
            phis = nxt
            i += 1

    def _unb(self, st):
        if st is UNBOUND:
            return _UNB
        try:
            return self.ev(st)
        except PyRaise:
            return UNK

    def v_outk(self, t):
        run = self.run(t.a[0])
        if run is None or run.exit != t.a[1]:
            return UNK
        return self.at(t.a[0].a[0], run.last, lambda: self.ev(t.a[2]))

    def v_exit(self, t):
        run = self.run(t.a[0])
        if run is None:
            return UNK
        return run.exit == t.a[1]

    # ------------------------------------------------------------ maps, objects
    def v_map(self, t):
        return dict((self.ev(k), self.ev(v)) for k, v in t.a)

    def v_mput(self, t):
        m, k, v = [self.ev(x) for x in t.a]
        if m is UNK or k is UNK:
            return UNK
        m = dict(m)
        m[k] = v
        return m

    def v_mget(self, t):
        m = t.a[0]
        k = self.ev(t.a[1])
        if k is UNK:
            return UNK
        if m.op == 'map':
            for kk, vv in m.a:
                x = self.ev(kk)
                if x is UNK:
                    return UNK
                if x == k:
                    return self.ev(vv)
            raise PyRaise('KeyError')
        m = self.ev(m)
        if m is UNK:
            return UNK
        if k not in m:
            raise PyRaise('KeyError')
        return m[k]

    def v_mdel(self, t):
        m, k = self.ev(t.a[0]), self.ev(t.a[1])
        if m is UNK or k is UNK:
            return UNK
        m = dict(m)
        if k not in m:
            raise PyRaise('KeyError')
        del m[k]
        return m

    def v_mupdate(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or b is UNK:
            return UNK
        r = dict(a)
        r.update(b)
        return r

    def v_mapof(self, t):
        x = self.ev(t.a[0])
        if x is UNK or self.hasunk(x):
            return UNK
        return dict(x)

    def v_keys(self, t):
        x = self.ev(t.a[0])
        return UNK if x is UNK else list(x)

    def v_values(self, t):
        x = self.ev(t.a[0])
        return UNK if x is UNK else list(x.values())

    def v_items(self, t):
        x = self.ev(t.a[0])
        return UNK if x is UNK else list(x.items())

    def v_elem(self, t):
        tag = self.ev(t.a[0])
        if tag is UNK:
            return ET.Element(UNKTAG)
        if not isinstance(tag, str):
            tag = repr(tag)
        e = ET.Element(tag)
        try:
            e.text = self.ev(t.a[1])
        except PyRaise as x:
            e.text = UNK
        at = self.ev(t.a[2])
        if at is not UNK:
            for k, v in at.items():
                e.attrib[k] = v
        kids = []
        self.items(t.a[3], kids)
        for k in kids:
            if isinstance(k, ET.Element):
                e.append(k)
            else:
                e.append(ET.Element(UNKTAG))
        return e

    def v_child(self, t):
        args = [self.ev(x) for x in t.a]
        if self.child is None:
            return UNK
        r = self.child(args)
        if isinstance(r, PyRaise):
            raise r
        return r

    def v_newchild(self, t):
        return UNK

    def v_inst(self, t):
        return Rec(**dict((k, self.ev(v)) for k, v in t.a[1]))

    def v_attr(self, t):
        x = self.ev(t.a[0])
        name = t.a[1]
        if x is UNK:
            return UNK
        if x is None or isinstance(x, (int, str, bytes, float, list, tuple)):
            if hasattr(x, name):
                return UNK
            raise PyRaise('AttributeError')
        if isinstance(x, ET.Element):
            if x.tag == UNKTAG:
                return UNK
            if name in ('text', 'tag', 'attrib', 'tail'):
                return getattr(x, name)
            if hasattr(x, name) or name in PATCHED:
                return UNK
            raise PyRaise('AttributeError')
        if isinstance(x, Rec):
            return x.f.get(name, UNK)
        if isinstance(x, uuid.UUID) and name in ('hex', 'bytes', 'int', 'urn'):
            return getattr(x, name)
        return UNK

    # ------------------------------------------------------------ calls
    def v_kw(self, t):
        return UNK

    def _args(self, ts):
        pos, kw = [], {}
        for x in ts:
            if x.op == 'kw':
                kw[x.a[0]] = self.ev(x.a[1])
            else:
                pos.append(self.ev(x))
        return pos, kw

    def v_call(self, t):
        name = t.a[0]
        pos, kw = self._args(t.a[1:])
        if self.ext is not None:
            r = self.ext(name, pos, kw)
            if r is not NotImplemented:
                if isinstance(r, PyRaise):
                    raise r
                return r
        f = FN.get(name)
        if f is None:
            return UNK
        if any(self.hasunk(x) for x in pos) or any(self.hasunk(x) for x in kw.values()):
            return UNK
        try:
            return f(*pos, **kw)
        except PyRaise:
            raise
        except RecursionError:
            return UNK
        except Exception as e:
            n = type(e).__name__
            if isinstance(e, ET.ParseError):
                n = 'xml.etree.ElementTree.ParseError'
            if isinstance(e, struct.error):
                n = 'struct.error'
            raise PyRaise(n)

    def v_mcall(self, t):
        name = t.a[1]
        x = self.ev(t.a[0])
        pos, kw = self._args(t.a[2:])
        if x is UNK:
            return UNK
        if isinstance(x, Rec):
            f = x.f.get('.' + name)
            if f is None:
                return UNK
            r = f(*pos, **kw)
            if isinstance(r, PyRaise):
                raise r
            return r
        if x is None:
            raise PyRaise('AttributeError')
        if any(self.hasunk(v) for v in pos) or any(self.hasunk(v) for v in kw.values()):
            return UNK
        if isinstance(x, ET.Element):
            if x.tag == UNKTAG:
                return UNK
            if any(c.tag == UNKTAG for c in x.iter()):
                return UNK
            if name in ('find', 'findall', 'findtext', 'get', 'items', 'keys', 'iterfind'):
                r = getattr(x, name)(*pos, **kw)
                return r if name in ('find', 'findtext', 'get') else list(r)
            if name == 'iter':
                return list(x.iter(*pos))
            return UNK
        if name in ('decode', 'encode', 'format', 'join') or name in PURE_METHODS:
            if not hasattr(x, name):
                raise PyRaise('AttributeError')
            if not isinstance(x, (str, bytes, int, list, tuple, dict, set, datetime.datetime, datetime.date, uuid.UUID, float)):
                return UNK
            try:
                r = getattr(x, name)(*pos, **kw)
            except Exception as e:
                raise PyRaise(type(e).__name__)
            if name in ('keys', 'items', 'values'):
                r = list(r)
            return r
        if not hasattr(x, name):
            raise PyRaise('AttributeError')
        return UNK

    def v_percent(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a is UNK or self.hasunk(b):
            return UNK
        try:
            return a % b
        except (TypeError, ValueError) as e:
            raise PyRaise(type(e).__name__)


_UNB = UNK


def _uuid(*a, **k):
    return uuid.UUID(*a, **k)


def _sum(x, start=0):
    n = start
    for v in x:
        n = n + v
    return n


def _rng(*a):
    range(*a)
    return True


def _remove(xs, x):
    xs = list(xs)
    xs.remove(x)
    return xs


FN = {
    'int': int, 'float': float, 'str': str, 'repr': repr, 'format': format, 'pct': lambda s, v: s % (v,),
    'abs': abs, 'round': round, 'min': min, 'max': max, 'ord': ord, 'chr': chr, 'hex': hex, 'bin': bin, 'oct': oct,
    'divmod': divmod, 'sum': _sum, 'bytes': bytes, 'hash': hash, 'range': _rng,
    'sorted': lambda x, **k: sorted(x, **k), 'list.remove': _remove, 'reversed': lambda x: list(reversed(x)), 'list': list, 'tuple': tuple,
    'math.ceil': math.ceil, 'math.floor': math.floor, 'math.sqrt': math.sqrt, 'math.log': math.log,
    'math.log2': math.log2, 'math.pow': math.pow, 'math.prod': lambda x: math.prod(x), 'math.trunc': math.trunc,
    'math.isnan': math.isnan, 'math.isinf': math.isinf, 'math.isfinite': math.isfinite, 'math.fsum': math.fsum,
    'binascii.hexlify': binascii.hexlify, 'binascii.b2a_hex': binascii.hexlify, 'unicodedata.category': unicodedata.category,
    'uuid.UUID': _uuid, 'datetime.datetime': datetime.datetime, 'int.from_bytes': int.from_bytes,
    'datetime.date': datetime.date,
    'struct.unpack_from': struct.unpack_from, 'struct.unpack': struct.unpack, 'struct.calcsize': struct.calcsize,
    'os.path.join': os.path.join, 'os.path.basename': os.path.basename, 'os.path.dirname': os.path.dirname,
    'os.path.split': os.path.split, 'os.path.splitext': os.path.splitext, 'os.path.normpath': os.path.normpath,
    'os.path.isabs': os.path.isabs,
    'xml.etree.ElementTree.fromstring': lambda s: ET.fromstring(s),
    'xml.etree.ElementTree.XML': lambda s: ET.fromstring(s),
    'bytes.fromhex': bytes.fromhex, 'bytes.decode': bytes.decode, 'bytes.rstrip': bytes.rstrip,
}
