"""Canonical decision diagrams of value graphs.

Two graphs that are not the same normal form may still say the same thing with their conditions nested, ordered or grouped
in another way.  Here every condition becomes an ordered decision diagram: a branch on a truth value, on which of some
constants a value is, or on which interval an integer lies in; values sit at the leaves, and operations are pushed to the
leaves.  Sequences are ordered as traces: items that exclude each other have no order.  Equal diagrams mean equal values for
every input.  (Integers that come from lengths are taken to be smaller than 2**53, so that halving them as floats is exact.)
"""
from .terms import (T, raw, C, cv, ty, TRUE, FALSE, NONE, ZERO, Not, rebuild, sub, add, scale, inset, slice_, mul, _mklin, _lin)

LIMIT = 60000
NODES = ('ddb', 'ddi', 'ddc')
LIFT = frozenset(['mul', 'mul2', 'add', 'div', 'floordiv', 'mod', 'pow', 'shl', 'shr', 'band', 'bor', 'bxor', 'len', 'max0', 'cat',
                  'inset', 'eq', 'lt', 'le', 'is', 'truth', 'slice', 'index', 'elem', 'in', 'neg'])
CALLS = frozenset(['int', 'str', 'float', 'round', 'math.ceil', 'math.floor', 'min', 'max', 'abs', 'int.from_bytes', 'repr', 'bool'])
BOOL = frozenset(['and', 'or', 'not'])


class Over(Exception):
    pass


class Canon(object):
    def __init__(self, limit=LIMIT):
        self.limit = limit
        self.steps = 0
        self.memo = {}
        self.cmemo = {}
        self.imemo = {}
        self.lv = {}

    # ------------------------------------------------------------ diagrams
    def level(self, x):
        r = self.lv.get(x)
        if r is None:
            p = 2
            if x.op == 'atom':
                p = 0
            elif x.op == 'len':
                p = 1
            r = self.lv[x] = (p, x.dg)
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Over()

    def points(self, subj, dds):
        """representatives of the branches on subj: (label, cofactors)"""
        kind = None
        pts = set()
        for d in dds:
            if d.op in NODES and d.a[0] is subj:
                kind = d.op
                if d.op != 'ddb':
                    pts.update(d.a[1])
        return kind, pts

    def split(self, subj, dds):
        kind, pts = self.points(subj, dds)
        if kind == 'ddb':
            return kind, (), [[self.co(d, subj, i) for d in dds] for i in (0, 1)]
        if kind == 'ddi':
            bps = tuple(sorted(pts))
            where = [(bps[0] - 1)] + list(bps)
            return kind, bps, [[self.coi(d, subj, p) for d in dds] for p in where]
        cs = tuple(sorted(pts, key=lambda c: c.dg))
        return kind, cs, [[self.coc(d, subj, c) for d in dds] for c in cs] + [[self.coc(d, subj, None) for d in dds]]

    @staticmethod
    def co(d, subj, i):
        return d.a[1 + i] if d.op == 'ddb' and d.a[0] is subj else d

    @staticmethod
    def coi(d, subj, p):
        if d.op != 'ddi' or d.a[0] is not subj:
            return d
        n = 0
        for b in d.a[1]:
            if p >= b:
                n += 1
        return d.a[2][n]

    @staticmethod
    def coc(d, subj, c):
        if d.op != 'ddc' or d.a[0] is not subj:
            return d
        if c is not None:
            for k, x in zip(d.a[1], d.a[2]):
                if k is c:
                    return x
        return d.a[3]

    def mk(self, subj, kind, pts, ch):
        lv = self.level(subj)
        for c in ch:
            if c.op in NODES and self.level(c.a[0]) <= lv:
                return self.mkslow(subj, kind, pts, ch)
        return self.mk0(subj, kind, pts, ch)

    def mk0(self, subj, kind, pts, ch):
        self.tick()
        if kind == 'ddb':
            return ch[0] if ch[0] is ch[1] else raw('ddb', subj, ch[0], ch[1])
        if kind == 'ddi':
            bps, out = [], [ch[0]]
            for b, c in zip(pts, ch[1:]):
                if c is not out[-1]:
                    bps.append(b)
                    out.append(c)
            return out[0] if not bps else raw('ddi', subj, tuple(bps), tuple(out))
        ks, out = [], []
        for k, c in zip(pts, ch):
            if c is not ch[-1]:
                ks.append(k)
                out.append(c)
        return ch[-1] if not ks else raw('ddc', subj, tuple(ks), tuple(out), ch[-1])

    def mkslow(self, subj, kind, pts, ch):
        r = ch[-1]
        if kind == 'ddb':
            return self.ite(raw('ddb', subj, FALSE, TRUE), ch[1], ch[0])
        if kind == 'ddi':
            for b, c in reversed(list(zip(pts, ch[:-1]))):
                r = self.ite(raw('ddi', subj, (b,), (TRUE, FALSE)), c, r)
            return r
        for k, c in zip(pts, ch[:-1]):
            r = self.ite(raw('ddc', subj, (k,), (TRUE,), FALSE), c, r)
        return r

    def top(self, dds):
        best = None
        for d in dds:
            if d.op in NODES and (best is None or self.level(d.a[0]) < self.level(best)):
                best = d.a[0]
        return best

    def ite(self, f, g, h):
        if f is TRUE:
            return g
        if f is FALSE:
            return h
        if g is h:
            return g
        if g is TRUE and h is FALSE:
            return f
        k = (f, g, h)
        r = self.imemo.get(k)
        if r is None:
            s = self.top(k)
            if s is None:
                raise Over()
            if f.op not in NODES:
                raise Over()
            kind, pts, parts = self.split(s, k)
            r = self.imemo[k] = self.mk0(s, kind, pts, [self.ite(*p) for p in parts])
        return r

    def conj(self, a, b):
        return self.ite(a, b, FALSE)

    def disj(self, a, b):
        return self.ite(a, TRUE, b)

    def neg(self, a):
        return self.ite(a, FALSE, TRUE)

    def apply(self, fn, dds, memo=None):
        if memo is None:
            memo = {}
        k = tuple(dds)
        r = memo.get(k)
        if r is None:
            s = self.top(k)
            if s is None:
                self.tick()
                try:
                    r = fn(*k)
                except (TypeError, ValueError, ArithmeticError):
                    # this path raises
                    r = raw('bad', *k)
            else:
                kind, pts, parts = self.split(s, k)
                r = self.mk(s, kind, pts, [self.apply(fn, p, memo) for p in parts])
            memo[k] = r
        return r

    def leaves(self, d, cond=TRUE, out=None, cap=60):
        """[(condition, leaf)] of a diagram, one entry per leaf"""
        found = {}

        def go(x, path):
            if x.op not in NODES:
                found[x] = self.disj(found.get(x, FALSE), path)
                if len(found) > cap:
                    raise Over()
                return
            kind, pts, parts = self.split(x.a[0], [x])
            n = len(parts)
            for i, p in enumerate(parts):
                g = self.mk0(x.a[0], kind, pts, [TRUE if j == i else FALSE for j in range(n)])
                go(p[0], self.conj(path, g))
        go(d, cond)
        return [(g, x) for x, g in sorted(found.items(), key=lambda p: p[0].dg) if g is not FALSE]

    # ------------------------------------------------------------ terms
    def dd(self, t):
        r = self.memo.get(t)
        if r is None:
            self.tick()
            r = self.memo[t] = self.dd_(t)
            self.memo[r] = r
        return r

    def truth(self, t):
        """diagram of a truth value"""
        d = self.dd(t)
        if d is TRUE or d is FALSE:
            return d
        return self.apply(self.leaftruth, [d])

    def leaftruth(self, x):
        if x is TRUE or x is FALSE:
            return x
        r = rebuild('truth', [x])
        if r is x or r.op == 'truth':
            return raw('ddb', r, FALSE, TRUE)
        return self.dd(r)

    def dd_(self, t):
        op = t.op
        if op in ('c', 'idx', 'phi', 'opq') or op in NODES:
            return t
        if op == 'atom':
            if t.a[1] == 'bool' or t.a[0] in ('verbose', 'nullxml', 'pm'):
                return raw('ddb', t, FALSE, TRUE)
            return t
        if op == 'and':
            r = TRUE
            for x in t.a:
                r = self.conj(r, self.truth(x))
            return r
        if op == 'or':
            r = FALSE
            for x in t.a:
                r = self.disj(r, self.truth(x))
            return r
        if op == 'not':
            return self.neg(self.truth(t.a[0]))
        if op == 'ite':
            return self.ite(self.truth(t.a[0]), self.dd(t.a[1]), self.dd(t.a[2]))
        if op == 'gs':
            return self.seq(t)
        if op == 'sum':
            xs = [self.dd(x) for k, x in t.a[1:]]
            if all(x is y for x, (k, y) in zip(xs, t.a[1:])):
                return t
            ks = [k for k, y in t.a[1:]]

            def mksum(*ls):
                r = C(t.a[0])
                for k, x in zip(ks, ls):
                    r = add(r, scale(k, x)) if x.op == 'c' or ty(x) is not None else self.lin(r, k, x)
                return r
            return self.lift(t, mksum, xs)
        if op in LIFT or op == 'call' and t.a[0] in CALLS or op == 'mcall' and t.a[1] in ('endswith', 'startswith'):
            n0 = {'call': 1, 'inset': 0, 'mcall': 0}.get(op, 0)
            args = [self.dd(x) if isinstance(x, T) else x for x in t.a]
            if op == 'elem':
                args[3] = self.canon(t.a[3])
                args[2] = self.canon(t.a[2])
                var = [0, 1]
            elif op in ('index', 'in', 'slice'):
                # sequences stay where they are
                var = [i for i in range(len(args)) if isinstance(t.a[i], T) and ty(t.a[i]) not in ('list', 'tuple')]
            else:
                var = [i for i in range(n0, len(args)) if isinstance(args[i], T)]

            def again(*ls):
                a = list(args)
                for i, x in zip(var, ls):
                    a[i] = x
                return self.simple(op, a)
            return self.lift(t, again, [args[i] for i in var])
        if op == 'mget' and len(t.a) == 2 and t.a[0].op == 'map' and t.a[0].a and all(k.op == 'c' for k, _ in t.a[0].a):
            key = self.dd(t.a[1])
            r = raw('mget', raw('map'), key)
            for k, v in reversed(t.a[0].a):
                r = self.ite(self.member(key, (k,)), self.dd(v), r)
            return r
        return raw(op, *[self.cargs(x) for x in t.a])

    @staticmethod
    def lin(r, k, x):
        c, d = _lin(r)
        d[x] = d.get(x, 0) + k
        return _mklin(c, d)

    def lift(self, t, fn, dds):
        save = self.steps
        try:
            self.limit, lim = min(self.limit, self.steps + 20000), self.limit
            try:
                return self.apply(fn, dds)
            finally:
                self.limit = lim
        except Over:
            if save + 20000 > self.limit:
                raise
            return raw('opq', t.op, *[self.cargs(x) for x in t.a])

    def cargs(self, x):
        if isinstance(x, T):
            return self.dd(x)
        if isinstance(x, tuple):
            return tuple(self.cargs(y) for y in x)
        return x

    def canon(self, t):
        return self.dd(t)

    # ------------------------------------------------------------ leaves: operations on values without conditions
    def simple(self, op, a):
        """diagram of an operation whose operands are leaves"""
        if op in ('lt', 'le'):
            return self.compare(op, a[0], a[1])
        if op == 'eq':
            return self.equal(a[0], a[1])
        if op == 'inset':
            return self.member(a[0], a[1])
        if op == 'truth':
            return self.leaftruth(a[0])
        if op == 'is':
            r = rebuild('is', a)
            return self.boolean(r)
        if op == 'in':
            r = rebuild('in', a)
            return self.boolean(r)
        if op == 'max0':
            x = a[0]
            if x.op == 'c':
                return C(max(0, cv(x))) if isinstance(cv(x), (int, float)) else raw('max0', x)
            if x.op == 'call' and x.a[0] == 'trunc':
                x = self.floordiv(x.a[1], x.a[2])
            lo, hi = bounds(x)
            if lo is not None and lo >= 0:
                return x
            if hi is not None and hi <= 0:
                return ZERO
            return raw('max0', x)
        if op == 'len':
            return self.length(a[0])
        if op == 'mcall':
            x, name = a[0], a[1]
            if len(a) == 3 and a[2].op == 'c' and isinstance(cv(a[2]), (bytes, str)) and cv(a[2]):
                n = len(cv(a[2]))
                s = slice_(x, C(-n), NONE) if name == 'endswith' else slice_(x, ZERO, C(n))
                return self.member(self.leafdd(s), (a[2],))
            return raw('ddb', raw('mcall', *a), FALSE, TRUE)
        if op == 'call':
            return self.call(a)
        if op in ('band', 'bor', 'shr', 'shl', 'mod', 'floordiv', 'pow', 'div'):
            return self.arith(op, a[0], a[1])
        r = rebuild(op, a)
        if r.op in BOOL or r.op == 'ite':
            return self.dd(r)
        if r.op in ('inset', 'eq', 'lt', 'le', 'is', 'in', 'truth') and (r.op != op):
            return self.simple(r.op, list(r.a))
        return r

    @staticmethod
    def leafdd(s):
        return s

    def boolean(self, r):
        if r is TRUE or r is FALSE:
            return r
        if r.op in BOOL or r.op == 'ite':
            return self.dd(r)
        if r.op in ('inset',):
            return self.member(r.a[0], r.a[1])
        if r.op == 'eq':
            return self.equal(*r.a)
        return raw('ddb', r, FALSE, TRUE)

    def length(self, x):
        if x.op == 'slice' and x.a[1].op == 'c' and (x.a[2].op == 'c') and isinstance(cv(x.a[1]), int) and cv(x.a[1]) >= 0:
            lo, hi = cv(x.a[1]), cv(x.a[2])
            if hi is None or isinstance(hi, int) and hi >= lo:
                n = self.length(x.a[0])
                if n.op not in NODES and isint(n):
                    mid = sub(n, C(lo))
                    bps = (lo + 1,) if hi is None else (lo + 1, hi) if hi > lo + 1 else (hi,) if hi > lo else ()
                    ch = (ZERO, mid) if hi is None else (ZERO, mid, C(hi - lo)) if hi > lo + 1 else \
                        (ZERO, C(1)) if hi > lo else (ZERO,)
                    if not bps:
                        return ZERO
                    return self.interval(n, bps, ch)
        r = rebuild('len', [x])
        if r.op == 'len':
            return r
        return self.dd(r)

    def interval(self, x, bps, ch):
        """diagram by the value of an integer expression"""
        c, d = _lin(x)
        neg = False
        if d:
            first = min(d, key=lambda y: y.dg)
            if d[first] < 0:
                neg = True
                d = dict((y, -k) for y, k in d.items())
            g = 0
            for k in d.values():
                g = gcd(g, k)
            d = dict((y, k // g) for y, k in d.items())
            s = _mklin(0, d)
            if neg:
                # x = c - g*s < b  <=>  s > (c-b)/g  <=>  s >= floor((c-b)/g)+1
                nb = [(c - b) // g + 1 for b in bps]
                nb.reverse()
                ch = list(reversed(ch))
            else:
                # x = c + g*s < b  <=>  s < (b-c)/g  <=>  s < ceil((b-c)/g)
                nb = [-((c - b) // g) for b in bps]
            return self.ival(s, tuple(nb), list(ch))
        n = 0
        for b in bps:
            if c >= b:
                n += 1
        return ch[n]

    def ival(self, s, bps, ch):
        lo, hi = bounds(s)
        b2, c2 = [], [ch[0]]
        for b, c in zip(bps, ch[1:]):
            if lo is not None and b <= lo:
                c2 = [c]
                b2 = []
                continue
            if hi is not None and b > hi:
                break
            if b2 and b2[-1] == b:
                c2[-1] = c
                continue
            b2.append(b)
            c2.append(c)
        if not b2:
            return c2[0]
        return self.mk(s, 'ddi', tuple(b2), c2)

    def compare(self, op, a, b):
        if a.op == 'c' and b.op == 'c':
            r = rebuild(op, [a, b])
            if r is TRUE or r is FALSE:
                return r
            return raw('ddb', r, FALSE, TRUE)
        a, b = self.nodiv(a, b)
        if isint(a) and isint(b):
            d = sub(a, b)
            return self.interval(d, (0,) if op == 'lt' else (1,), (TRUE, FALSE))
        if op == 'le':
            return self.neg(self.compare('lt', b, a))
        return raw('ddb', raw('lt', a, b), FALSE, TRUE)

    @staticmethod
    def nodiv(a, b):
        """compare x with y*k rather than x/k with y"""
        for _ in range(2):
            if a.op == 'div' and a.a[1].op == 'c' and isinstance(cv(a.a[1]), int) and cv(a.a[1]) > 0 and isint(a.a[0]) and isint(b):
                a, b = a.a[0], scale(cv(a.a[1]), b)
            if b.op == 'div' and b.a[1].op == 'c' and isinstance(cv(b.a[1]), int) and cv(b.a[1]) > 0 and isint(b.a[0]) and isint(a):
                a, b = scale(cv(b.a[1]), a), b.a[0]
        return a, b

    def equal(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'c' and b.op == 'c':
            return C(cv(a) == cv(b))
        if b.op == 'call' and b.a[0] == 'trunc':
            a, b = b, a
        if a.op == 'call' and a.a[0] == 'trunc' and b.op == 'div' and b.a[0] is a.a[1] and b.a[1] is a.a[2]:
            return self.member(self.mod(b.a[0], b.a[1]), (ZERO,))
        a, b = self.nodiv(a, b)
        if isint(a) and isint(b):
            c, d = _lin(sub(a, b))
            if d:
                g = 0
                for k in d.values():
                    g = gcd(g, k)
                if c % g:
                    return FALSE
            return self.interval(sub(a, b), (0, 1), (FALSE, TRUE, FALSE))
        if a.op == 'c':
            return self.member(b, (a,))
        if b.op == 'c':
            return self.member(a, (b,))
        r = rebuild('eq', [a, b])
        if r.op == 'eq':
            return raw('ddb', r, FALSE, TRUE)
        return self.dd(r)

    def member(self, x, consts):
        if x.op == 'c':
            return inset(x, consts)
        if x.op in NODES:
            return self.apply(lambda y: self.member(y, consts), [x])
        r = FALSE
        if x.op == 'div' and isint(x.a[0]):
            for c in consts:
                r = self.disj(r, self.equal(x, c) if isinstance(cv(c), int) else raw('ddc', x, (c,), (TRUE,), FALSE))
            return r
        if isint(x):
            for c in consts:
                v = cv(c)
                if isinstance(v, float) and v == int(v):
                    v = int(v)
                if isinstance(v, int):
                    r = self.disj(r, self.equal(x, C(int(v))))
            return r
        if ty(x) == 'bool' or x.op == 'ddb':
            return raw('ddb', raw('inset', x, tuple(consts)), FALSE, TRUE)
        k = ty(x)
        for c in consts:
            if k in ('str', 'bytes') and type(cv(c)).__name__ != k:
                continue
            if x.op == 'slice' and isinstance(cv(c), bytes):
                w = width(x)
                if w is not None and len(cv(c)) > w:
                    continue
            r = self.disj(r, raw('ddc', x, (c,), (TRUE,), FALSE))
        return r

    def call(self, a):
        f = a[0]
        xs = a[1:]
        if all(isinstance(x, T) and x.op == 'c' for x in xs) and f != 'int.from_bytes':
            v = [cv(x) for x in xs]
            try:
                fn = {'int': int, 'str': str, 'float': float, 'round': round, 'abs': abs, 'min': min, 'max': max, 'repr': repr,
                      'bool': bool, 'math.ceil': ceil, 'math.floor': floor}[f]
                return C(fn(*v))
            except Exception:
                return raw('call', *a)
        if f == 'int' and len(xs) == 1:
            x = xs[0]
            if isint(x):
                return x
            if x.op == 'div' and isint(x.a[0]) and x.a[1].op == 'c' and isinstance(cv(x.a[1]), int) and cv(x.a[1]) > 0:
                lo, hi = bounds(x.a[0])
                if lo is not None and lo >= 0:
                    return self.floordiv(x.a[0], x.a[1])
                return raw('call', 'trunc', x.a[0], x.a[1])
        if f == 'math.ceil' and len(xs) == 1:
            x = xs[0]
            if isint(x):
                return x
            if x.op == 'div' and isint(x.a[0]) and x.a[1].op == 'c' and isinstance(cv(x.a[1]), int) and cv(x.a[1]) > 0:
                return self.floordiv(add(x.a[0], C(cv(x.a[1]) - 1)), x.a[1])
        if f == 'math.floor' and len(xs) == 1:
            x = xs[0]
            if isint(x):
                return x
            if x.op == 'div' and isint(x.a[0]) and x.a[1].op == 'c' and isinstance(cv(x.a[1]), int) and cv(x.a[1]) > 0:
                return self.floordiv(x.a[0], x.a[1])
        if f == 'bool' and len(xs) == 1:
            return self.leaftruth(xs[0])
        if f in ('min', 'max') and len(xs) == 2 and isint(xs[0]) and isint(xs[1]):
            c = self.compare('lt', xs[0], xs[1])
            return self.ite(c, xs[0], xs[1]) if f == 'min' else self.ite(c, xs[1], xs[0])
        return raw('call', *a)

    def floordiv(self, x, k):
        n = cv(k)
        if x.op == 'c':
            return C(cv(x) // n)
        if n == 1:
            return x
        c, d = _lin(x)
        first = min(d, key=lambda y: y.dg)
        if d[first] < 0:
            return scale(-1, self.floordiv(add(scale(-1, x), C(n - 1)), k))
        whole = dict((y, q // n) for y, q in d.items() if q % n == 0)
        rest = dict((y, q) for y, q in d.items() if q % n)
        r = _mklin(c % n, rest)
        w = _mklin(c // n, whole)
        if r.op == 'c':
            return add(w, C(cv(r) // n))
        if n & (n - 1) == 0 and r.op != 'sum':
            return add(w, self.bits(r, n.bit_length() - 1, None))
        return add(w, raw('floordiv', r, k))

    def mod(self, x, k):
        n = cv(k)
        c, d = _lin(x)
        rest = dict((y, q % n) for y, q in d.items() if q % n)
        r = _mklin(c % n, rest)
        if r.op == 'c':
            return r
        if n & (n - 1) == 0 and r.op != 'sum':
            return self.bits(r, 0, n.bit_length() - 1)
        return raw('mod', r, k)

    def bits(self, x, s, w):
        """w bits of x (None: all) from bit s"""
        if w == 0:
            return ZERO
        if x.op == 'c':
            v = cv(x) >> s
            return C(v if w is None else v & ((1 << w) - 1))
        if x.op == 'bits':
            s0, w0 = x.a[1], x.a[2]
            if w0 is not None:
                if s >= w0:
                    return ZERO
                w = w0 - s if w is None else min(w, w0 - s)
            return self.bits(x.a[0], s0 + s, w)
        if x.op == 'sum' and x.a[0] == 0 and len(x.a) == 2 and x.a[1][0] > 0 and x.a[1][0] & (x.a[1][0] - 1) == 0:
            m = x.a[1][0].bit_length() - 1
            if s >= m:
                return self.bits(x.a[1][1], s - m, w)
        lo, hi = bounds(x)
        if lo is not None and lo >= 0 and hi is not None:
            n = hi.bit_length()
            if s >= n:
                return ZERO
            w = n - s if w is None else min(w, n - s)
            if s == 0 and w >= n:
                return x
        if s == 0 and w is None:
            return x
        return raw('bits', x, s, w)

    def arith(self, op, a, b):
        if a.op == 'c' and b.op == 'c':
            return rebuild(op, [a, b])
        if op == 'band' and a.op == 'c':
            a, b = b, a
        if b.op == 'c' and isinstance(cv(b), int) and isint(a):
            n = int(cv(b))
            if op == 'band' and n > 0:
                s = (n & -n).bit_length() - 1
                m = n >> s
                if m & (m + 1) == 0:
                    return scale(1 << s, self.bits(a, s, m.bit_length()))
            if op == 'band' and n == 0:
                return ZERO
            if op == 'shr' and n >= 0:
                return self.bits(a, n, None)
            if op == 'shl' and 0 <= n < 4096:
                return scale(1 << n, a)
            if op == 'floordiv' and n > 0:
                return self.floordiv(a, b)
            if op == 'mod' and n > 0:
                return self.mod(a, b)
        if op == 'shl' and isint(a) and isint(b):
            p = raw('pow', C(2), b)
            return p if a is C(1) else mul(a, p)
        r = rebuild(op, [a, b])
        return r

    # ------------------------------------------------------------ sequences
    def items(self, t, g, out):
        for it in t.a:
            c = self.conj(g, self.truth(it.a[0]))
            if c is FALSE:
                continue
            if it.op == 'gi':
                v = self.dd(it.a[1])
                if v.op in NODES and ty(it.a[1]) == 'bool':
                    for e, x in ((v, TRUE), (self.neg(v), FALSE)):
                        h = self.conj(c, e)
                        if h is not FALSE:
                            out.append((h, raw('gi', TRUE, x)))
                    continue
                if v.op in NODES:
                    for h, x in self.leaves(v, c):
                        out.append((h, raw('gi', TRUE, x)))
                else:
                    out.append((c, raw('gi', TRUE, v)))
            elif it.op == 'gx':
                v = self.dd(it.a[1])
                for h, x in self.leaves(v, c):
                    if x.op == 'gs':
                        self.items(x, h, out)
                    else:
                        out.append((h, raw('gx', TRUE, x)))
            else:
                body = self.dd(it.a[2])
                if body.op == 'gs' and not body.a:
                    continue
                desc = it.a[1]
                if desc.op == 'cloop':
                    for h, n in self.leaves(self.dd(rebuild('max0', [desc.a[1]])), c):
                        if n.op == 'c' and isinstance(cv(n), int) and cv(n) <= 0:
                            continue
                        out.append((h, raw('gl', TRUE, raw('cloop', desc.a[0], n), body)))
                else:
                    out.append((c, raw('gl', TRUE, raw(desc.op, *[self.cargs(x) for x in desc.a]), body)))

    def seq(self, t):
        out = []
        self.items(t, TRUE, out)
        res = []
        rest = out
        while rest:
            best = 0
            if rest[0][0] is not TRUE:
                for i in range(1, len(rest)):
                    if rest[i][0] is TRUE:
                        break
                    if all(self.conj(rest[i][0], rest[j][0]) is FALSE for j in range(i)) and rest[i][1].dg < rest[best][1].dg:
                        best = i
            g, v = rest.pop(best)
            if res and res[-1][1] is v and self.conj(res[-1][0], g) is FALSE:
                res[-1] = (self.disj(res[-1][0], g), v)
                if len(res) > 1:
                    # may commute with more than before
                    rest.insert(0, res.pop())
                    if len(res) and self.conj(res[-1][0], rest[0][0]) is FALSE and rest[0][1].dg < res[-1][1].dg:
                        pass
                    res.append(rest.pop(0))
            else:
                res.append((g, v))
        return raw('gs', *[raw(v.op, g, *v.a[1:]) for g, v in res])


def gcd(a, b):
    b = abs(b)
    while b:
        a, b = b, a % b
    return a


def ceil(x):
    import math
    return math.ceil(x)


def floor(x):
    import math
    return math.floor(x)


def isint(t):
    op = t.op
    if op == 'c':
        return isinstance(cv(t), int) and not isinstance(cv(t), bool)
    if op in ('len', 'idx', 'count', 'indexof', 'bits'):
        return True
    if op in ('band', 'bor', 'bxor', 'shr', 'shl', 'floordiv', 'mod', 'max0', 'mul'):
        return all(isint(x) for x in t.a)
    if op == 'sum':
        return all(isint(x) for k, x in t.a[1:])
    if op == 'call':
        return t.a[0] in ('int.from_bytes', 'int', 'trunc', 'math.ceil', 'math.floor')
    if op == 'atom':
        return t.a[1] == 'int'
    return False


def width(x):
    """largest length of a slice"""
    if x.op == 'slice':
        lo, hi = x.a[1], x.a[2]
        if hi is NONE:
            return None
        d = sub(hi, lo)
        if d.op == 'c' and isinstance(cv(d), int):
            if lo.op == 'c' and cv(lo) < 0:
                return None
            return max(0, cv(d))
    return None


def bounds(t):
    op = t.op
    if op == 'c':
        v = cv(t)
        return (v, v) if isinstance(v, int) else (None, None)
    if op == 'len':
        w = width(t.a[0]) if t.a[0].op == 'slice' and t.a[0].a[1].op == 'c' else None
        return 0, w
    if op in ('idx', 'count', 'indexof', 'max0'):
        return 0, None
    if op == 'bits':
        if t.a[2] is not None:
            return 0, (1 << t.a[2]) - 1
        lo, hi = bounds(t.a[0])
        return (None if lo is None else lo >> t.a[1]), (None if hi is None else hi >> t.a[1])
    if op == 'call' and t.a[0] == 'int.from_bytes':
        if len(t.a) == 3:
            w = width(t.a[1])
            if w is not None and t.a[1].a[1].op != 'c' and not nonneg(t.a[1].a[1]):
                w = None
            return 0, (256 ** w - 1 if w is not None else None)
        return None, None
    if op == 'mod' and t.a[1].op == 'c' and cv(t.a[1]) > 0:
        return 0, cv(t.a[1]) - 1
    if op == 'floordiv' and t.a[1].op == 'c' and cv(t.a[1]) > 0:
        lo, hi = bounds(t.a[0])
        n = cv(t.a[1])
        return (None if lo is None else lo // n), (None if hi is None else hi // n)
    if op == 'sum':
        lo = hi = t.a[0]
        for k, x in t.a[1:]:
            l, h = bounds(x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    if op == 'mul':
        lo, hi = 1, 1
        for x in t.a:
            l, h = bounds(x)
            if l is None or l < 0:
                return None, None
            lo = lo * l
            hi = None if hi is None or h is None else hi * h
        return lo, hi
    return None, None


def nonneg(t):
    lo, hi = bounds(t)
    return lo is not None and lo >= 0


_SHARED = None


def canon(t):
    """canonical form, or None when it gets too big"""
    global _SHARED
    if _SHARED is None:
        _SHARED = Canon()
    _SHARED.steps = 0
    try:
        return _SHARED.canon(t)
    except (Over, RecursionError):
        return None
    except Exception:
        if __debug__ and DEBUG:
            raise
        return None


DEBUG = False


def same(a, b):
    """do the two graphs say the same, as far as diagrams can tell"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    x = canon(a)
    return x is not None and x is canon(b)


LOOPS = ('loop', 'cloop', 'iloop')


def reach(ctx):
    """(diagram of the guards, loops around) of a place in the program"""
    g = TRUE
    for c in ctx:
        if c.op not in LOOPS:
            g = _SHARED.conj(g, _SHARED.truth(c))
    return g, tuple(_SHARED.canon(c) for c in ctx if c.op in LOOPS)


def uncovered(mine, ref):
    """operations that may raise, without those the reference has too under a guard at least as wide"""
    from .interp import mk_raises
    canon(TRUE)
    _SHARED.steps = 0
    table = {}
    kinds = set((y[0][1].op, y[0][2]) for y in mine)
    out = []
    try:
        for (ctx, term, h), where in ref:
            if (term.op, h) in kinds:
                g, loops = reach(ctx)
                k = (loops, _SHARED.canon(term), h)
                table[k] = _SHARED.disj(table.get(k, FALSE), g)
    except (Over, RecursionError):
        return mine
    for x in mine:
        (ctx, term, h), where = x
        _SHARED.steps = 0
        try:
            g, loops = reach(ctx)
            if _SHARED.conj(g, _SHARED.truth(mk_raises(term))) is FALSE:
                continue
            k = (loops, _SHARED.canon(term), h)
            if k in table and _SHARED.conj(g, _SHARED.neg(table[k])) is FALSE:
                continue
        except (Over, RecursionError):
            pass
        out.append(x)
    return out
