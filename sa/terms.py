"""Hash-consed value terms with canonicalising constructors.

A term is the value number of an expression.  Two program points that get the
same (pointer-equal) term compute the same value for every input.  Nothing in
here executes analysed code: terms are built from syntax only.
"""
import hashlib
import struct as _struct

_TABLE = {}


class T(object):
    __slots__ = ('op', 'a', 'dg', '_ty')

    def __repr__(self):
        return show(self)


def _enc(x):
    if isinstance(x, T):
        return b'T' + x.dg
    if isinstance(x, tuple):
        return b'(' + b','.join(_enc(i) for i in x) + b')'
    return (type(x).__name__ + ':' + repr(x)).encode('utf-8', 'backslashreplace')


def _key(x):
    if isinstance(x, T):
        return ('T', id(x))
    if isinstance(x, tuple):
        return tuple(_key(i) for i in x)
    return (type(x).__name__, x)


def raw(op, *a):
    k = (op,) + tuple(_key(i) for i in a)
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.dg = hashlib.sha1(op.encode() + b'|' + b';'.join(_enc(i) for i in a)).digest()
        t._ty = 0
        _TABLE[k] = t
    return t


# --------------------------------------------------------------- constants
def C(v):
    if isinstance(v, float):
        return raw('c', 'float', repr(v))
    return raw('c', v)


def isC(t):
    return t.op == 'c'


def cv(t):
    if len(t.a) == 2:
        return float(t.a[1])
    return t.a[0]


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
UNBOUND = raw('unbound')


def is_const(t, v):
    return t.op == 'c' and len(t.a) == 1 and type(t.a[0]) is type(v) and t.a[0] == v


# --------------------------------------------------------------- typing
_BOOLOPS = {'lt', 'le', 'eq', 'is', 'inset', 'in', 'not', 'and', 'or', 'truth',
            'raises', 'any', 'all', 'isinst'}


def ty(t):
    if t._ty != 0:
        return t._ty
    r = _ty(t)
    t._ty = r
    return r


def _ty(t):
    op = t.op
    if op == 'c':
        v = cv(t)
        if v is None:
            return 'none'
        return type(v).__name__
    if op in _BOOLOPS:
        return 'bool'
    if op in ('sum', 'mul', 'shr', 'shl', 'band', 'bor', 'bxor', 'neg', 'div', 'floordiv', 'pow'):
        return 'num'
    if op in ('len', 'fb', 'idx', 'max0', 'count', 'indexof'):
        return 'int'
    if op == 'ite':
        a, b = ty(t.a[1]), ty(t.a[2])
        if t.a[1] is UNBOUND:
            return b
        if t.a[2] is UNBOUND:
            return a
        if a == b:
            return a
        if a in ('int', 'num', 'float') and b in ('int', 'num', 'float'):
            return 'num'
        return None
    if op == 'cat':
        return ty(t.a[0])
    if op in ('fmt', 'strof'):
        return 'str'
    if op == 'atom':
        return t.a[1]
    if op == 'slice':
        return ty(t.a[0])
    if op in ('gs',):
        return 'list'
    if op == 'tuple':
        return 'tuple'
    if op == 'call':
        return CALL_TYPES.get(t.a[0])
    if op == 'unpackidx':
        return 'int'
    if op == 'mcall':
        return MCALL_TYPES.get(t.a[1])
    return None


CALL_TYPES = {
    'int.from_bytes': 'int', 'int': 'int', 'float': 'float', 'round': 'num', 'math.ceil': 'int', 'math.floor': 'int',
    'abs': 'num', 'min': None, 'max': None, 'str': 'str', 'repr': 'str', 'hex': 'str',
    'binascii.hexlify': 'bytes', 'bytes': 'bytes', 'isinstance': 'bool', 'ord': 'int', 'chr': 'str',
    'sorted': 'list', 'list': 'list', 'os.path.isfile': 'bool', 'os.path.isdir': 'bool',
    'os.path.isabs': 'bool', 'os.path.exists': 'bool', 'os.path.getsize': 'int',
    'os.path.abspath': 'str', 'os.path.basename': 'str', 'os.path.join': 'str',
    'glob.glob': 'list', 'unicodedata.category': 'str',
}
MCALL_TYPES = {
    'findall': 'list', 'strip': 'str', 'encode': 'bytes', 'decode': 'str', 'hex': 'str',
    'isoformat': 'str', 'split': 'list', 'startswith': 'bool', 'endswith': 'bool', 'lower': 'str',
    'upper': 'str', 'join': 'str', 'format': 'str',
}


def atom(name, t=None):
    return raw('atom', name, t)


_NUM = ('int', 'num', 'float', 'bool')


# --------------------------------------------------------------- booleans
_MEMO = {}


def memo(f):
    """cache on the identity of the (hash-consed, immortal) arguments"""
    name = f.__name__

    def g(*a):
        k = (name,) + tuple(id(x) if isinstance(x, T) else x for x in a)
        try:
            r = _MEMO.get(k)
        except TypeError:
            return f(*a)
        if r is None:
            r = f(*a)
            _MEMO[k] = (r,)
            return r
        return r[0]
    g.__name__ = name
    return g


@memo
def Not(t):
    if t.op == 'c':
        return C(not cv(t))
    if t.op == 'not':
        return t.a[0]
    if t.op == 'lt':
        return le(t.a[1], t.a[0])
    if t.op == 'le':
        return lt(t.a[1], t.a[0])
    if t.op == 'and':
        return Or(*[Not(x) for x in t.a])
    if t.op == 'or':
        return And(*[Not(x) for x in t.a])
    if t.op == 'ite' and ty(t) == 'bool':
        return ite(t.a[0], Not(t.a[1]), Not(t.a[2]))
    return raw('not', t)


@memo
def And(*ts):
    flat = []
    seen = set()
    for t in ts:
        t = truth(t)
        for x in (t.a if t.op == 'and' else (t,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or id(x) in seen:
                continue
            seen.add(id(x))
            flat.append(x)
    for x in flat:
        if id(Not(x)) in seen:
            return FALSE
    # simplify disjunctions and conditionals by what the other conjuncts say
    facts = [x for x in flat if x.op not in ('or', 'ite')]
    fact = facts[0] if len(facts) == 1 else raw('and', *sorted(facts, key=lambda x: x.dg)) if facts else None
    out = []
    for x in flat:
        if x.op == 'ite' and fact is not None:
            r = implied(x.a[0], fact, True)
            if r is not None:
                y = x.a[1] if r else x.a[2]
                return And(*(out + [y] + [z for z in flat if z is not x and not any(z is o for o in out)]))
        if x.op == 'or':
            if any(id(y) in seen for y in x.a):
                continue
            rest = [y for y in x.a if id(Not(y)) not in seen]
            if fact is not None:
                say = [(y, implied(y, fact, True)) for y in rest]
                if any(r is True for y, r in say):
                    continue
                rest = [y for y, r in say if r is None]
            if len(rest) != len(x.a):
                orig = x
                x = Or(*rest)
                if x is FALSE:
                    return FALSE
                if x.op != 'or':
                    return And(*(out + [x] + [z for z in flat if z is not orig and not any(z is o for o in out)]))
        out.append(x)
    flat = out
    # inset conjunctions on same subject
    by = {}
    for x in flat:
        if x.op == 'inset':
            by.setdefault(id(x.a[0]), []).append(x)
    for lst in by.values():
        if len(lst) > 1:
            keep = [v for v in lst[0].a[1] if all(_member(v, o.a[1]) for o in lst[1:])]
            new = inset(lst[0].a[0], keep)
            rest = [x for x in flat if x not in lst]
            return And(new, *rest)
    nots = [x for x in flat if x.op == 'not' and x.a[0].op == 'inset']
    for i, n in enumerate(nots):
        for m in nots[i + 1:]:
            if m.a[0].a[0] is n.a[0].a[0]:
                new = Not(inset(n.a[0].a[0], list(n.a[0].a[1]) + list(m.a[0].a[1])))
                return And(new, *[z for z in flat if z is not n and z is not m])
    for n in nots:
        for x in flat:
            if x.op == 'inset' and x.a[0] is n.a[0].a[0]:
                keep = [v for v in x.a[1] if not _member(v, n.a[0].a[1])]
                new = inset(x.a[0], keep)
                return And(new, *[z for z in flat if z is not n and z is not x])
    ors = [x for x in flat if x.op == 'or']
    if ors:
        out = []
        for x in flat:
            if x.op != 'or':
                rs = [implied(x, d, True) for d in ors]
                if any(r is False for r in rs):
                    return FALSE
                if any(r is True for r in rs):
                    continue
            out.append(x)
        if len(out) != len(flat):
            return And(*out)
    if not flat:
        return TRUE
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda x: x.dg)
    return raw('and', *flat)


@memo
def Or(*ts):
    flat = []
    seen = set()
    for t in ts:
        t = truth(t)
        for x in (t.a if t.op == 'or' else (t,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or id(x) in seen:
                continue
            seen.add(id(x))
            flat.append(x)
    for x in flat:
        if id(Not(x)) in seen:
            return TRUE
    facts = [Not(x) for x in flat if x.op not in ('and', 'ite')]
    fact = facts[0] if len(facts) == 1 else raw('and', *sorted(facts, key=lambda x: x.dg)) if facts else None
    out = []
    for x in flat:
        if x.op == 'and':
            if any(id(y) in seen for y in x.a):
                continue
            rest = [y for y in x.a if id(Not(y)) not in seen]
            if fact is not None:
                say = [(y, implied(y, fact, True)) for y in rest]
                if any(r is False for y, r in say):
                    continue
                rest = [y for y, r in say if r is None]
            if len(rest) != len(x.a):
                orig = x
                x = And(*rest)
                if x is TRUE:
                    return TRUE
                return Or(*(out + [x] + [z for z in flat if z is not orig and not any(z is o for o in out)]))
        out.append(x)
    flat = out
    by = {}
    for x in flat:
        if x.op == 'inset':
            by.setdefault(id(x.a[0]), []).append(x)
    for lst in by.values():
        if len(lst) > 1:
            vals = []
            for o in lst:
                vals += list(o.a[1])
            new = inset(lst[0].a[0], vals)
            rest = [x for x in flat if x not in lst]
            return Or(new, *rest)
    nots = [x for x in flat if x.op == 'not' and x.a[0].op == 'inset']
    for i, n in enumerate(nots):
        for m in nots[i + 1:]:
            if m.a[0].a[0] is n.a[0].a[0]:
                new = Not(inset(n.a[0].a[0], [v for v in n.a[0].a[1] if _member(v, m.a[0].a[1])]))
                return Or(new, *[z for z in flat if z is not n and z is not m])
    for n in nots:
        for x in flat:
            if x.op == 'inset' and x.a[0] is n.a[0].a[0]:
                keep = [v for v in n.a[0].a[1] if not _member(v, x.a[1])]
                new = Not(inset(x.a[0], keep))
                return Or(new, *[z for z in flat if z is not n and z is not x])
    # (L and x in A) or (L and x in B)  ->  L and x in A|B
    groups = {}
    for x in flat:
        for y in (x.a if x.op == 'and' else ()):
            if y.op == 'inset':
                k = (id(y.a[0]),) + tuple(sorted(id(z) for z in x.a if z is not y))
                if k in groups:
                    x2, y2 = groups[k]
                    m = And(*([z for z in x.a if z is not y] + [inset(y.a[0], list(y.a[1]) + list(y2.a[1]))]))
                    return Or(m, *[z for z in flat if z is not x and z is not x2])
                groups[k] = (x, y)
    if not flat:
        return FALSE
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda x: x.dg)
    return raw('or', *flat)


def _member(v, consts):
    return any(v is c for c in consts)


def inset(x, consts):
    """x == one of the constant terms."""
    uniq = {}
    for c in consts:
        uniq[id(c)] = c
    cs = sorted(uniq.values(), key=lambda c: c.dg)
    if not cs:
        return FALSE
    if x.op == 'c':
        xv = cv(x)
        for c in cs:
            try:
                if xv == cv(c):
                    return TRUE
            except Exception:
                pass
        return FALSE
    if x.op == 'ite':
        a, b = x.a[1], x.a[2]
        if a.op == 'c' or b.op == 'c':
            return ite(x.a[0], inset(a, cs), inset(b, cs))
    return raw('inset', x, tuple(cs))


@memo
def truth(t):
    k = ty(t)
    if k == 'bool':
        return t
    if t.op == 'c':
        return C(bool(cv(t)))
    if t.op == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if k in ('int', 'num', 'float'):
        return Not(inset(t, [ZERO]))
    if t.op == 'gs':
        return Not(inset(length(t), [ZERO]))
    if k in ('str', 'bytes', 'list', 'tuple'):
        return Not(inset(length(t), [ZERO]))
    if t.op in ('fn', 'cls', 'mod', 'bm', 'bi', 'ref', 'child', 'ext'):
        return TRUE if t.op != 'ref' else raw('truth', t)
    return raw('truth', t)


# --------------------------------------------------------------- ite
@memo
def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'or' and Not(c).op == 'and':
        return ite(Not(c), b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if ty(a) == 'bool' and ty(b) == 'bool':
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        pa = a.a if a.op == 'and' else (a,)
        pb = b.a if b.op == 'and' else (b,)
        com = [x for x in pa if any(x is y for y in pb)]
        if com:
            return And(*(com + [ite(c, And(*[x for x in pa if not any(x is y for y in com)]),
                                    And(*[x for x in pb if not any(x is y for y in com)]))]))
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and b.a[1] is a:
        return ite(Or(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(Or(c, Not(b.a[0])), a, b.a[1])
    if a.op == 'ite' and a.a[2] is b:
        return ite(And(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(And(c, Not(a.a[0])), a.a[2], b)
    return raw('ite', c, a, b)


def assume(t, c, val, depth=4, conds=False):
    """Simplify ite-spine of t under c == val."""
    if t.op != 'ite':
        if t.op != 'c' and ty(t) == 'bool':
            d = implied(t, c, val)
            if d is not None:
                return TRUE if d else FALSE
        return t
    if depth == 0:
        return t
    d = implied(t.a[0], c, val)
    if d is True:
        return assume(t.a[1], c, val, depth, conds)
    if d is False:
        return assume(t.a[2], c, val, depth, conds)
    x = assume(t.a[1], c, val, depth - 1, conds)
    y = assume(t.a[2], c, val, depth - 1, conds)
    k = t.a[0]
    if conds and k.op in ('and', 'or'):
        rest = [z for z in k.a if implied(z, c, val) is None]
        if len(rest) != len(k.a):
            k = And(*rest) if k.op == 'and' else Or(*rest)
    if x is t.a[1] and y is t.a[2] and k is t.a[0]:
        return t
    return ite(k, x, y)


@memo
def implied(d, c, val):
    """Truth of d given (c == val); None when unknown."""
    if not val:
        return implied(d, Not(c), True) if c.op != 'not' or True else None
    # c holds
    if d is c:
        return True
    if d is Not(c):
        return False
    cs = c.a if c.op == 'and' else (c,)
    if c.op == 'and':
        for x in cs:
            r = implied(d, x, True)
            if r is not None:
                return r
    if c.op == 'or':
        rs = [implied(d, x, True) for x in c.a]
        if all(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
    if d.op == 'and':
        rs = [implied(x, c, True) for x in d.a]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    if d.op == 'or':
        rs = [implied(x, c, True) for x in d.a]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
    if d.op == 'inset' and c.op == 'inset' and d.a[0] is c.a[0]:
        ins = [_member(v, d.a[1]) for v in c.a[1]]
        if all(ins):
            return True
        if not any(ins):
            return False
    if d.op == 'inset' and c.op == 'not' and c.a[0].op == 'inset' and c.a[0].a[0] is d.a[0]:
        if all(_member(v, c.a[0].a[1]) for v in d.a[1]):
            return False
    if d.op == 'not':
        r = implied(d.a[0], c, True)
        return None if r is None else (not r)
    return None


# --------------------------------------------------------------- arithmetic
def _lin(t):
    """term -> (const, {term: coef}) for integer-coefficient linear view."""
    if t.op == 'c':
        v = cv(t)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return v, {}
        return None
    if t.op == 'sum':
        return t.a[0], dict((x, k) for k, x in t.a[1:])
    return 0, {t: 1}


def _mklin(c, d):
    d = dict((x, k) for x, k in d.items() if k != 0)
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
    items = sorted(d.items(), key=lambda p: p[0].dg)
    return raw('sum', c, *[(k, x) for x, k in items])


def _isfloatc(t):
    return t.op == 'c' and isinstance(cv(t), float)


def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) + cv(b))
    ta, tb = ty(a), ty(b)
    if ta in ('str', 'bytes') or tb in ('str', 'bytes'):
        return cat(a, b)
    if _isfloatc(a) or _isfloatc(b):
        return raw('fadd', *sorted((a, b), key=lambda x: x.dg))
    if ta in _NUM or tb in _NUM:
        if a.op == 'ite' and _linsmall(a.a[1]) and _linsmall(a.a[2]) and b.op in ('c',):
            return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
        if b.op == 'ite' and _linsmall(b.a[1]) and _linsmall(b.a[2]) and a.op in ('c',):
            return ite(b.a[0], add(a, b.a[1]), add(a, b.a[2]))
        ca, da = _lin(a)
        cb, db = _lin(b)
        for x, k in db.items():
            da[x] = da.get(x, 0) + k
        return _mklin(ca + cb, da)
    return raw('add', a, b)


def _linsmall(t):
    return t.op == 'c'


def scale(k, a):
    if a.op == 'c':
        return C(k * cv(a))
    if k == 1:
        return a
    c, d = _lin(a)
    return _mklin(c * k, dict((x, q * k) for x, q in d.items()))


def sub(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) - cv(b))
    if _isfloatc(a) or _isfloatc(b):
        return raw('fsub', a, b)
    if ty(a) in ('set', 'list') or ty(b) in ('set', 'list'):
        return raw('subt', a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    for x, k in db.items():
        da[x] = da.get(x, 0) - k
    return _mklin(ca - cb, da)


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) * cv(b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and isinstance(cv(x), int) and ty(y) in _NUM + (None,) and y.op not in ('gs', 'listterm'):
            if ty(y) in _NUM:
                return scale(int(cv(x)), y)
    if ty(a) in _NUM and ty(b) in _NUM and not _isfloatc(a) and not _isfloatc(b):
        parts = []
        for x in (a, b):
            parts += list(x.a) if x.op == 'mul' else [x]
        # keep integer factor outside
        return raw('mul', *sorted(parts, key=lambda x: x.dg))
    return raw('mul2', *sorted((a, b), key=lambda x: x.dg))


def neg(a):
    return scale(-1, a) if not _isfloatc(a) else C(-cv(a))


def arith(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = cv(a), cv(b)
        try:
            if op == 'div':
                return C(x / y)
            if op == 'floordiv':
                return C(x // y)
            if op == 'mod':
                return C(x % y)
            if op == 'pow' and abs(y) < 4096:
                return C(x ** y)
            if op == 'shl' and y < 4096:
                return C(x << y)
            if op == 'shr':
                return C(x >> y)
            if op == 'band':
                return C(x & y)
            if op == 'bor':
                return C(x | y)
            if op == 'bxor':
                return C(x ^ y)
        except Exception:
            pass
    if op in ('band', 'bor', 'bxor'):
        a, b = sorted((a, b), key=lambda x: x.dg)
    if op == 'shr' and is_const(b, 0):
        return a
    return raw(op, a, b)


# --------------------------------------------------------------- comparison
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) == cv(b))
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        # linear normalisation: sum == c with unit coefficient single term
        if b.op == 'sum' and len(b.a) == 2 and isinstance(cv(a), int) and b.a[1][0] in (1, -1):
            k, x = b.a[1]
            return inset(x, [C((cv(a) - b.a[0]) * k)])
        return inset(b, [a])
    if ty(a) in _NUM and ty(b) in _NUM and (a.op == 'sum' or b.op == 'sum'):
        d = sub(a, b)
        if d.op == 'c':
            return C(cv(d) == 0)
        if d.op == 'sum' and d.a[1][0] < 0:
            d = neg(d)
        if not (d.op == 'sum' and len(d.a) == 3 and d.a[0] == 0 and d.a[1][0] == 1 and d.a[2][0] == -1):
            return raw('eq0', d) if False else raw('eq', d, ZERO)
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.a) != len(b.a):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if ty(a) == 'bool' and ty(b) == 'bool':
        return Or(And(a, b), And(Not(a), Not(b)))
    a, b = sorted((a, b), key=lambda x: x.dg)
    return raw('eq', a, b)


def lt(a, b):
    if a.op == 'c' and b.op == 'c':
        try:
            return C(cv(a) < cv(b))
        except Exception:
            pass
    if b.op == 'c' and isinstance(cv(b), int) and ty(a) in ('int',):
        return le(a, C(cv(b) - 1))
    if a.op == 'c' and isinstance(cv(a), int) and ty(b) in ('int',):
        return le(C(cv(a) + 1), b)
    a, b = _cmpn(a, b)
    return raw('lt', a, b)


def le(a, b):
    if a.op == 'c' and b.op == 'c':
        try:
            return C(cv(a) <= cv(b))
        except Exception:
            pass
    a, b = _cmpn(a, b)
    return raw('le', a, b)


def _cmpn(a, b):
    """move constants of sums to one side: x + c < k  ->  x < k - c"""
    if a.op == 'sum' and b.op == 'c' and isinstance(cv(b), int) and len(a.a) == 2 and a.a[1][0] == 1:
        return a.a[1][1], C(cv(b) - a.a[0])
    if b.op == 'sum' and a.op == 'c' and isinstance(cv(a), int) and len(b.a) == 2 and b.a[1][0] == 1:
        return C(cv(a) - b.a[0]), b.a[1][1]
    return a, b


def Is(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) is cv(b) or (type(cv(a)) is type(cv(b)) and cv(a) == cv(b)))
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        k = ty(b)
        va = cv(a)
        if va is None and (k is not None and k != 'none'):
            return FALSE
        if va is None and b.op in ('ref', 'fn', 'cls', 'mod', 'child', 'gs', 'tuple', 'bm', 'bi'):
            return FALSE
        if isinstance(va, bool):
            if k == 'bool':
                return b if va else Not(b)
            if k in ('int', 'num', 'float', 'str', 'bytes', 'list', 'none', 'tuple'):
                return FALSE
        if b.op == 'ite':
            return ite(b.a[0], Is(a, b.a[1]), Is(a, b.a[2]))
        return raw('is', b, a)
    a, b = sorted((a, b), key=lambda x: x.dg)
    return raw('is', a, b)


# --------------------------------------------------------------- sequences
def cat(*ts):
    flat = []
    for t in ts:
        for x in (t.a if t.op == 'cat' else (t,)):
            if flat and flat[-1].op == 'c' and x.op == 'c' and type(cv(flat[-1])) is type(cv(x)):
                flat[-1] = C(cv(flat[-1]) + cv(x))
            elif x.op == 'c' and cv(x) in ('', b'') and flat:
                pass
            else:
                flat.append(x)
    if len(flat) > 1 and flat[0].op == 'c' and cv(flat[0]) in ('', b'') and ty(flat[1]) == ty(flat[0]):
        flat = flat[1:]
    if len(flat) == 1:
        return flat[0]
    return raw('cat', *flat)


def gi(g, v):
    return raw('gi', g, v)


def gs(*items):
    n = len(items)
    if n > 1:
        for i in range(n - 1):
            a, b = items[i], items[i + 1]
            if a.op == 'gi' and b.op == 'gi' and a.a[1] is b.a[1] and a.a[0] is not TRUE and b.a[0] is not TRUE \
                    and implied(a.a[0], b.a[0], True) is False:
                return gs(*(items[:i] + (raw('gi', Or(a.a[0], b.a[0]), a.a[1]),) + items[i + 2:]))
    return raw('gs', *items)


EMPTY = gs()


def gs_canon(t):
    """mutually exclusive neighbours have no order: sort them, merge equal values"""
    items = list(t.a)
    changed = False
    i = 0
    while i < len(items):
        j = i
        while j < len(items) and items[j].op == 'gi' and items[j].a[0] is not TRUE and items[j].a[1].op != 'ref' \
                and all(implied(items[j].a[0], items[k].a[0], True) is False for k in range(i, j)):
            j += 1
        if j - i > 1:
            run = sorted(items[i:j], key=lambda x: x.a[1].dg)
            out = []
            for x in run:
                if out and out[-1].a[1] is x.a[1]:
                    out[-1] = raw('gi', Or(out[-1].a[0], x.a[0]), x.a[1])
                else:
                    out.append(x)
            if len(out) != len(run) or any(x is not y for x, y in zip(out, items[i:j])):
                changed = True
                items[i:j] = out
            i += len(out)
        else:
            i = max(j, i + 1)
    return gs(*items) if changed else t


def gs_guard(c, items):
    out = []
    for it in items:
        g = And(c, it.a[0])
        if g is FALSE:
            continue
        out.append(under(raw(it.op, g, *it.a[1:]), c))
    return out


def under(it, c):
    """an item that only exists when c holds, simplified by c"""
    if it.op == 'gi':
        v = it.a[1]
        if v.op == 'ite':
            w = assume(v, c, True, conds=True)
        elif v.op == 'elem' and isinstance(v.a[1], T) and v.a[1].op == 'ite':
            w = raw('elem', v.a[0], assume(v.a[1], c, True, conds=True), *v.a[2:])
        else:
            w = v
        return it if w is v else raw('gi', it.a[0], w)
    if it.op == 'gl' and it.a[1].op == 'cloop':
        n = it.a[1].a[1]
        m = assume(n, c, True, conds=True) if n.op == 'ite' else max0(assume(n.a[0], c, True, conds=True)) if n.op == 'max0' else n
        if m is not n:
            return raw('gl', it.a[0], raw('cloop', it.a[1].a[0], m), it.a[2])
    return it


def gs_merge(c, A, B):
    """sequence that is A when c else B"""
    if A is B:
        return A
    if c is TRUE:
        return A
    if c is FALSE:
        return B
    if A.op != 'gs':
        A = gs(raw('gx', TRUE, A))
    if B.op != 'gs':
        B = gs(raw('gx', TRUE, B))
    p = 0
    while p < len(A.a) and p < len(B.a) and A.a[p] is B.a[p]:
        p += 1
    ra, rb = list(A.a[p:]), list(B.a[p:])
    suf = []
    while ra and rb and ra[-1] is rb[-1]:
        suf.insert(0, ra.pop())
        rb.pop()
    # pairwise same-value items in both branches
    if ra and rb and len(ra) == len(rb) and all(x.op == 'gi' and y.op == 'gi' and x.a[1] is y.a[1] for x, y in zip(ra, rb)):
        mid = [gi(ite(c, x.a[0], y.a[0]), x.a[1]) for x, y in zip(ra, rb)]
    elif (ra and rb and len(ra) == 1 and len(rb) == 1 and ra[0].op == 'gi' and rb[0].op == 'gi'
          and ra[0].a[0] is rb[0].a[0] and ra[0].a[0] is TRUE
          and not (_iselem(ra[0].a[1]) != _iselem(rb[0].a[1]))
          and _sametag(ra[0].a[1], rb[0].a[1])):
        mid = [gi(TRUE, ite(c, ra[0].a[1], rb[0].a[1]))]
    else:
        mid = gs_guard(c, ra) + gs_guard(Not(c), rb)
    return gs(*(list(A.a[:p]) + mid + suf))


def _iselem(t):
    return t.op in ('ref', 'elem')


def _sametag(a, b):
    if a.op == 'elem' and b.op == 'elem':
        return a.a[0] is b.a[0]
    return a.op not in ('ref', 'elem')


def gs_known(t):
    """list of element terms if the sequence has a statically known layout"""
    if t.op == 'tuple':
        return list(t.a)
    if t.op == 'c' and isinstance(cv(t), (str, bytes)):
        v = cv(t)
        return [C(v[i]) for i in range(len(v))]
    if t.op != 'gs':
        return None
    out = []
    for it in t.a:
        if it.op == 'gi' and it.a[0] is TRUE:
            out.append(it.a[1])
        else:
            return None
    return out


def length(t):
    if t.op == 'c' and isinstance(cv(t), (str, bytes)):
        return C(len(cv(t)))
    if t.op == 'tuple':
        return C(len(t.a))
    if t.op == 'gs':
        n = ZERO
        for it in t.a:
            if it.op == 'gi':
                n = add(n, ite(it.a[0], C(1), ZERO))
            elif it.op == 'gx':
                n = add(n, ite(it.a[0], length(it.a[1]), ZERO))
            else:
                body = length(raw('gs', *it.a[2].a))
                if body.op == 'c' and it.a[1].op == 'cloop' and it.a[0] is TRUE:
                    n = add(n, mul(body, it.a[1].a[1]))
                else:
                    return raw('len', t)
        return n
    if t.op == 'ite':
        a, b = length(t.a[1]), length(t.a[2])
        return ite(t.a[0], a, b)
    return raw('len', t)


def slice_(x, lo, hi, step=NONE):
    if step is not NONE and not is_const(step, 1):
        if x.op == 'c' and all(i.op == 'c' for i in (lo, hi, step)):
            return C(cv(x)[cv(lo):cv(hi):cv(step)])
        return raw('slice3', x, lo, hi, step)
    if lo is NONE:
        lo = ZERO
    if x.op == 'c' and lo.op == 'c' and hi.op == 'c':
        try:
            return C(cv(x)[cv(lo):cv(hi)])
        except Exception:
            pass
    known = gs_known(x) if x.op in ('gs', 'tuple') else None
    if known is not None and lo.op == 'c' and hi.op == 'c':
        sub_ = known[cv(lo):cv(hi)]
        return raw('tuple', *sub_) if x.op == 'tuple' else gs(*[gi(TRUE, k) for k in sub_])
    if hi.op == 'len' and hi.a[0] is x:
        hi = NONE
    if x.op == 'slice' and lo.op == 'c' and cv(lo) >= 0 and x.a[1].op == 'c' and cv(x.a[1]) >= 0:
        nlo = C(cv(x.a[1]) + cv(lo))
        if hi is NONE:
            return slice_(x.a[0], nlo, x.a[2])
        if hi.op == 'c' and cv(hi) >= 0:
            nh = C(cv(x.a[1]) + cv(hi))
            if x.a[2] is NONE:
                return slice_(x.a[0], nlo, nh)
            if x.a[2].op == 'c' and cv(x.a[2]) >= 0:
                return slice_(x.a[0], nlo, C(min(cv(nh), cv(x.a[2]))))
    if hi is NONE and lo is ZERO and ty(x) in ('str', 'bytes'):
        return x
    return raw('slice', x, lo, hi)


def index(x, i):
    known = gs_known(x)
    if known is not None and i.op == 'c' and isinstance(cv(i), int):
        v = cv(i)
        if -len(known) <= v < len(known):
            return known[v]
    if x.op == 'c' and i.op == 'c':
        try:
            return C(cv(x)[cv(i)])
        except Exception:
            pass
    if x.op == 'ite':
        ka, kb = gs_known(x.a[1]), gs_known(x.a[2])
        if ka is not None and kb is not None:
            return ite(x.a[0], index(x.a[1], i), index(x.a[2], i))
    return raw('index', x, i)


def contains(x, s):
    if s.op == 'distinct':
        return contains(x, s.a[0])
    known = gs_known(s)
    if known is not None and not (s.op == 'c'):
        cs = [k for k in known if k.op == 'c']
        others = [k for k in known if k.op != 'c']
        return Or(inset(x, cs), *[eq(x, o) for o in others])
    if s.op == 'c' and x.op == 'c':
        try:
            return C(cv(x) in cv(s))
        except Exception:
            pass
    if s.op == 'ite':
        return ite(s.a[0], contains(x, s.a[1]), contains(x, s.a[2]))
    return raw('in', x, s)


# --------------------------------------------------------------- traversal
def subst(t, m, memo=None):
    """Rebuild t with the map {term: term} applied bottom-up."""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ('c', 'atom', 'unbound'):
        r = t
    else:
        na = tuple(_subst(x, m, memo) for x in t.a)
        if all(x is y or (isinstance(x, tuple) and x == y) or (not isinstance(x, T) and x == y)
               for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'and':
        return And(*a)
    if op == 'or':
        return Or(*a)
    if op == 'not':
        return Not(a[0])
    if op == 'ite':
        return ite(*a)
    if op == 'inset':
        return inset(a[0], a[1])
    if op == 'eq':
        return eq(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'is':
        return Is(*a)
    if op == 'in':
        return contains(*a)
    if op == 'truth':
        return truth(a[0])
    if op == 'sum':
        t = C(a[0])
        for k, x in a[1:]:
            t = add(t, scale(k, x) if (x.op == 'c' or ty(x) in _NUM) else _mklin(0, {x: k}))
        return t
    if op == 'mul':
        t = a[0]
        for x in a[1:]:
            t = mul(t, x)
        return t
    if op in ('div', 'floordiv', 'mod', 'pow', 'shl', 'shr', 'band', 'bor', 'bxor'):
        return arith(op, *a)
    if op == 'add':
        return add(*a)
    if op == 'mul2':
        return mul(*a)
    if op == 'slice':
        return slice_(*a)
    if op == 'index':
        return index(*a)
    if op == 'len':
        return length(a[0])
    if op == 'cat':
        return cat(*a)
    if op == 'gs':
        return gs(*[x for x in a if x.a[0] is not FALSE])
    if op == 'max0':
        return max0(a[0])
    return raw(op, *a)


def max0(t):
    if t.op == 'c':
        return C(max(0, cv(t)))
    if t.op in ('len', 'count', 'max0'):
        return t
    return raw('max0', t)


def walk(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.a)
    return seen


def contains_any(t, targets):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        if x in targets:
            return True
        seen.add(x)
        stack.extend(x.a)
    return False


def show(t, depth=7):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        return repr(cv(t))
    if t.op == 'atom':
        return str(t.a[0])
    if depth <= 0:
        return t.op + '(..)'
    if t.op == 'inset':
        return '%s in {%s}' % (show(t.a[0], depth - 1), ', '.join(show(x) for x in t.a[1]))
    if t.op == 'sum':
        parts = [('%s*%s' % (k, show(x, depth - 1)) if k != 1 else show(x, depth - 1)) for k, x in t.a[1:]]
        if t.a[0]:
            parts.append(str(t.a[0]))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'slice':
        return '%s[%s:%s]' % (show(t.a[0], depth - 1), show(t.a[1], depth - 1),
                              '' if t.a[2] is NONE else show(t.a[2], depth - 1))
    return t.op + '(' + ', '.join(show(x, depth - 1) for x in t.a) + ')'
