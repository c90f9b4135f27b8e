"""Checks of the properties decided on the program around the validators.

An obligation is one observable of one unit (part of the report of a file, text written, files opened, exit, files
analysed ...).  It is discharged when its graph in the source is congruent with the reference's.  Units with an open
obligation are compared under the scenarios of sa/scenarios.py; only a difference is a violation.
"""
import re
import traceback
import xml.etree.ElementTree as ET
from . import scenarios as S
from . import top
from .compare import canon, crash_of
from .decide import expand, flat
from .evalt import Env, PATCHED, PyRaise, Rec, TooLong, UNK, UNKTAG
from .raises import discharged
from .terms import T, TRUE, gs, gi, raw, cv, And, Or, EMPTY
from .world import Stop, TopEnv, prepare

PATCHED.update(('makeHumanReadable', 'appendChildTagWithText', 'appendIfNotEmpty', 'findElementText', 'findAllText', 'toxml'))
CATS = ('parser', 'stdout', 'stderr', 'files', 'analyse', 'convert', 'mix', 'validate', 'tree', 'exit', 'other')


def mentions(t, name, seen=None):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'ext' and x.a[0].startswith(name) or x.op == 'call' and x.a[0] == name:
                return True
            if x.op in ('ext', 'call', 'mcall', 'ucall'):
                todo.extend(x.a)
    return False


def category(e):
    n = e.a[0]
    if n.startswith('global.'):
        return None
    if n.startswith('print:'):
        return 'stderr' if 'stderr' in n else 'stdout'
    if n.startswith('sys.stdout'):
        return 'stdout'
    if n.startswith('sys.stderr'):
        return 'stderr'
    if n in ('sys.exit', 'os._exit', 'os.abort'):
        return 'exit'
    if n in ('open', 'with.enter', 'with.exit', 'mmap.mmap'):
        return 'files'
    if n == 'cut:checkOneFile':
        return 'analyse'
    if n == 'cut:makeHumanReadable':
        return 'convert'
    if n == 'cut:generateMix':
        return 'mix'
    if n == 'child':
        return 'validate'
    if n in ('append', 'setattr', 'setitem'):
        return 'tree'
    if n == 'ucall' or n.startswith('sys.version'):
        return None
    if n == 'mcall':
        m = e.a[1]
        if mentions(m.a[0], 'argparse.ArgumentParser'):
            return 'parser'
        if mentions(m.a[0], 'sys.stdout'):
            return 'stdout'
        if mentions(m.a[0], 'sys.stderr'):
            return 'stderr'
        return 'files'
    return 'other'


HELP = ('help', 'description', 'epilog', 'metavar', 'prog', 'usage', 'version')


def keep(seq, cat):
    """the effects of one category"""
    if seq.op != 'gs':
        return seq
    out = []
    for it in seq.a:
        if it.op == 'gi':
            for g, e in branches(it.a[1]):
                if e.op == 'eff' and category(e) == cat or e.op != 'eff' and cat == 'other':
                    if cat == 'parser':
                        e = no_help(e)
                    out.append(gi(And(it.a[0], *g), e))
        elif it.op == 'gx':
            k = keep(it.a[1], cat)
            if k is not EMPTY:
                out.append(raw('gx', it.a[0], k))
        else:
            k = keep(it.a[2], cat)
            if k is not EMPTY:
                out.append(raw('gl', it.a[0], it.a[1], k))
    return gs(*out)


def branches(e, g=()):
    if e.op == 'ite':
        from .terms import Not
        for x in branches(e.a[1], g + (e.a[0],)):
            yield x
        for x in branches(e.a[2], g + (Not(e.a[0]),)):
            yield x
    else:
        yield g, e


_nh = {}


def no_help(t):
    if not isinstance(t, T):
        return tuple(no_help(x) for x in t) if isinstance(t, tuple) else t
    if t in _nh:
        return _nh[t]
    a = [no_help(x) for x in t.a if not (isinstance(x, T) and x.op == 'kw' and x.a[0] in HELP)]
    r = raw(t.op, *a) if t.op != 'c' and tuple(a) != t.a else t
    _nh[t] = r
    return r


# ---------------------------------------------------------------- dead branches
def tidy(t, memo=None):
    """file name extension cannot contain what the name does not contain"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(tidy(x, memo) for x in t)
    if not isinstance(t, T) or t.op == 'c':
        return t
    if t in memo:
        return memo[t]
    a = tuple(tidy(x, memo) for x in t.a)
    if t.op == 'gs':
        a = tuple(x for x in a if not (x.op in ('gi', 'gx', 'gl') and impossible(x.a[0])))
    r = t if a == t.a else (gs(*a) if t.op == 'gs' else raw(t.op, *a))
    memo[t] = r
    return r


def impossible(g):
    if g.op != 'and':
        return False
    absent = [x.a[0] for x in g.a if x.op == 'not' and x.a[0].op == 'in']
    for x in g.a:
        alts = x.a if x.op == 'or' else (x,)
        if alts and all(any(part_of(y, n) for n in absent) for y in alts):
            return True
    return False


def part_of(y, n):
    """y says that a piece of a split name is exactly the text n says is not in the name"""
    from .terms import cv
    if y.op != 'inset' or y.a[0].op != 'index' or y.a[0].a[0].op != 'call' or y.a[0].a[0].a[0] != 'os.path.splitext':
        return False
    return n.a[1] is y.a[0].a[0].a[1] and n.a[0].op == 'c' and all(cv(c) == cv(n.a[0]) for c in y.a[1])


# ---------------------------------------------------------------- obligations
def parts(s):
    """{facet: graph}"""
    d = {}
    log = tidy(s.log)
    for c in CATS:
        d[c] = keep(log, c)
    if s.res is not None and s.res.op == 'elem' and s.unit in ('checkOneFile', 'defaults'):
        kids = s.res.a[3]
        if kids.op == 'gs' and all(k.op == 'gi' and k.a[1].op in ('elem', 'ite', 'attr', 'outk') for k in kids.a):
            for i, k in enumerate(kids.a):
                tag = str(k.a[1].a[0].a[0]) if k.a[1].op == 'elem' else 'part %d' % i
                d['report: ' + str(tag)] = k
        d['report'] = s.res
    elif s.res is not None:
        d['result'] = s.res
    d['escapes'] = tuple(obls_sorted(s))
    d['exits'] = tuple((tidy(o.cond), tuple(keep(tidy(l), c) for c in CATS)) for o, l in zip(s.outs, s.outlogs))
    return d


def obls(s):
    """operations that may raise with what, each with the condition under which it is reached"""
    plain, out = {}, set()
    for ctx, ob in expand(flat(s.obl)):
        term = ob.a[0]
        if discharged(ctx, term) or safe(term):
            continue
        if term.op == 'mcall' and mentions(term.a[0], 'argparse.ArgumentParser'):
            continue            # declarations and parsing are an observable of their own
        ctx = tuple(no_help(tidy(c)) for c in ctx if c is not TRUE)
        if any(impossible(And(*[c for c in ctx[:i + 1] if c.op not in LOOPS])) for i in range(len(ctx))):
            continue
        k = (no_help(tidy(term)), ob.a[1])
        if any(c.op in LOOPS for c in ctx):
            out.add((ctx,) + k)
        else:
            plain.setdefault(k, []).append(And(*ctx))
    for k, cs in plain.items():
        out.add(((Or(*cs),),) + k)
    return out


LOOPS = ('loop', 'cloop', 'iloop')


def safe(t):
    """head and tail of a path exist"""
    return t.op == 'index' and t.a[0].op == 'call' and t.a[0].a[0] in ('os.path.split', 'os.path.splitext') and \
        t.a[1].op == 'c' and cv(t.a[1]) in (0, 1)


class Unit(object):
    def __init__(self, unit):
        self.unit = unit
        self.error = None
        self.ok, self.open = [], []
        self.spec = top.extract('spec', unit)
        try:
            self.code = top.extract('code', unit)
        except Exception as e:
            self.code = None
            self.error = '%s: %s' % (type(e).__name__, str(e)[:200])
            return
        if unit == 'main' and not any(x.op == 'eff' and x.a[0] == 'cut:checkOneFile'
                                      for _, e in flat(self.code.log) for _, x in branches(e)):
            self.error = 'the program does not analyse files through checkOneFile'
            return
        a, b = parts(self.code), parts(self.spec)
        for f in sorted(set(a) | set(b)):
            (self.ok if a.get(f) is b.get(f) or a.get(f) == b.get(f) else self.open).append(f)


# ---------------------------------------------------------------- evaluation
_table = {}
_own = {}


def constants(s):
    todo = [s.log, s.obl] + ([s.res] if s.res is not None else []) + list(s.outlogs) + [o.cond for o in s.outs]
    seen, out = set(), set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x)
            todo.extend(x.values())
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'c':
                v = cv(x)
                if isinstance(v, (tuple, list, dict, set, frozenset)):
                    todo.extend(raw('c', y) if isinstance(y, (str, bytes, int, float)) else y for y in v)
                else:
                    out.add((type(v).__name__, v))
            else:
                todo.extend(x.a)
    return out


def own(unit):
    """constants the source's unit mentions and the reference's does not: values worth trying"""
    if unit not in _own:
        try:
            d = constants(top.extract('code', unit)) - constants(top.extract('spec', unit))
        except Exception:
            d = set()
        vals = [v for k, v in sorted(d, key=repr) if k in ('str', 'bytes', 'int', 'float')]
        _own[unit] = [v for v in vals if not isinstance(v, (str, bytes)) or len(v) <= 40][:60]
    return _own[unit]


def own_names(unit):
    return [v for v in own(unit) if isinstance(v, str) and re.match(r'^[A-Za-z_][\w.-]*$', v)][:30]


def table_of(which):
    """the value -> text table handed to the conversion of properties"""
    if which in _table:
        return _table[which]
    out = {}
    try:
        s = top.extract(which, 'checkOneFile')
        for ctx, e in flat(s.log):
            for g, x in branches(e):
                if x.op == 'eff' and x.a[0] == 'cut:makeHumanReadable' and len(x.a) > 2:
                    v = Env({}).ev(x.a[2])
                    if isinstance(v, dict):
                        for k, m in v.items():
                            if isinstance(m, dict):
                                out.setdefault(k, {}).update(m)
    except Exception:
        pass
    _table[which] = out
    return out


def all_tables():
    t = {}
    for w in ('spec', 'code'):
        for k, m in table_of(w).items():
            t.setdefault(k, {}).update(m)
    return t


def copy(e):
    n = ET.Element(e.tag, dict(e.attrib))
    n.text, n.tail = e.text, e.tail
    n.extend([copy(c) for c in e])
    return n


def cut_human(env, pos, kw):
    tree = pos[0]
    tab = pos[1] if len(pos) > 1 else None
    if not isinstance(tree, ET.Element) or tab is UNK or env.hasunk(tab):
        env.events.append(('unknown', 'conversion'))
        return UNK
    s = top.extract('spec', 'human')
    e = TopEnv(env.w, {'E': tree, 'table': tab})
    e.play(s.log)
    return None


def cut_mix(env, pos, kw):
    if len(pos) < 2 or any(p is UNK for p in pos[:2]) or not isinstance(pos[1], ET.Element):
        env.events.append(('unknown', 'mix'))
        return UNK
    if pos[1].tag == UNKTAG or any(x.tag == UNKTAG or x.text is UNK for x in pos[1].iter()):
        env.events.append(('unknown', 'mix'))
        return UNK
    s = top.extract('spec', 'mix')
    e = TopEnv(env.w, {'mix': pos[0], 'E': pos[1]})
    c = crash_of(e, s)
    if c:
        return PyRaise(c.exc)
    return e.ev(s.res)


def cut_file(env, pos, kw):
    if any(env.hasunk(p) for p in pos):
        return UNK
    return S.report_of(pos)


class Result(object):
    def __init__(self):
        self.f = {}
        self.unknown = []


def finish(env, r):
    """facets common to all units, from the events"""
    out, err, files = [], [], []
    exit_ = None
    calls = []
    for e in env.events:
        if e[0] == 'write':
            (out if e[1] == 'stdout' else err).append(e[2])
        elif e[0] == 'exit':
            exit_ = ('exit', e[1])
        elif e[0] == 'unknown':
            r.unknown.append(e[1])
        elif e[0] in ('open', 'close', 'map', 'modify'):
            files.append(e)
        elif e[0] == 'call':
            calls.append(e)
        elif e[0] == 'cut:checkOneFile':
            r.f.setdefault('analysed', []).append(e[1])
    r.f['stdout'] = UNK if any(x is UNK for x in out) else b''.join(out)
    r.f['stderr'] = bool(err)
    r.f['exit'] = exit_
    r.f['files'] = files
    r.f['calls'] = calls
    return r


def mark(c):
    return c


FIRST = '/data/first.jp2'      # a file analysed earlier, with the other verdict


def child_for(env, valid, table):
    def f(args):
        env.failing('child')
        if any(env.hasunk(a) for a in args[:3]):
            return UNK
        o = args[0]
        first = isinstance(args[2], Rec) and getattr(args[2], 'path', None) == FIRST
        bare = isinstance(args[2], Rec) and getattr(args[2], 'path', None) == '/data/bare.jp2'
        r = S.result(valid != first, table, own_names('checkOneFile'), bare)
        lab = '%s %r %r' % (sorted(o.items()) if isinstance(o, dict) else o, args[1], args[2])
        r.f['tests' if not bare else 'characteristics'].append(S.el('calledWith', lab))
        return r
    return f


def run_one(which, world, args, valid, table, unit='checkOneFile', more=None):
    s = summary(which, unit)
    r = Result()
    env = TopEnv(world, dict(zip(('path', 'fmt', 'verbose', 'pm', 'nullxml', 'mix'), args), **(more or {})),
                 {'makeHumanReadable': cut_human, 'generateMix': cut_mix})
    env.child = child_for(env, valid, table)
    stopped = False
    try:
        env.play(s.log)
    except Stop:
        stopped = True
    except PyRaise as e:
        r.unknown.append('effects raise ' + e.name)
    crash = crash_of(env, s)
    r.f['crash'] = str(crash) if crash else None
    tree = None
    if not crash and not stopped:
        try:
            tree = env.ev(s.res)
        except PyRaise as e:
            r.unknown.append('result raises ' + e.name)
    finish(env, r)
    kids = {}
    order = []
    if isinstance(tree, ET.Element):
        for k in tree:
            order.append(k.tag)
            kids.setdefault(k.tag, []).append(canon(k))
        if '\0UNK' in order:
            r.unknown.append('report')
        r.f['name'] = (tree.tag, dict(tree.attrib), tree.text)
    elif not crash and not stopped:
        r.unknown.append('report')
    for t in ('fileInfo', 'statusInfo', 'isValid', 'tests', 'properties', 'propertiesExtension', 'warnings'):
        r.f[t] = kids.pop(t, [])
        if UNK in r.f[t]:
            r.unknown.append(t)
    r.f['order'] = order
    r.tree = tree
    return r


def summary(which, unit):
    return top.extract(which, unit) if isinstance(which, str) else which


def run_main(which, world):
    s = summary(which, 'main')
    r = Result()
    env = TopEnv(world, {}, {'checkOneFile': cut_file})
    prepare(env, s.log)
    env.failing = env.failing
    done = False
    crash = None
    try:
        for o, l in zip(s.outs, s.outlogs):
            try:
                c = env.b(o.cond)
            except PyRaise as e:
                if e.name == 'SystemExit':
                    break
                continue
            if c is True:
                done = True
                env.play(l)
                if o.exc and 'SystemExit' not in o.exc:
                    crash = str(o.exc)
                break
            if c is UNK:
                r.unknown.append('exit condition')
        if not done:
            env.play(s.log)
            found = crash_of(env, s)
            crash = str(found) if found else None
    except Stop:
        pass
    except PyRaise as e:
        if e.name != 'SystemExit':
            r.unknown.append('effects raise ' + e.name)
            try:
                found = crash_of(env, s)
                crash = str(found) if found else None
            except (PyRaise, Stop, TooLong):
                pass
    except TooLong:
        r.unknown.append('loop')
    finish(env, r)
    an = r.f.pop('analysed', [])
    r.f['paths'] = [a[0] for a in an]
    r.f['options'] = [tuple(a[1:6]) for a in an]
    r.f['crash'] = crash
    return r


def run_human(which, tree, table, more=None):
    s = summary(which, 'human')
    r = Result()
    t = copy(tree)
    env = TopEnv(S.World(), dict({'E': t, 'table': dict(table) if table is not None else None}, **(more or {})))
    try:
        crash = crash_of(TopEnv(S.World(), dict({'E': copy(tree), 'table': table}, **(more or {}))), s)
        env.play(s.log)
    except Stop:
        crash = 'exit'
    finish(env, r)
    r.f['crash'] = str(crash) if crash else None
    r.f['tree'] = [(e.tag, type(e.text).__name__, e.text, tuple(sorted(e.attrib.items()))) for e in t.iter()]
    if any(e.text is UNK for e in t.iter()):
        r.unknown.append('text')
    return r


def run_mix(which, version, tree, more=None):
    s = summary(which, 'mix')
    r = Result()
    env = TopEnv(S.World(), dict({'E': copy(tree), 'mix': version}, **(more or {})))
    crash = None
    t = None
    try:
        env.play(s.log)
        crash = crash_of(env, s)
        if not crash:
            t = env.ev(s.res)
    except PyRaise as e:
        crash = 'raises ' + e.name
    except Stop:
        crash = 'exit'
    finish(env, r)
    r.f['crash'] = str(crash) if crash else None
    if not crash:
        r.f['mix'] = canon(t) if isinstance(t, ET.Element) else UNK
        if r.f['mix'] is UNK:
            r.unknown.append('mix')
    return r


VERSION = re.compile(rb'<toolVersion>[^<]*</toolVersion>')


def scenarios(unit, deep):
    """(description, which -> Result)"""
    if unit == 'checkOneFile':
        big = all_tables()
        for i, (d, w, a, v) in enumerate(S.one_file(deep, own('checkOneFile'))):
            yield d, (lambda which, w=w, a=a, v=v, t=(big if i == 0 else None): run_one(which, w, a, v, t)), dict(
                fault=bool(w.fault) or 'empty' in d or 'missing' in d or 'larger' in d, args=a)
    elif unit == 'defaults':
        for d, w, a, v in S.one_file(False, own('defaults')):
            if a[1:] == ('jp2', False, False, False, 0):
                yield d, (lambda which, w=w, a=a, v=v: run_one(which, w, a[:1], v, None, 'defaults')), dict(
                    fault=bool(w.fault), args=a)
    elif unit == 'main':
        for d, w in S.command_lines(deep, own('main')):
            yield d, (lambda which, w=w: run_main(which, w)), {}
    elif unit == 'human':
        for d, t, tab in S.trees(all_tables(), deep, own('human'), own_names('human')):
            yield d, (lambda which, t=t, tab=tab: run_human(which, t, tab)), {}
    elif unit == 'mix':
        for d, v, t in S.mix_inputs(deep, own('mix')):
            yield d, (lambda which, v=v, t=t: run_mix(which, v, t)), {}


def differences(unit, a, b, info):
    """[(facet, got, want)] of one scenario; None when undecided"""
    if a.unknown and not b.unknown and a.f.get('crash') and not b.f.get('crash'):
        return [('crash', a.f['crash'], None)]
    if a.unknown or b.unknown:
        return None
    out = []
    for f in sorted(set(a.f) | set(b.f)):
        x, y = a.f.get(f), b.f.get(f)
        if x is UNK or y is UNK:
            continue
        if f == 'stdout' and isinstance(x, bytes):
            x, y = VERSION.sub(b'', x), VERSION.sub(b'', y)
        if x != y:
            out.append((f, x, y))
    return out


def obls_sorted(s):
    return sorted(obls(s), key=lambda x: repr((tuple(t.dg for t in x[0]), x[1].dg, x[2])))
