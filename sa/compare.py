"""Deciding obligations: congruence first, region valuation for the rest."""
import xml.etree.ElementTree as ET
from .terms import T, gs, raw, cv, walk, NONE
from .evalt import Env, UNK, UNKTAG, PyRaise, TooLong, Rec
from .interp import exc_sub

TREES = ('tests', 'characteristics', 'warnings')
ATTRS = ('isValid', 'returnOffset', 'tilePartLength')


# ------------------------------------------------------------ projections
def item_tags(it):
    if it.op == 'gi':
        v = it.a[1]
        if v.op == 'elem' and v.a[0].op == 'c':
            return frozenset([cv(v.a[0])])
        return frozenset(['*'])
    body = it.a[1] if it.op == 'gx' else it.a[2]
    if body.op != 'gs':
        return frozenset(['*'])
    r = set()
    for x in body.a:
        r |= item_tags(x)
    return frozenset(r)


def project(seq, tag):
    out = []
    if seq.op != 'gs':
        return seq if tag == '*' else gs()
    for it in seq.a:
        if it.op == 'gi':
            if tag in item_tags(it):
                out.append(it)
        elif it.op == 'gx':
            if it.a[1].op == 'gs':
                s = project(it.a[1], tag)
                if s.a:
                    out.append(raw('gx', it.a[0], s))
            elif tag == '*':
                out.append(it)
        else:
            s = project(it.a[2], tag)
            if s.a:
                out.append(raw('gl', it.a[0], it.a[1], s))
    return gs(*out)


def tags_of(elem):
    if elem is None or elem.op != 'elem':
        return None
    r = set()
    if elem.a[3].op != 'gs':
        return {'*'}
    for it in elem.a[3].a:
        r |= item_tags(it)
    return r


# ------------------------------------------------------------ observation
def canon(e, depth=0):
    if isinstance(e, ET.Element):
        if e.tag == UNKTAG:
            return UNK
        ch = []
        for c in e:
            x = canon(c, depth + 1)
            if x is UNK:
                return UNK
            ch.append(x)
        t = e.text
        if t is UNK:
            return UNK
        return (e.tag, type(t).__name__, repr(t) if not isinstance(t, ET.Element) else 'elem',
                tuple(sorted((k, repr(v)) for k, v in e.attrib.items())), tuple(ch))
    if e is UNK:
        return UNK
    return ('?', type(e).__name__, repr(e), (), ())


def collect(env, seq, out):
    """[(tag or None, canonical value or UNK)]"""
    if seq.op != 'gs':
        v = env.ev(seq)
        if v is UNK:
            out.append((None, UNK))
        else:
            for x in v:
                c = canon(x)
                out.append((c[0] if c is not UNK else None, c))
        return
    for it in seq.a:
        g = env.b(it.a[0])
        if g is False:
            continue
        if g is UNK:
            for t in item_tags(it):
                out.append((None if t == '*' else t, UNK))
            continue
        if it.op == 'gi':
            v = env.ev(it.a[1])
            c = canon(v)
            if c is UNK:
                ts = list(item_tags(it))
                out.append((None if ts[0] == '*' else ts[0], UNK))
            else:
                out.append((c[0], c))
        elif it.op == 'gx':
            collect(env, it.a[1], out)
        else:
            desc, body = it.a[1], it.a[2]
            run = env.run(desc)
            if run is None:
                for t in item_tags(it):
                    out.append((None if t == '*' else t, UNK))
                continue
            for fr in run.frames:
                env.at(desc.a[0], fr, lambda: collect(env, body, out))


class Crash(object):
    def __init__(self, exc, where):
        self.exc, self.where = exc, where

    def __repr__(self):
        return 'raises %s at %s' % (self.exc, self.where)


def obligations(env, seq, found):
    """first raise obligation that is violated in this region, if any"""
    for it in seq.a:
        g = env.b(it.a[0])
        if g is False:
            continue
        if it.op == 'gi':
            ob = it.a[1]
            if g is UNK:
                continue
            while ob is not None and ob.op == 'ite':
                c = env.b(ob.a[0])
                ob = None if c is UNK else ob.a[1] if c else ob.a[2]
            if ob is None or ob.op != 'obl':
                continue
            try:
                env.ev(ob.a[0])
            except PyRaise as e:
                found.append(Crash(e.name, '%s.py:%s in %s' % (ob.a[2], ob.a[3], ob.a[4])))
                return True
        elif it.op == 'gx':
            if g is UNK:
                continue
            if it.a[1].op == 'gs' and obligations(env, it.a[1], found):
                return True
        else:
            if g is UNK:
                continue
            for fr in env.frames_of(it.a[1]):
                if env.at(it.a[1].a[0], fr, lambda: obligations(env, it.a[2], found)):
                    return True
    return False


def crash_of(env, s):
    found = []
    try:
        obligations(env, s.obl, found)
    except PyRaise as e:
        found.append(Crash(e.name, s.name))
    if not found:
        for o in s.outs:
            if o.kind == 'exc':
                try:
                    if env.b(o.cond) is True:
                        found.append(Crash(str(o.exc), s.name))
                except PyRaise:
                    pass
    return found[0] if found else None


def by_tag(items):
    d = {}
    for t, c in items:
        d.setdefault(t, []).append(c)
    return d


# ------------------------------------------------------------ nested validators
START = (b'\xff\x90',)
COMPS = (b'\xff\x53', b'\xff\x5e', b'\xff\x5d', b'\xff\x5f', b'\xff\x63', b'\xff\x90')


class Oracle(object):
    """results of nested validators: what the reference rules say for the
    contents handed over (each validator is checked against them separately),
    tagged with the arguments so that a mix-up is visible"""

    def __init__(self, model, label):
        self.model = model
        self.label = label
        self.memo = {}

    def __call__(self, args):
        args = list(args) + [None] * (5 - len(args))
        o, key, b, start, comps = args[:5]
        for x in (o, key, b):
            if x is UNK:
                return UNK
        if isinstance(o, (bytes, str)) or isinstance(key, (dict, list)):
            return PyRaise('TypeError')     # o['validationFormat']; key in typeMap
        if not isinstance(o, dict) or any(v is UNK for v in o.values()):
            return UNK
        if not isinstance(b, bytes):
            return UNK
        if key not in START:
            start = None
        if key not in COMPS:
            comps = None
        if start is UNK or comps is UNK:
            return UNK
        try:
            k = (key, b, start, comps, tuple(sorted(o.items())))
            r = self.memo.get(k)
        except TypeError:
            return UNK
        if r is None:
            r = self.memo[k] = self.make(o, key, b, start, comps)
        return r

    def make(self, o, key, b, start, comps):
        from .units import ALLKEYS
        if key in ALLKEYS and key not in (b'zzzz', b''):
            s = self.model.unit(key)
            env = Env(dict(B=b, S=start, N=comps, fmt=o.get('validationFormat', UNK), verbose=o.get('verboseFlag', UNK),
                           nullxml=o.get('nullxmlFlag', UNK), pm=o.get('packetmarkersFlag', UNK)), child=self)
            try:
                c = crash_of(env, s)
                if c is not None:
                    return PyRaise(c.exc)
                f = {}
                for k in TREES + ATTRS:
                    f[k] = env.ev(s.f[k])
            except PyRaise as e:
                return e
            except TooLong:
                return UNK
        else:
            if not isinstance(key, (bytes, str)):
                return UNK
            name = 'unknownBox'
            f = dict((k, ET.Element(name)) for k in TREES)
            ET.SubElement(f['characteristics'], 'boxType').text = key
            ET.SubElement(f['warnings'], 'warning').text = "ignoring unknown box %r" % (key,)
            f.update(isValid=None, returnOffset=None, tilePartLength=None)
        f['boxType'] = f['tests'].tag
        if self.label:
            w = ET.Element(f['warnings'].tag)
            for x in f['warnings']:
                w.append(x)
            # only the width of component numbers depends on their number, except for CRG
            n = comps if key == b'\xff\x63' or not isinstance(comps, int) else comps > 256
            ET.SubElement(w, 'warning').text = 'from %r %r %r %r' % (key, b, start, n)
            f['warnings'] = w
        f['.validate'] = lambda: UNK
        return Rec(**f)


def make_env(region, oracle, ext=None):
    return Env(dict(region), child=oracle, ext=ext)


def describe(region):
    r = dict(region)
    b = r.pop('B', None)
    d = ', '.join('%s=%r' % (k, r[k]) for k in sorted(r) if r[k] is not None)
    if b is not None:
        d = 'contents=%s (%d bytes), ' % (b.hex() if len(b) <= 96 else b[:64].hex() + '...', len(b)) + d
    return d
