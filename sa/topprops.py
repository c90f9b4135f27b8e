"""The properties decided on the program around the validators: which observables each one is about."""
import re
import xml.etree.ElementTree as ET
from . import top
from . import units as U
from .decide import flat, unit_name
from .evalt import UNK
from .terms import cv
from .topcheck import CATS, Unit, branches, category, differences, scenarios

ASSUME = [
    'the reference program in spec/top.py states the intended behaviour (doc/, the schema in xsd/)',
    'the summary semantics of Python and of the library functions used (argparse, glob, os.path, ElementTree, minidom, codecs, mmap)',
    'a validator called by the analysis of one file behaves as the unit checks say, or raises',
]
REPORT = ('fileInfo', 'statusInfo', 'isValid', 'tests', 'properties', 'propertiesExtension', 'warnings', 'order', 'name')
LEGAL = re.compile('^[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*$')


def graphs(*names):
    """selects the graphs of a unit a property rests on"""
    def f(facet):
        return facet in names or any(n.endswith('*') and facet.startswith(n[:-1]) for n in names)
    return f


def ALL(facet):
    return True


def pick(**by_unit):
    """selects the observables of a scenario"""
    def f(unit, facet, info, a, b):
        w = by_unit.get(unit)
        return w is not None and (facet in w if not callable(w) else w(facet, info, a, b))
    return f


def contained(facet, info, a, b):
    return facet == 'crash' or info['fault'] and facet in ('statusInfo', 'isValid', 'tests', 'properties', 'warnings', 'order',
                                                           'exit', 'stderr', 'propertiesExtension')


def converted(facet, info, a, b):
    return not info['fault'] and facet in ('tests', 'properties', 'warnings')


PROPS = {
    'C17': dict(units=dict(checkOneFile=ALL, main=graphs('escapes', 'exits', 'analyse', 'stdout')),
                pick=pick(checkOneFile=contained, main=lambda f, i, a, b: f in ('crash', 'paths') and bool(b.f['paths']) or
                          f in ('exit', 'stdout') and bool(b.f['paths']) and
                          (b'success>False' in b.f['stdout']))),
    'C19': dict(units=dict(checkOneFile=graphs('report*', 'tree', 'escapes'), defaults=graphs('report*'),
                           main=graphs('stdout', 'analyse')),
                pick=pick(checkOneFile=('order', 'name', 'fileInfo', 'statusInfo', 'isValid', 'crash'), main=('stdout', 'crash'))),
    'C24': dict(units=dict(main=ALL, defaults=ALL, checkOneFile=graphs('validate')),
                pick=pick(main=('options', 'exit', 'stdout', 'stderr', 'crash'), defaults=REPORT + ('crash',),
                          checkOneFile=lambda f, i, a, b: f == 'tests' and not i['fault'])),
    'C25': dict(units=dict(human=ALL, checkOneFile=graphs('convert', 'report*')),
                pick=pick(human=('tree', 'crash', 'result'), checkOneFile=converted)),
    'C26': dict(units=dict(mix=ALL, checkOneFile=graphs('mix', 'report*')),
                pick=pick(mix=('mix', 'crash'), checkOneFile=('propertiesExtension',))),
    'C27': dict(units=dict(main=graphs('analyse', 'escapes', 'stderr', 'exit', 'exits')),
                pick=pick(main=lambda f, i, a, b: f in ('paths', 'stderr', 'exit') or f == 'crash' and bool(b.f['paths']))),
}


# properties of the validators: the way their results take into the report
VALUES = dict(units=dict(human=graphs('tree', 'escapes', 'result'), checkOneFile=graphs('convert', 'report*')),
              pick=pick(human=('tree',), checkOneFile=lambda f, i, a, b: not i['fault'] and f == 'properties'))
OUTCOMES = dict(units=dict(checkOneFile=graphs('report*', 'validate', 'convert')),
                pick=pick(checkOneFile=lambda f, i, a, b: not i['fault'] and f == 'tests'))
EXTRA = {
    'C04': OUTCOMES, 'C05': OUTCOMES, 'C06': OUTCOMES, 'C07': OUTCOMES, 'C08': OUTCOMES, 'C09': OUTCOMES, 'C15': OUTCOMES,
    'C01': dict(units=dict(checkOneFile=graphs('report*', 'validate', 'escapes')),
                pick=pick(checkOneFile=lambda f, i, a, b: not i['fault'] and f in ('isValid', 'tests'))),
    'C02': dict(units=dict(checkOneFile=graphs('report*', 'validate', 'escapes'), main=graphs('analyse')),
                pick=pick(checkOneFile=lambda f, i, a, b: not i['fault'] and f in ('isValid', 'tests', 'properties'),
                          main=('options',))),
    'C03': dict(units=dict(checkOneFile=graphs('report*', 'validate', 'convert', 'tree', 'escapes')),
                pick=pick(checkOneFile=lambda f, i, a, b: not i['fault'] and f in ('tests', 'properties', 'warnings', 'order'))),
    'C10': VALUES, 'C11': VALUES, 'C12': VALUES, 'C13': VALUES,
    'C18': dict(units=dict(human=graphs('escapes', 'exits'), checkOneFile=graphs('escapes', 'exits', 'report*')),
                pick=pick(human=('crash',), checkOneFile=lambda f, i, a, b: not i['fault'] and f in ('statusInfo', 'crash'))),
}


# ---------------------------------------------------------------- requirements on one program (no reference needed)
def texts_legal(unit, a, b, info):
    """C20: what is written can be read back as XML"""
    if unit == 'checkOneFile' and a.tree is not None:
        for e in a.tree.iter():
            if e.tag in ('fileName', 'filePath', 'warning', 'failureMessage', 'success', 'fileLastModified', 'fileSizeInBytes') or \
                    e.tag == 'isValid':
                if not (e.text is None or isinstance(e.text, str) and LEGAL.match(e.text)):
                    yield e.tag, repr(e.text)[:80], 'text XML can hold'
        for part in a.tree:
            if part.tag in ('tests', 'properties', 'warnings'):
                for e in part.iter():
                    if not (e.text is None or isinstance(e.text, str) and LEGAL.match(e.text)):
                        yield part.tag, '%s: %r' % (e.tag, e.text), 'text XML can hold'
                        break
    elif unit == 'human' and not a.f['crash']:
        for tag, kind, text, at in a.f['tree']:
            if not (text is None or isinstance(text, str) and LEGAL.match(text)):
                yield 'text', '%r in %s' % (text, tag), 'text XML can hold'
                return
    elif unit == 'main':
        o, w = a.f['stdout'], b.f['stdout']
        if not isinstance(o, bytes) or not isinstance(w, bytes):
            return
        if w.lstrip().startswith(b'<?xml') and b.f['exit'] is None:
            if a.f['crash']:
                yield 'crash', a.f['crash'], 'output written in full'
                return
            try:
                ET.fromstring(o.decode('utf-8'))
            except (UnicodeDecodeError, ET.ParseError) as e:
                yield 'stdout', '%s: %r' % (e, o[:60]), 'a well-formed UTF-8 document'


def streams(unit, a, b, info):
    """C21"""
    if unit in ('checkOneFile', 'human', 'mix', 'defaults'):
        if isinstance(a.f['stdout'], bytes) and a.f['stdout']:
            yield 'stdout', repr(a.f['stdout'][:80]), 'nothing on standard output'
        if unit in ('checkOneFile', 'defaults') and b.f['stderr'] and not a.f['stderr']:
            yield 'stderr', 'nothing', 'a message on standard error'
    else:
        o, w = a.f['stdout'], b.f['stdout']
        if not isinstance(o, bytes) or not isinstance(w, bytes):
            return
        if not w and o:
            yield 'stdout', repr(o[:80]), 'nothing on standard output'
        elif w.lstrip().startswith(b'<?xml') and not a.f['crash']:
            try:
                ET.fromstring(o)
            except ET.ParseError as e:
                yield 'stdout', '%s: %r' % (e, o[:80]), 'only the report on standard output'
        if b.f['stderr'] and not a.f['stderr']:
            yield 'stderr', 'nothing', 'a message on standard error'


CHANGING = re.compile(r'^(os\.(remove|unlink|rename|renames|replace|rmdir|removedirs|truncate|chmod|chown|utime|link|symlink|mkdir|'
                      r'makedirs|system|popen|exec\w*|spawn\w*|fork|kill|write|ftruncate|mknod|setxattr|removexattr|lchown|putenv)|'
                      r'shutil\.\w+|tempfile\.\w+|subprocess\.\w+|socket\.\w+|urllib\..*|ctypes\..*|pathlib\..*)$')


def readonly(unit, a, b, info):
    """C22"""
    opened = {}
    for e in a.f['files']:
        if e[0] == 'open':
            if not isinstance(e[2], str) or any(c in e[2] for c in 'wax+'):
                yield 'open', '%s opened with mode %r' % (e[1], e[2]), 'opened for reading only'
        if e[0] == 'map' and e[2] != 'ro':
            yield 'map', '%s mapped writable' % e[1], 'mapped read-only'
        if e[0] == 'modify':
            yield 'modify', '%s of %s' % (e[2], e[1]), 'no change to an input'
    for e in a.f['calls']:
        if CHANGING.match(e[1]):
            yield 'call', '%s%s' % (e[1], e[2]), 'no change to the file system'
    left, ref = still_open(a), still_open(b)
    for x in left:
        if x not in ref:
            yield 'close', '%s is left open' % x, 'closed'


def still_open(r):
    opened = []
    for e in r.f['files']:
        if e[0] == 'open':
            opened.append(e[1])
        elif e[0] == 'map':
            opened.append('map of %s' % e[1])
        elif e[0] == 'close':
            m = re.match(r'(file|map)\((.*?),', e[1])
            n = (m.group(2) if m.group(1) == 'file' else 'map of ' + m.group(2)) if m else None
            if n in opened:
                opened.remove(n)
    return opened


def effects_of(log):
    for ctx, e in flat(log):
        for g, x in branches(e):
            if x.op == 'eff':
                yield ctx + g, x


def validators_quiet(run):
    """C21: no validator writes to standard output"""
    for k, s in validator_logs(run):
        for ctx, x in effects_of(s.log):
            run.count('effects')
            if category(x) == 'stdout':
                run.violation('%s/%s' % (unit_name(k), x.a[0]), '%s writes to standard output (%s)' % (unit_name(k), x.a[0]))


def validators_readonly(run):
    for k, s in validator_logs(run):
        for ctx, x in effects_of(s.log):
            run.count('effects')
            n = x.a[0]
            mode = x.a[2] if n == 'open' and len(x.a) > 2 else None
            if CHANGING.match(n) or n == 'open' and (mode is None or mode.op != 'c' or any(c in str(mode.a[0]) for c in 'wax+')) \
                    and mode is not None:
                run.violation('%s/%s' % (unit_name(k), n), '%s performs %s' % (unit_name(k), n))


def opens_readonly(run):
    """no branch of a mode lets a file be changed"""
    for u in top.UNITS:
        try:
            s = top.extract('code', u)
        except Exception:
            continue
        for log in [s.log] + list(s.outlogs):
            for ctx, x in effects_of(log):
                if x.a[0] != 'open':
                    continue
                run.count('open_sites')
                mode = [a for a in x.a[1:] if a.op == 'kw' and a.a[0] == 'mode']
                mode = mode[0].a[1] if mode else x.a[2] if len(x.a) > 2 and x.a[2].op != 'kw' else None
                for _, m in branches(mode) if mode is not None else ():
                    if m.op == 'c' and isinstance(cv(m), str) and any(c in cv(m) for c in 'wax+'):
                        run.violation('%s/open %s' % (u, cv(m)), '%s opens a file with mode %r' % (top.CODE[u][1], cv(m)), unit=u)
    validators_readonly(run)


def validator_logs(run):
    for k in U.ALLKEYS:
        run.count('validators')
        try:
            yield k, U.code_model().unit(k)
        except Exception as e:
            run.count('units_not_extracted')
            run.notes.append('%s: %s' % (unit_name(k), str(e)[:200]))


def never_exit(run):
    """C17: no validator ends the program"""
    for k, s in validator_logs(run):
        for ctx, x in effects_of(s.log):
            run.count('effects')
            if category(x) == 'exit':
                run.violation('%s/%s' % (unit_name(k), x.a[0]), '%s ends the program (%s)' % (unit_name(k), x.a[0]))
        for o in s.outs:
            if o.exc and any(n in FATAL for n in ([o.exc] if isinstance(o.exc, str) else o.exc)):
                run.violation('%s/%s' % (unit_name(k), o.exc), '%s raises %s, which is not contained' % (unit_name(k), o.exc))


FATAL = ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'BaseException')
PROPS['C17']['also'] = never_exit

REQUIRED = {
    'C20': dict(units=dict(checkOneFile=graphs('report*', 'convert', 'tree', 'escapes'), human=ALL, main=graphs('stdout', 'escapes', 'analyse')),
                judge=texts_legal),
    'C21': dict(units=dict(checkOneFile=graphs('stdout', 'stderr', 'escapes', 'exit'), human=graphs('stdout'), mix=graphs('stdout'),
                           main=graphs('stdout', 'stderr', 'exit', 'exits', 'analyse')),
                judge=streams, also=validators_quiet),
    'C22': dict(units=dict(checkOneFile=graphs('files', 'other', 'escapes'), main=graphs('files', 'other'), human=graphs('files', 'other'),
                           mix=graphs('files', 'other')),
                judge=readonly, also=opens_readonly),
}


# ---------------------------------------------------------------- the check
def extra(run, deep):
    if run.prop in EXTRA:
        check(run, deep, EXTRA[run.prop])


def check(run, deep, p=None):
    p = p or PROPS.get(run.prop) or REQUIRED[run.prop]
    run.assume.extend(ASSUME)
    run.cov['explanation'] = run.cov.get('explanation', '') + (
        'Source of /repo/jpylyzer is parsed and summarised into guarded value graphs (effects in order, report, what may raise). '
        'An obligation is one observable of one unit; it is discharged when the graph is the same normal form as that of the '
        'reference rule. Units with an open obligation (thorough: all) are compared by evaluating both graphs in every scenario.')
    opened = []
    for name, sel in p['units'].items():
        u = Unit(name)
        run.count('units')
        if u.error:
            run.count('units_not_extracted')
            run.notes.append('%s: %s' % (name, u.error))
            continue
        mine = [f for f in u.ok + u.open if sel(f)]
        bad = [f for f in u.open if sel(f)]
        run.count('obligations', len(mine))
        run.count('congruent', len(mine) - len(bad))
        if bad:
            run.cov.setdefault('not_congruent', []).extend('%s: %s' % (name, f) for f in bad)
        if bad or deep:
            opened.append(name)
        run.count('effects_analysed', sum(1 for _ in effects_of(u.code.log)))
    run.cov.setdefault('scenarios', 0)
    for name in opened:
        compare(run, p, name, deep)
    if 'also' in p:
        p['also'](run)


def compare(run, p, unit, deep):
    judge = p.get('judge')
    seen = set()
    for desc, play, info in scenarios(unit, deep):
        run.count('scenarios')
        try:
            a, b = play('code'), play('spec')
        except Exception as e:
            run.count('scenarios_not_evaluated')
            if run.cov['scenarios_not_evaluated'] == 1:
                run.notes.append('%s, %s: %s: %s' % (unit, desc, type(e).__name__, str(e)[:200]))
            continue
        ds = differences(unit, a, b, info)
        if ds is None:
            run.count('scenarios_undecided')
            w = run.cov.setdefault('undecided_because', {})
            k = '%s: %s' % (unit, (a.unknown or b.unknown)[0])
            w[k] = w.get(k, 0) + 1
            continue
        run.count('scenarios_decided')
        if judge and a.unknown:
            bad = []
        elif judge:
            bad = list(judge(unit, a, b, info))
        else:
            bad = [d for d in ds if p['pick'](unit, d[0], info, a, b)]
        for f, got, want in bad:
            k = '%s/%s' % (unit, f)
            if k in seen:
                continue
            seen.add(k)
            g, w = shorten(got, want)
            run.violation(k, '%s: %s is %s where it must be %s (scenario: %s)' % (top.CODE[unit][1], f, g, w, desc),
                          unit=unit, scenario=desc, observable=f)


def shorten(got, want):
    g, w = str(got), str(want)
    i = 0
    while i < min(len(g), len(w)) and g[i] == w[i]:
        i += 1
    i = max(0, i - 60)
    return ('...' if i else '') + g[i:i + 200], ('...' if i else '') + w[i:i + 200]
