"""Scenarios the summaries of the program around the validators are evaluated under."""
import itertools
import xml.etree.ElementTree as ET
from .evalt import Rec, PyRaise
from .world import World, Fault

FORMATS = ('jp2', 'jph', 'j2c', 'jhc')
EXC = ('MemoryError', 'OSError', 'FileNotFoundError', 'PermissionError', 'RuntimeError', 'RecursionError', 'ValueError',
       'KeyError', 'IndexError', 'TypeError', 'AttributeError', 'UnicodeDecodeError', 'OverflowError', 'ZeroDivisionError',
       'NotImplementedError', 'AssertionError', 'UnboundLocalError', 'EOFError', 'BufferError', 'struct.error',
       'xml.etree.ElementTree.ParseError', 'StopIteration')
OPS = ('open', 'fileno', 'mmap.mmap', 'child', 'close', 'cut:makeHumanReadable', 'cut:generateMix')

PATHS = ('/data/a.jp2', 'sub/b.jp2', '/data/caf\u00e9.jp2', '/data/bad\udce9name.jp2', '/data/ctl\x01\x7f\u0085x.jp2',
         '/data/\U0001f600\ufffe\uffff.jp2', '/data/<&>"\'.jp2', '/da\udcffta/a.jp2', '/data/.hidden', '/data/\ud83d\ude00.jp2',
         '/data/tab\there.jp2', '../up.jp2', './here.jp2', 'sub//b.jp2', 'sub/../c.jp2', '/data/trail.jp2 ', '/data/ lead.jp2',
         '/data/dot.', '/data/%41+%s{0}.jp2', '/data/~u/$HOME.jp2', '/data/UPPER.JP2', '/data/two.dots.jp2', '/data/back\\slash.jp2',
         '/data/' + 'n' * 250 + '.jp2', '/data/e\u0301\u200b\u00ad.jp2', '/data/-dash', '/data/new\nline.jp2')


def el(tag, text=None, *kids, **attrib):
    e = ET.Element(tag, attrib)
    e.text = text
    e.extend(kids)
    return e


def result(valid=True, table=None, names=(), bare=False):
    """what a validator hands back, with values of every kind"""
    if bare:
        return Rec(isValid=valid, tests=el('tests', None), characteristics=el('properties', None), warnings=el('warnings', None), boxType='JP2',
                   returnOffset=None, tilePartLength=None)
    tests = el('tests', None, el('boxA', None, el('aIsValid', True), el('bIsValid', not (not valid))), el('cIsValid', False))
    props = el('properties', None)
    for tag in sorted(table or {}):
        g = el('g', None)
        for v in sorted(table[tag], key=repr):
            g.append(el(tag, v))
        for v in (0, 1, 2, 7, 16, -9999, 32768, 65535, True, b'scnr', b'xx', 'zz', 1.5, None):
            g.append(el(tag, v))
        props.append(g)
    for v in (5, 12.25, True, b'JP2 ', b'\xff\xfe', b'a\x00b\n', 'text\x01\u200b\t', '\ud800x', None, -9999, 2**40, '', b''):
        props.append(el('other', v))
    props.extend(list(properties()))
    props.append(el('xml', None, el('{ns}deep', 'k\u00e9', el('x', 'y'), a='1'), el('isValid', 'zz'), el('fileInfo', None, el('fileName', 'q')),
                   el('tests', None, el('warning', 'q')), el('success', 'q')))
    for n in names:
        tests.append(el('boxN', None, el(n, True), el(n, False)))
        props.append(el(n, None, el('k', 1)))
        for v in (0, 1, 2, 7, b'x', n, 1.5):
            props.append(el(n, v))
    warnings = el('warnings', None, el('warning', 'first\x02'), el('warning', b'second'))
    for n in names:
        warnings.append(el('warning', 'about ' + n))
    return Rec(isValid=valid, tests=tests, characteristics=props, warnings=warnings, boxType='JP2', returnOffset=None,
               tilePartLength=None)


def one_file(deep=False, own=()):
    """(description, world, arguments path fmt verbose pm nullxml mix, valid)"""
    def w(path, **k):
        p = path if path.startswith('/') else '/work/' + path
        files = k.pop('files', [p])
        return World(files=files, **k)
    for fmt in FORMATS:
        for mix in (0, 1, 2):
            for valid in (True, False):
                yield 'format %s, mix %d, %svalid' % (fmt, mix, '' if valid else 'not '), w('/data/a.jp2'), \
                    ('/data/a.jp2', fmt, False, False, False, mix), valid
    for fmt in FORMATS:
        for valid in (True, False):
            yield 'nothing reported, format %s, %svalid' % (fmt, '' if valid else 'not '), w('/data/bare.jp2'), \
                ('/data/bare.jp2', fmt, False, False, False, 0), valid
    for flags in itertools.product((True, False), repeat=3):
        yield 'flags %s %s %s' % flags, w('/data/a.jp2'), ('/data/a.jp2', 'jp2') + flags + (0,), True
    for p in PATHS:
        yield 'path %r' % p, w(p), (p, 'jp2', False, False, False, 0), True
    for v in own:
        if isinstance(v, str) and v and '\0' not in v and '/' not in v:
            for p in ('/data/' + v, '/data/x' + v, '/data/' + v + 'x.jp2', '/data/d' + v + '/a.jp2'):
                yield 'path %r' % p, w(p), (p, 'jp2', False, False, False, 0), True
        if isinstance(v, int) and 0 < v < 2**62:
            for z in (v - 1, v, v + 1):
                for ok in (True, False):
                    yield 'size %d' % z, w('/data/a.jp2', sizes={'/data/a.jp2': z}), ('/data/a.jp2', 'jp2', False, False, False, 1), ok
    yield 'path is a link to a file', World(files=['/data/real.jp2'], dirlinks={'/work/link.jp2': '/data/real.jp2'}), \
        ('link.jp2', 'jp2', False, False, False, 0), True
    yield 'path goes through a link', World(files=['/data/d/real.jp2'], dirlinks={'/work/dl': '/data/d'}), \
        ('dl/real.jp2', 'jp2', False, False, False, 0), True
    for pf in ('linux', 'win32', 'darwin', 'cygwin'):
        yield 'platform ' + pf, w('/data/a.jp2', platform=pf), ('/data/a.jp2', 'jp2', False, False, False, 0), True
    for fmt in FORMATS:
        yield 'empty file, format ' + fmt, w('/data/a.jp2', sizes={'/data/a.jp2': 0}), ('/data/a.jp2', fmt, True, False, False, 0), False
        yield 'file larger than the address space, format ' + fmt, w('/data/a.jp2', sizes={'/data/a.jp2': 2**34 + 5}, maxsize=2**31 - 1), \
            ('/data/a.jp2', fmt, False, False, False, 0), False
    yield 'missing file', w('/data/a.jp2', files=[]), ('/data/a.jp2', 'jp2', False, False, False, 0), True
    yield 'missing file, mix', w('/data/a.jp2', files=[]), ('/data/a.jp2', 'jp2', False, False, False, 2), True
    for p in PATHS:
        a = p if p.startswith('/') else '/work/' + p
        yield 'empty file %r' % p, w(p, sizes={a: 0}), (p, 'jp2', False, False, False, 0), False
    for t in (0.0, -1.0, 1e18, -1e18, float('nan'), float('inf'), 1700000000.123456):
        yield 'modified %r' % t, w('/data/a.jp2', mtime=t), ('/data/a.jp2', 'jp2', False, False, False, 0), True
    for op, exc in itertools.product(OPS, EXC):
        for mix in ((0, 1, 2) if deep else (1,)):
            for fmt in (FORMATS if deep else ('jp2', 'j2c')):
                yield '%s raises %s, format %s, mix %d' % (op, exc, fmt, mix), w('/data/a.jp2', fault=Fault(op, exc, 'boom')), \
                    ('/data/a.jp2', fmt, False, False, False, mix), True
    for op, excs in (('os.path.getsize', ('OSError', 'FileNotFoundError', 'PermissionError')),
                     ('os.path.getmtime', ('OSError', 'FileNotFoundError', 'PermissionError', 'OverflowError', 'ValueError')),
                     ('datetime.datetime.fromtimestamp', ())):
        for exc in excs:
            yield '%s raises %s' % (op, exc), w('/data/a.jp2', fault=Fault(op, exc, 'boom')), \
                ('/data/a.jp2', 'jp2', False, False, False, 0), True
    for msg in ('cannot mmap an empty file', 'mmap length is greater than file size', ''):
        for size in (0, 4711, 2**34):
            yield 'mapping raises ValueError(%r), size %d' % (msg, size), \
                w('/data/a.jp2', fault=Fault('mmap.mmap', 'ValueError', msg), sizes={'/data/a.jp2': size}, maxsize=2**31 - 1), \
                ('/data/a.jp2', 'jp2', False, False, False, 0), False


FILES = ('/work/a.jp2', '/work/b.jp2', '/work/c.tif', '/work/.hid.jp2', '/work/d/e.jp2', '/work/d/f.txt', '/work/d/g/h.jp2',
         '/work/d/g/i.jph', '/work/d2/j.jp2', '/work/d2/k/l.jp2', '/work/d2/k/m/n.jp2', '/x/one/p.jp2', '/x/one/q/r.jp2',
         '/work/caf\u00e9.jp2', '/work/star*name.jp2', '/x/only/s.jp2', '/work/-dash.jp2', '/work/d2/.cache/t.jp2', '/work/d2/k/m/o/p/u.jp2', '/work/d2/z/v.jp2',
         '/work/d2/a1/w.jp2', '/work/d2/x.jp2', '/work/d2/.y.jp2', '/work/d/B.JP2')
DIRS = ('/work/empty', '/work/d.jp2', '/x/only/in')
DIRLINKS = {'/work/d2/back': '/work/d'}
LINKS = ('/work/d/dangling.jp2',)
INPUTS = (('a.jp2',), ('a.jp2', 'b.jp2'), ('b.jp2', 'a.jp2'), ('a.jp2', 'a.jp2'), ('/work/a.jp2',), ('missing.jp2',),
          ('missing.jp2', 'a.jp2'), ('a.jp2', 'missing.jp2', 'b.jp2'), ('*.jp2',), ('/work/*.jp2',), ('d',), ('d/*.jp2',),
          ('d', 'a.jp2'), ('empty',), ('d2',), ('*',), ('d*',), ('d*/*.jp2',), ('/x/on*',), ('/x/onl*',), ('/x/onl*/*.jp2',),
          ('/x/one/*.jp2',), ('nothing*',), ('d/*', 'd2/*'), ('d/f.txt',), ('star*name.jp2',), ('caf\u00e9.jp2',),
          ('d/g',), ('d/', ), ('d2/k/*',), ('/x/*/*.jp2',), ('/x/o*/p*',), ('.',), ('*.tif',), ('d/dangling.jp2',),
          ('d.jp2',), ('d.jp2', 'a.jp2'), ('d2/*/*.jp2',), ('.hid.jp2',), ('a*',), ('*2',), ('**/*.jp2',), ('d2/**',), ('d2/**/*.jp2',), ('**',), ('?.jp2',), ('[ab].jp2',), ('[ab]*.jp2',), ('d2/*',), ('d2/k*',),
          ('D',), ('A.JP2',), ('d/*.JP2',), (' a.jp2',), ('./a.jp2', 'd/../a.jp2'), ('d', 'd'), ('d2', 'd', 'a.jp2', 'nope'), ('a.jp2', '*.jp2'), ('d/e.jp2', 'd'), ('em*',))
FLAGSETS = ([], ['--verbose'], ['--nopretty'], ['--nullxml'], ['--packetmarkers'], ['-p'], ['--mix', '1'], ['--mix', '2'],
            ['--format', 'jp2'], ['--format', 'jph'], ['--format', 'j2c'], ['--format', 'jhc'], ['-f', 'j2c'],
            ['--format', 'JP2'], ['--format', 'J2C'], ['--format', 'Jhc', '--mix', '2'], ['--format', 'j2c', '--mix', '1'],
            ['--format', 'jph', '--mix', '2'], ['--format', 'tif'], ['--format', 'jp2x'], ['--format', ' jp2'], ['--format', 'jp2 '],
            ['--format', 'jp'], ['--format', 'j2k'], ['--format', 'jpx'], ['--format', 'jp2,jph'], ['--format=j2c'], ['-fjph'],
            ['--format', 'J2C', '--mix', '2'], ['--format', 'JPH', '--mix', '1'], ['--mix=2'], ['--mix', '-1'], ['--mix', '12'],
            ['-f', 'jp2', '-f', 'jhc'], ['--nopretty', '--verbose'], ['--nopretty', '-p', '--format', 'j2c'], ['-p', '--nullxml', '--mix', '2'], ['--format', ''], ['--mix', '3'], ['--mix', '0'],
            ['--mix', 'x'], ['--verbose', '--nopretty', '--nullxml', '--packetmarkers', '--mix', '2'],
            ['--nopretty', '--mix', '1', '-f', 'jp2'], ['--bogus'], ['--version'], ['-v'], ['--help'], ['-h'],
            ['--verbose', '--format', 'jph'], ['--nullxml', '--nopretty'], ['-p', '--verbose'], ['--format'], ['--recurse'], ['-r'])


def command_lines(deep=False, own=()):
    """(description, world)"""
    def w(args, **k):
        return World(argv=['/usr/bin/jpylyzer'] + list(args), files=FILES, dirs=DIRS, links=LINKS, dirlinks=DIRLINKS, **k)
    yield 'no arguments', w([])
    for f in FLAGSETS:
        for i in ((), ('a.jp2',), ('missing.jp2',), ('b.jp2', 'd/e.jp2', 'a.jp2')):
            args = list(f) + list(i)
            yield ' '.join(args) or '(none)', w(args)
    for i in INPUTS:
        for r in ([], ['--recurse'], ['-r', '--nopretty']):
            args = r + list(i)
            yield ' '.join(args), w(args)
    for v in own:
        if isinstance(v, str) and v and '\0' not in v and '/' not in v:
            names = ['n' + v, v, v + 'n.jp2'] if not v.startswith('-') else ['n' + v]
            names = [n for n in names if n not in ('.', '..') and '*' not in n]
            for r in ([], ['-r']):
                for i in (names, ['dd'], ['dd/*'], ['*'], ['d' + v]):
                    args = r + ['--'] + i
                    yield ' '.join(args), World(argv=['/usr/bin/jpylyzer'] + args, files=FILES + tuple('/work/' + n for n in names) + tuple(
                        '/work/dd/' + n for n in names) + tuple('/work/dd/%s/t.jp2' % ('s' + v) for _ in (0,)) + ('/work/d%s/u.jp2' % v,),
                        dirs=DIRS, links=LINKS, dirlinks=DIRLINKS)
            yield 'format %r' % v, w(['--format', v, 'a.jp2'])
    for loc in ('ascii', 'latin-1', 'utf-16'):
        for r in ([], ['--nopretty']):
            yield 'locale %s: %s' % (loc, ' '.join(r)), w(r + ['caf\u00e9.jp2', 'a.jp2', 'nonexist\u00e9'], locale=loc)
    for name in ('jpylyzer', '/opt/bin/jpylyzer.py', '', '/x/', 'C:\\jpylyzer.exe'):
        x = w(['a.jp2'])
        x.argv[0] = name
        yield 'called as %r' % name, x
    for v in ('2.7.18 (default)', '3.8.1', '3.20.0'):
        yield 'Python ' + v, w(['a.jp2'], version=v)
    if deep:
        for f in FLAGSETS[:25]:
            for i in INPUTS:
                for r in ([], ['-r']):
                    yield ' '.join(f + r + list(i)), w(f + r + list(i))


def report_of(args):
    """what the analysis of one file hands back to the program"""
    path = args[0] if isinstance(args[0], str) else repr(args[0])
    clean = path.encode('utf-8', 'replace').decode()
    status = el('statusInfo', None, el('success', 'True'))
    if path.endswith('b.jp2'):
        status = el('statusInfo', None, el('success', 'False'), el('failureMessage', 'unknown error'))
    return el('file', None, el('fileInfo', None, el('fileName', clean)), status, el('called', repr(tuple(args[1:6]))),
              el('isValid', 'True', format='jp2'), el('tests'), el('properties', None, el('n', '5'), el('t', 'k\u00e9 \u20ac \U0001f600 <&>')),
              el('warnings'))


# ---------------------------------------------------------------- text conversion
def trees(table, deep=False, own=(), names=()):
    vals = [0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 18, 19, 32768, 49152, 65535, -1, -9999, 10**30, True, False, None, 0.0, 1.0, 1.5,
            float('inf'), b'', b'scnr', b'SGI', b'SGI ', b'APPL', b'\x00', b'a\x00', b'\xff', b'\xc3\xa9', b'\xed\xa0\x80', b'\xf0\x9f\x98\x80',
            b'a\tb\nc\rd', '', 'x', '1', 'a\x00b', 'a\x1fb', '\x7f', '\x80\x9f', '\u200b', '\ue000', '\ud800', '\ufffe', '\uffff',
            '\ufdd0', '\u0378', 'a\tb\nc\rd', '\u00e9\u20ac', '\U0001f600', '\U0010ffff', '\u2028', '\u00ad', '\u0085', b'\xc2\x85',
            b'\xef\xbf\xbf', ' lead', b' trail ', '<&>]]>',
            ''.join(map(chr, range(0x20))) + 'z', bytes(range(0x20)) + b'z', ''.join(map(chr, range(0x7e, 0xa2))) + 'z',
            ''.join(map(chr, range(0x7e, 0xa2))).encode('utf-8') + b'z', '\u200e\ufeff\U000e0001\U000f0000z', ' \t\n', b' \t\n',
            'True', b'1', b'0', 'a' * 300, b'a' * 300, '\u0130I\u00df', -0.0, 1e300, 0.1 + 0.2, 123456.789, 1e-7, 255, 256, 10**6]
    vals += [v for v in own if not any(v == x and type(v) is type(x) for x in vals)]
    vals += [v.encode() for v in own if isinstance(v, str)]
    vals = [v for v in vals]
    keys = set()
    for m in table.values():
        keys |= set(m)
    for k in sorted(keys, key=repr):
        if not any(v == k and type(v) is type(k) for v in vals):
            vals.append(k)
    tags = sorted(table) + ['other', 'iPR ', 'UnkC', '{ns}c', 'warning', 'aIsValid'] + list(names)
    for t in (None, {}, table):
        for tag in (tags if t else ['other', 'c', 'meth', 'warning', 'aIsValid'] + list(names)):
            root = el('root', None)
            for v in vals:
                root.append(el(tag, v, el('kid', v), el(tag, v)))
            yield 'values of %s, %s' % (tag, 'with table' if t else 'without table'), root, t
        for v in vals:
            yield 'a lone element with %r, %s' % (v, 'with table' if t else 'without table'), el('c', v), t
    e = el('a', b'x')
    r = e
    for i in range(30):
        n = el('n%d' % i, i, el('c', 7))
        n.tail = ' '
        r.append(n)
        r = n
    yield 'nested', e, table


# ---------------------------------------------------------------- MIX
RDF = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
XAP = '{http://ns.adobe.com/xap/1.0/}'
TIFF = '{http://ns.adobe.com/tiff/1.0/}'
AUX = '{http://ns.adobe.com/exif/1.0/aux/}'
XMP = ((XAP, 'CreateDate'), (TIFF, 'Artist'), (TIFF, 'Make'), (TIFF, 'Model'), (AUX, 'SerialNumber'), (XAP, 'CreatorTool'))


def xmp(kind, which, text='v'):
    d = el(RDF + 'Description', None)
    for ns, n in which:
        v = '  %s %s 4.5 ' % (text, n) if n != 'CreatorTool' else text
        if kind == 'elem':
            d.append(el(ns + n, v))
        else:
            d.attrib[ns + n] = v
    return el('{adobe:ns:meta/}xmpmeta', None, el(RDF + 'RDF', None, d))


def properties(br='jp2 ', cs='enum', comment='Kakadu-v7.2', tiles=('1024', '512'), layers='12', levels='5', res='c', depths=('8', '8', '8'),
               transf='9-7 irreversible', ratio='12.35', wh=('640', '480'), meta=None, where='xmlBox', num=('1000.0', '2000.5'),
               enum='sRGB', icc=('RGB ', 'Adobe RGB (1998)'), dnum=('300.13', '401.0'), more=(), coms=()):
    p = el('properties', None)
    if br is not None:
        p.append(el('fileTypeBox', None, el('br', br), el('minV', '0')))
    h = el('jp2HeaderBox', None, el('imageHeaderBox', None, el('height', wh[1]), el('width', wh[0]), el('nC', str(len(depths)))))
    if cs == 'enum':
        h.append(el('colourSpecificationBox', None, el('meth', 'Enumerated'), el('enumCS', enum)))
    elif cs == 'icc':
        h.append(el('colourSpecificationBox', None, el('meth', 'Restricted ICC'),
                    el('icc', None, el('colourSpace', icc[0]), el('description', icc[1]))))
    elif cs == 'both':
        h.append(el('colourSpecificationBox', None, el('enumCS', 'greyscale')))
        h.append(el('colourSpecificationBox', None, el('icc', None, el('colourSpace', 'GRAY'), el('description', 'd'))))
    elif cs == 'none':
        h.append(el('colourSpecificationBox', None, el('meth', 'Vendor Colour')))
    if res:
        r = el('resolutionBox', None)
        if 'd' in res:
            r.append(el('displayResolutionBox', None, el('hResdInPixelsPerMeter', dnum[0]), el('vResdInPixelsPerMeter', dnum[1])))
        if 'c' in res:
            r.append(el('captureResolutionBox', None, el('vRescInPixelsPerMeter', num[1]), el('hRescInPixelsPerMeter', num[0])))
        h.append(r)
    p.append(h)
    if meta is not None:
        p.append(el(where, None, meta))
    for wh2, m2 in more:
        p.append(el(wh2, None, m2) if m2 is not None else el(wh2, None))
    c = el('contiguousCodestreamBox', None,
           el('siz', None, el('xTsiz', tiles[0]), el('yTsiz', tiles[1]), el('csiz', str(len(depths))),
              *[el('ssizDepth', d) for d in depths]),
           el('cod', None, el('layers', layers), el('levels', levels), el('transformation', transf)))
    if comment is not None:
        c.append(el('com', None, el('rcom', 'ISO/IEC 8859-15 (Latin)'), el('comment', comment)))
    for x in coms:
        c.append(el('com', None, el('rcom', 'binary')) if x is None else el('com', None, el('rcom', 'ISO/IEC 8859-15 (Latin)'), el('comment', x)))
    p.append(c)
    p.append(el('compressionRatio', ratio))
    return p


def mix_inputs(deep=False, own=()):
    """property trees valid files can have"""
    txt = [v for v in own if isinstance(v, str) and v]
    num = [v for v in own if isinstance(v, int) and not isinstance(v, bool) and 0 < v < 2**16]
    num += [int(v) for v in txt if v.isdigit() and 0 < int(v) < 2**32]
    num = sorted(set(y for v in num for y in (v - 1, v, v + 1) if y > 0))

    def vary():
        yield 'plain', {}
        for b in (None, 'jph '):
            yield 'brand %r' % b, dict(br=b)
        for c in ('enum', 'icc', 'both', 'none'):
            yield 'colour ' + c, dict(cs=c)
        for c in ['sRGB', 'greyscale', 'sYCC', '12', '0']:
            yield 'enumerated colour space ' + c, dict(enum=c)
        for c in ['RGB ', 'GRAY', 'XYZ ', 'Lab ', 'CMYK']:
            for d in ['sRGB IEC61966-2.1', '', ' padded ', 'a-v1.2'] + txt:
                yield 'ICC %r %r' % (c, d), dict(cs='icc', icc=(c, d))
        for c in [None, 'no match', 'Kakadu-v7.2.2', 'a-v1-v2.3', '-v', 'x-vabc', 'multi\nline-v2', '', 'Kakadu-7.2', 'my codec-v1.0 beta',
                  ' lead-v1', 'X-V1.2', 'v1.2', 'a-v.'] + txt + [x + '-v1.2' for x in txt] + ['c-v' + x for x in txt]:
            yield 'comment %r' % c, dict(comment=c)
        for cs in (('b-v2',), (None, 'b-v2'), (None,), ('x', 'y-v3')):
            yield 'comments %s' % (cs,), dict(coms=cs)
            yield 'only comments %s' % (cs,), dict(coms=cs, comment=None)
        for t in [('1', '2'), ('65535', '1'), ('1', '4294967295'), ('256', '256')] + [(str(n), '7') for n in num] + [('7', str(n)) for n in num]:
            yield 'tiles %s' % (t,), dict(tiles=t)
        for l in ['1', '2', '9', '10', '11', '65535'] + [str(n) for n in num if n < 65536]:
            yield 'layers ' + l, dict(layers=l)
        for l in ['0', '1', '2', '3', '9', '10', '20', '32'] + [str(n) for n in num if n <= 32]:
            yield 'levels ' + l, dict(levels=l)
        for r in ('', 'c', 'd', 'cd'):
            yield 'resolution %r' % r, dict(res=r)
            for n in (('0.0', '0.01'), ('118110.24', '1000.0'), ('0.02', '0.01'), ('1e+20', '0.5'), ('300.0', '72.0'), ('0.29', '1.15'),
                      ('11811.02', '4.35')):
                yield 'resolution %r values %s' % (r, n), dict(num=n, dnum=(n[1], n[0]), res=r)
        for d in [('8',), ('8', '16'), ('1', '2', '3', '4'), ('8',) * 3, ('8',) * 4, ('8',) * 5, ('16', '8', '8', '1', '12', '38'), ('8',) * 17, ('38',)] + \
                [('8',) * n for n in num if n < 40]:
            yield 'depths %s' % (d,), dict(depths=d)
        for t in ('5-3 reversible', '9-7 irreversible'):
            yield 'transformation ' + t, dict(transf=t)
        for r in ('1.0', '0.5', '1.5', '2.5', '12.35', '100.0', '20.0', '0.0', '0.01', '1234.56', '1e+16', '0.29', '1.15', '3.5', '8.0', '2.67'):
            yield 'ratio ' + r, dict(ratio=r)
        yield 'size', dict(wh=('1', '99999'))
        for n in num:
            yield 'size %d' % n, dict(wh=(str(n), '5'))
            yield 'size, %d' % n, dict(wh=('5', str(n)))
        for where in ('xmlBox', 'uuidBox'):
            for kind in ('elem', 'attr'):
                yield 'xmp all %s in %s' % (kind, where), dict(meta=xmp(kind, XMP, 'Tool 1.2'), where=where)
                yield 'xmp none in %s' % where, dict(meta=xmp(kind, ()), where=where)
                for i, x in enumerate(XMP):
                    yield 'xmp %s as %s in %s' % (x[1], kind, where), dict(meta=xmp(kind, (x,), 'SilverFast'), where=where)
                    yield 'xmp all but %s as %s in %s' % (x[1], kind, where), dict(meta=xmp(kind, XMP[:i] + XMP[i + 1:], 'Tool 1.2'), where=where)
                    for t in txt:
                        yield 'xmp %s %r as %s in %s' % (x[1], t, kind, where), dict(meta=xmp(kind, (x,), t), where=where)
                for t in ('Tool 1.2', 'Tool', 'A B 3', 'A B ', ' 1', '', 'Tool 1.2 beta', 'Tool v1.2', ' Tool 3', 'Tool 3 '):
                    yield 'creator %r as %s in %s' % (t, kind, where), dict(meta=xmp(kind, XMP[5:], t), where=where)
        bare = el('{adobe:ns:meta/}xmpmeta', None, el(RDF + 'RDF', None))
        odd = el('{adobe:ns:meta/}xmpmeta', None, el(RDF + 'RDF', None, el('x')))
        yield 'xmp without description', dict(meta=odd)
        yield 'xmp empty rdf', dict(meta=bare)
        yield 'other xml', dict(meta=el('other', 'x'))
        full = xmp('elem', XMP, 'Tool 1.2')
        half = xmp('attr', XMP[:3], 'T 2')
        for a, b in itertools.product((bare, odd, full, half, el('other', 'x'), None), repeat=2):
            for w1, w2 in (('xmlBox', 'uuidBox'), ('uuidBox', 'xmlBox'), ('xmlBox', 'xmlBox'), ('uuidBox', 'uuidBox')):
                yield 'metadata in %s and %s' % (w1, w2), dict(more=((w1, a), (w2, b)))
        d1 = el(RDF + 'Description', None, el(XAP + 'CreateDate', '2001'))
        d2 = el(RDF + 'Description', None, el(TIFF + 'Make', 'M'))
        d3 = el(RDF + 'Description', None)
        d3.attrib[TIFF + 'Model'] = 'Q'
        for ds in itertools.permutations((d1, d2, d3)):
            yield 'several descriptions', dict(meta=el('{adobe:ns:meta/}xmpmeta', None, el(RDF + 'RDF', None, *ds)))
        e1 = el(RDF + 'Description', None, el(TIFF + 'Make', 'elem'))
        e1.attrib[TIFF + 'Make'] = 'attr'
        yield 'element and attribute', dict(meta=el('{adobe:ns:meta/}xmpmeta', None, el(RDF + 'RDF', None, e1)))
    for v in (1, 2):
        for d, k in vary():
            yield 'version %d, %s' % (v, d), v, properties(**k)
