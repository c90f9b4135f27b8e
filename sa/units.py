"""Extraction units: which abstract runs summarise which part of the system.

A unit is one validator (one box or marker segment).  Its summary is the set of
guarded value terms of everything observable about it: the three report trees,
the attributes read by the enclosing validator, effects and raise obligations.
"""
import ast
import glob
import os
import sys
from .terms import C, atom, raw, cv, EMPTY, NONE, TRUE, walk
from .evalt import PATCHED
from .interp import Program, Interp, State, Obj, contains_ref

sys.setrecursionlimit(50000)
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

FIELDS = ('tests', 'characteristics', 'warnings', 'isValid', 'returnOffset', 'tilePartLength')
ALLKEYS = [b'jp2i', b'xml ', b'uuid', b'uinf', b'jP  ', b'ftyp', b'jp2h', b'ihdr', b'bpcc', b'colr', b'pclr', b'cmap',
           b'cdef', b'res ', b'jp2c', b'resc', b'resd', b'ulst', b'url ', b'\xff\x50', b'\xff\x51', b'\xff\x56',
           b'\xff\x52', b'\xff\x5c', b'\xff\x64', b'\xff\x53', b'\xff\x5e', b'\xff\x5d', b'\xff\x5f', b'\xff\x55',
           b'\xff\x57', b'\xff\x58', b'\xff\x59', b'\xff\x60', b'\xff\x61', b'\xff\x63', b'\xff\x90', 'icc',
           'startOfTile', 'JP2', 'contiguousCodestreamBox']
# types no rule is known for: plain, null, not UTF-8, control characters, known ones in another case
UNKNOWN = (b'zzzz', b'\0\0\0\0', b'\xff\xff\xff\xff', b'\xff\x4f\xff\x51', b'\x01a\xc3\xa9', b'XML ', b'Colr', b'jp2 ', b'\xff\x52\0\0')


def four_bytes(paths):
    out = set()
    for p in paths:
        try:
            with open(p, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str) and v.isascii():
                    v = v.encode()
                if isinstance(v, bytes) and len(v) == 4:
                    out.add(v)
    return out


# and four-byte names only the source mentions
UNKNOWN += tuple(sorted(four_bytes(glob.glob(os.path.join(REPO, 'jpylyzer', '*.py'))) - four_bytes(glob.glob(os.path.join(SPEC, '*.py'))) -
                        set(ALLKEYS) - set(UNKNOWN) - {b'%sR%s%s' % (x, y, z) for x in (b'h', b'v') for y in (b'c', b'd') for z in (b'N', b'D', b'E')}))[:12]
ALLKEYS += UNKNOWN
CONTAINERS = (b'jp2h', b'res ', b'uinf', b'jp2c', b'\xff\x90', 'JP2', 'contiguousCodestreamBox', b'colr')


class Summary(object):
    pass


def repo_program(repo=None):
    repo = repo or REPO
    d = os.path.join(repo, 'jpylyzer')
    paths = {}
    for p in sorted(glob.glob(os.path.join(d, '*.py'))):
        n = os.path.basename(p)[:-3]
        if n not in ('__main__', '__init__'):
            paths[n] = p
    return Program(paths)


def spec_program():
    return Program({'ref': os.path.join(SPEC, 'ref.py')})


class Model(object):
    def __init__(self, program, module, cls):
        self.I = Interp(program)
        self.cls = module + ':' + cls
        self.module = module
        self.I.child_class = cls
        self.cache = {}
        PATCHED.update(getattr(self.I, 'patched', ()))

    def options(self, st, tag=''):
        m = raw('map', (C('validationFormat'), atom('fmt' + tag, 'str')), (C('verboseFlag'), atom('verbose' + tag, 'bool')),
                (C('nullxmlFlag'), atom('nullxml' + tag, 'bool')), (C('packetmarkersFlag'), atom('pm' + tag, 'bool')))
        return self.I.alloc(st, Obj('dict', {'m': m}))

    def reset(self):
        I = self.I
        I.collectors = [[]]
        I.try_stack = []
        I.eguard = []
        I.inline_stack = []
        I.loopdepth = 0
        I.unsupported = []
        I.curmod = self.module

    def unit(self, key):
        if key not in self.cache:
            self.cache[key] = self.extract(key)
        return self.cache[key]

    def extract(self, key, tag='', heap=None):
        """summary of one validator; tag: suffix of the inputs; heap: state left by an earlier analysis"""
        I = self.I
        self.reset()
        st = State({}, dict(I.st0.heap if heap is None else heap))
        for w in ('LOG', 'OBL'):
            st.heap[w] = Obj('log', {'seq': EMPTY})
        opts = self.options(st, tag)
        I.cut_children = False
        s = Summary()
        s.key = key
        args = [opts, C(key), atom('B' + tag, 'bytes'), atom('S' + tag, 'int'), atom('N' + tag, 'int')]
        init = I.class_attr(self.cls, '__init__', st)
        named = {}
        if init is not None and init.op == 'fn' and I.ctor_params(I.funcs[init.a[0]])[:5] == I.CTOR:
            args, named = [], dict(zip(I.CTOR, args))
        bv = I.instantiate(self.cls, args, named, st)
        I.cut_children = True
        I.call(I.getattr_(bv, 'validate', st), [], {}, st)
        o = I.obj(st, bv)
        s.f = {}
        memo = {}
        for f in FIELDS:
            s.f[f] = I.resolve(o.f[f], st.heap, memo=memo) if f in o.f else None
        s.name = cv(o.f['boxType']) if 'boxType' in o.f and o.f['boxType'].op == 'c' else str(key)
        s.log = I.resolve(st.heap['LOG'].f['seq'], st.heap, memo=memo)
        s.obl = I.resolve(st.heap['OBL'].f['seq'], st.heap, memo=memo)
        s.outs = [x for c in I.collectors for x in c]
        s.unsupported = sorted(set(I.unsupported))
        s.heap = st.heap
        return s


_code = None
_spec = None


def code_model():
    global _code
    if _code is None:
        _code = Model(repo_program(), 'boxvalidator', 'BoxValidator')
    return _code


def spec_model():
    global _spec
    if _spec is None:
        _spec = Model(spec_program(), 'ref', 'Ref')
    return _spec
