"""Which obligations belong to which property."""
from . import units as U

BOXES = (b'jp2i', b'xml ', b'uuid', b'jP  ', b'ftyp', b'ihdr', b'bpcc', b'colr', b'pclr', b'cmap', b'cdef', b'resc',
         b'resd', b'ulst', b'url ')
SUPER = ('JP2', b'jp2h', b'res ', b'uinf')
CODING = (b'\xff\x51', b'\xff\x52', b'\xff\x53')
OTHERSEG = (b'\xff\x50', b'\xff\x56', b'\xff\x5c', b'\xff\x64', b'\xff\x5e', b'\xff\x5d', b'\xff\x5f', b'\xff\x55',
            b'\xff\x57', b'\xff\x58', b'\xff\x59', b'\xff\x60', b'\xff\x61', b'\xff\x63', 'startOfTile')
STREAM = (b'jp2c', 'contiguousCodestreamBox', b'\xff\x90')
OTHER = U.UNKNOWN
ALL = tuple(k for k in U.ALLKEYS)
DERIVED = ('compressionRatio', 'numberOfTiles', 'capability', 'PRFnum', 'CPFnum', 'htB', 'codeBlockWidth',
           'codeBlockHeight', 'precinctSizeX', 'precinctSizeY', 'ssizDepth', 'bPCDepth', 'bDepth', 'iplt', 'iplm', 'ssizSign', 'bPCSign',
           'bSign')


def derived(tag):
    return tag in DERIVED or 'InPixelsPer' in str(tag)


def contained(tag):
    """the tag of a nested report: a box or marker segment, or one the analysis leaves open"""
    from .decide import CONTAINER_TAGS
    return tag in ('*', None) or tag in CONTAINER_TAGS


def is_test(o):
    return o[0] == 'tests' and o[1] != '(order)'


def own_test(o):
    return is_test(o) and not contained(o[1])


def is_char(o):
    return o[0] == 'characteristics' and o[1] != '(order)'


def own_char(o):
    return is_char(o) and not contained(o[1])


def nested(o):
    return contained(o[1]) and o[0] in ('tests', 'characteristics', 'warnings')


def names(keys):
    return set(U.spec_model().unit(k).name for k in keys)


def within(keys, field, tags=None):
    """a nested report differs in what one of the given units contributes"""
    memo = []

    def f(rec):
        if not memo:
            memo.append(names(keys))
        return rec['field'] == field and any((c in memo[0] or t in memo[0]) and (tags is None or tags(t)) for c, t in rec.get('inner', ()))
    return f


CONSISTENCY = ('heightConsistentWithSIZ', 'widthConsistentWithSIZ', 'nCConsistentWithSIZ', 'bPCSignConsistentWithSIZ',
               'bPCDepthConsistentWithSIZ')

# property -> (units, which (field, tag) obligations, which record kinds)
UNIT_PROPS = {
    'C01': (ALL, lambda k, o: o[0] in ('isValid', 'tests') and o[1] != '(order)'),
    'C03': (ALL, lambda k, o: nested(o) or o[0] == 'warnings' or o[1] in ('boxType', '(order)')),
    'C04': (BOXES, lambda k, o: own_test(o)),
    'C05': (SUPER, lambda k, o: own_test(o) and o[1] not in CONSISTENCY),
    'C06': (('JP2', b'jp2h', b'ihdr', b'bpcc', b'\xff\x51'), lambda k, o: k == 'JP2' and own_test(o) and
            (o[1] in CONSISTENCY or 'Consistent' in str(o[1])) or k != 'JP2' and o[0] == 'characteristics' and
            o[1] in ('height', 'width', 'nC', 'bPCSign', 'bPCDepth', 'xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'csiz', 'ssizSign',
                     'ssizDepth', '*', None)),
    'C07': (CODING, lambda k, o: own_test(o)),
    'C08': (OTHERSEG, lambda k, o: own_test(o)),
    'C09': (STREAM, lambda k, o: is_test(o) or o[0] in ('returnOffset', 'tilePartLength')),
    'C10': (BOXES + ('JP2',) + OTHER, lambda k, o: own_char(o)),
    'C11': (CODING + OTHERSEG + STREAM, lambda k, o: own_char(o)),
    'C12': (('icc', b'colr'), lambda k, o: k == 'icc' and o[1] != '(order)' or k == b'colr' and (nested(o) or o[1] == 'icc' or
            'icc' in str(o[1]))),
    'C13': (ALL, lambda k, o: o[0] == 'characteristics' and derived(o[1])),
    'C14': (SUPER + STREAM + OTHER + (b'colr', 'startOfTile'), lambda k, o: nested(o) or k in OTHER and o[1] != '(order)' or
            o[0] in ('returnOffset', 'tilePartLength') or o[0] == 'warnings'),
    'C15': (ALL, lambda k, o: is_test(o)),
    'C16': (ALL, lambda k, o: False),
    'C18': (ALL, lambda k, o: False),
}


def spread(prop, units, inside):
    """the units a property is about also matter where they are nested"""
    own, sel = UNIT_PROPS[prop]
    field = 'characteristics' if prop in ('C10', 'C11', 'C13') else 'tests'
    more = tuple(k for k in units if k not in own)
    fields = ('tests', 'characteristics') if prop == 'C12' else (field,)
    UNIT_PROPS[prop] = (own + more, lambda k, o: k not in more and sel(k, o) or k in units and o[0] in fields and contained(o[1]))
    NESTED[prop] = (units, inside)


NESTED = {}
spread('C04', SUPER, within(BOXES, 'tests'))
spread('C07', STREAM, within(CODING, 'tests'))
spread('C08', STREAM, within(OTHERSEG, 'tests'))
spread('C10', SUPER, within(BOXES + SUPER + OTHER, 'characteristics'))
spread('C11', STREAM + ('JP2',), within(CODING + OTHERSEG + STREAM, 'characteristics'))
spread('C12', (b'jp2h',), lambda r: within(('icc',), 'tests')(r) or within(('icc',), 'characteristics')(r))
spread('C13', SUPER + STREAM, within(ALL, 'characteristics', derived))


def wanted(prop, rec):
    """does this disagreement violate the property"""
    k = rec['unit']
    o = (rec['field'], rec['tag'])
    kind = rec['kind']
    units, sel = UNIT_PROPS[prop]
    if k not in units:
        return False
    if prop == 'C01':
        return kind in ('verdict', 'nonbool') or kind == 'attr' and o[0] == 'isValid' and not rec.get('tests_differ')
    if prop == 'C15':
        if kind != 'value' or not rec.get('short'):
            return False
        return bool(rec.get('passes'))
    if prop == 'C16':
        return kind == 'long'
    if prop == 'C18':
        return kind == 'crash'
    if prop == 'C03' and kind == 'sequence':
        return True
    if kind == 'crash':
        # no tests and no properties at all
        return prop in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14')
    if kind not in ('value', 'attr'):
        return False
    if prop in NESTED and k in NESTED[prop][0] and contained(o[1]):
        return NESTED[prop][1](rec)
    return bool(sel(k, o))
