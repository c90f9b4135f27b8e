"""Regions of the input space on which non-congruent obligations are decided.

The guards of both summaries compare fields with constants; between two
neighbouring constants a guard cannot change.  A region is named by one
valuation of the unit's atoms: contents B, start offset S, component count N
and the options.  Layouts below give the field structure of every unit; the
values per field are all 256 values for one-byte fields and, for wider fields,
the constants found in the two summaries with their neighbours, powers of two
and byte-asymmetric patterns.
"""
import struct
import itertools
from math import gcd
from .terms import T, cv, walk

BOXFMT = ('jp2', 'jph')
ALLFMT = ('jp2', 'jph', 'j2c', 'jhc')


def opts(fmt='jp2', verbose=True, nullxml=False, pm=False):
    return dict(fmt=fmt, verbose=verbose, nullxml=nullxml, pm=pm)


def box(kind, payload=b''):
    return struct.pack('>I', 8 + len(payload)) + kind + payload


def xlbox(kind, payload=b''):
    return struct.pack('>I', 1) + kind + struct.pack('>Q', 16 + len(payload)) + payload


def seg(marker, payload=b''):
    return marker + struct.pack('>H', 2 + len(payload)) + payload


# ------------------------------------------------------------ valid pieces
IHDR = struct.pack('>IIHBBBB', 5, 7, 1, 7, 7, 0, 0)
FTYP = b'jp2 ' + b'\0\0\0\0' + b'jp2 '
SIG = b'\r\n\x87\n'


def siz(x=7, y=5, xo=0, yo=0, xt=7, yt=5, xto=0, yto=0, comps=((7, 1, 1),), rsiz=0):
    p = struct.pack('>HIIIIIIIIH', rsiz, x, y, xo, yo, xt, yt, xto, yto, len(comps))
    for c in comps:
        p += struct.pack('>BBB', *c)
    return seg(b'\xff\x51', p)


COD = seg(b'\xff\x52', struct.pack('>BBHBBBBBB', 0, 2, 1, 0, 1, 4, 4, 0, 1))
QCD = seg(b'\xff\x5c', b'\x40\x40\x48\x48\x50')
COC = seg(b'\xff\x53', bytes([0, 0, 1, 4, 4, 0, 1]))
COC1 = seg(b'\xff\x53', bytes([1, 0, 1, 4, 4, 0, 1]))
QCC = seg(b'\xff\x5d', bytes([0, 0x40, 0x40]))
QCC1 = seg(b'\xff\x5d', bytes([1, 0x40, 0x40]))
RGN = seg(b'\xff\x5e', bytes([0, 0, 5]))
POC = seg(b'\xff\x5f', bytes([0, 0, 0, 1, 1, 1, 0]))
CRG = seg(b'\xff\x63', bytes([0, 1, 0, 2]))
COM = seg(b'\xff\x64', b'\0\x01hi')
CAP = seg(b'\xff\x50', struct.pack('>IH', 1 << 17, 3))
PRF = seg(b'\xff\x56', b'\0\x05')
CPF = seg(b'\xff\x59', b'\0\x05')
TLM = seg(b'\xff\x55', b'\0\x40\0\0\0\x10')
PLM = seg(b'\xff\x57', b'\0\x02\x0c\x81\x01')
PLT = seg(b'\xff\x58', b'\0\x0c\x81\x01')
PPM = seg(b'\xff\x60', b'\0abc')
PPT = seg(b'\xff\x61', b'\0abc')
UNKSEG = seg(b'\xff\x70', b'xy')
EOC = b'\xff\xd9'
SOD = b'\xff\x93'

SEGS = {'cod': COD, 'qcd': QCD, 'coc': COC, 'coc1': COC1, 'qcc': QCC, 'qcc1': QCC1, 'rgn': RGN, 'poc': POC, 'crg': CRG,
        'com': COM, 'cap': CAP, 'prf': PRF, 'cpf': CPF, 'tlm': TLM, 'plm': PLM, 'plt': PLT, 'ppm': PPM, 'ppt': PPT,
        'unk': UNKSEG, 'sod': SOD, 'soc': b'\xff\x4f', 'eph': b'\xff\x92', 'z0': b'\xff\x70\0\0', 'z1': b'\xff\x52\0\1'}


def sot(isot=0, psot=None, tpsot=0, tnsot=1, header=b'', data=b'dd', sod=SOD, lsot=10):
    n = 12 + len(header) + len(sod) + len(data)
    return b'\xff\x90' + struct.pack('>HHIBB', lsot, isot, n if psot is None else psot, tpsot, tnsot) + header + sod + data


def stream(main=COD + QCD, parts=None, sz=None, eoc=EOC):
    return b'\xff\x4f' + (siz() if sz is None else sz) + main + (sot() if parts is None else parts) + eoc


CS = stream()


def colr(meth=1, prec=0, approx=0, rest=b'\0\0\0\x10'):
    return bytes([meth, prec, approx]) + rest


def icc(tags=(b'desc', b'wtpt'), cls=b'mntr', size=None, desc=b'sRGB', flags=0xC0, count=None, desclen=None):
    h = bytearray(128)
    h[4:8] = b'appl'
    h[8:12] = b'\x02\x34\0\0'
    h[12:16] = cls
    h[16:20] = b'RGB '
    h[20:24] = b'XYZ '
    h[24:36] = struct.pack('>6H', 2001, 2, 3, 4, 5, 6)
    h[36:40] = b'acsp'
    h[40:44] = b'MSFT'
    h[44] = flags
    h[48:52] = b'IEC '
    h[52:56] = b'sRGB'
    h[56] = 0x50
    h[64:68] = b'\1\2\0\3'
    h[68:80] = struct.pack('>3I', 0xF6D6, 0x10000, 0xD32D)
    h[80:84] = b'HP  '
    h[84:100] = bytes(range(0xa0, 0xb0))
    start = 132 + 12 * len(tags)
    table = b''
    body = b''
    for t in tags:
        d = b'desc\0\0\0\0' + struct.pack('>I', len(desc) + 1 if desclen is None else desclen) + desc + b'\0' \
            if t == b'desc' else b'XYZ data'
        table += t + struct.pack('>II', start + len(body), len(d))
        body += d
    n = len(tags) if count is None else count
    p = bytes(h) + struct.pack('>I', n) + table + body
    return struct.pack('>I', len(p) if size is None else size) + p[4:]


def uid(x=0):
    return bytes([(i * 17 + x) & 255 for i in range(16)])


XMP = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')

# layout per unit: struct formats with a valid valuation; wide layouts repeat
LAYOUT = {
    b'jP  ': [('>4B', SIG)],
    b'ftyp': [('>4BI4B', b'jp2 ' + b'\0' + b'jp2 '), ('>4BI4B4B', tuple(b'jph ') + (0,) + tuple(b'jp2 jph '))],
    b'ihdr': [('>IIHBBBB', (5, 7, 1, 7, 7, 0, 0)), ('>IIHBBBB', (0x01020304, 0x05060708, 0x0203, 255, 7, 1, 1))],
    b'bpcc': [('>3B', (7, 135, 255))],
    b'colr': [('>BBBI', (1, 0, 0, 16)), ('>BBBHHHB', (5, 0, 0, 1, 1, 1, 128)), ('>BBBHHHB', (5, 0, 0, 0x0102, 0x0304, 0x0506, 127))],
    b'pclr': [('>HBBB4B', (2, 2, 7, 135, 1, 2, 3, 4)), ('>HBBHH', (2, 1, 9, 0x0102, 0x0304)),
              ('>HBBB3HH3H', (3, 2, 11, 15, 1, 2, 3, 4, 0x0506, 7, 8))],
    b'cmap': [('>HBBHBB', (0, 0, 0, 1, 1, 2)), ('>HBBHBBHBB', (0x0102, 1, 3, 0x0304, 0, 0, 5, 1, 255))],
    b'cdef': [('>HHHHHHH', (2, 0, 0, 1, 1, 1, 0)), ('>HHHHHHHHHH', (3, 0, 1, 0, 0x0102, 2, 3, 0x0304, 3, 0x0506))],
    b'resc': [('>HHHHbb', (300, 1, 600, 2, 2, -1)), ('>HHHHbb', (0x0102, 0x0304, 0x0506, 0x0708, 3, 4))],
    b'resd': [('>HHHHbb', (300, 1, 600, 2, 2, -1)), ('>HHHHbb', (0x0102, 0x0304, 0x0506, 0x0708, 3, 4))],
    b'ulst': [('>H16B', (1,) + tuple(uid())), ('>H32B', (2,) + tuple(uid()) + tuple(uid(3)))],
    b'url ': [('>B3B6B', (0, 0, 0, 0) + tuple(b'http:\0'))],
    'icc': [],
    b'\xff\x51': [('>HHIIIIIIIIHBBB', (41, 0, 7, 5, 0, 0, 7, 5, 0, 0, 1, 7, 1, 1)),
                  ('>HHIIIIIIIIHBBBBBB', (44, 0x4000, 0x0102, 0x0304, 1, 2, 3, 4, 5, 6, 2, 135, 1, 2, 8, 3, 4))],
    b'\xff\x52': [('>HBBHBBBBBB', (12, 0, 2, 1, 0, 1, 4, 4, 0, 1)),
                  ('>HBBHBBBBBBBBB', (15, 1, 2, 0x0102, 1, 2, 3, 4, 0x41, 0, 0x77, 0x88, 0x19)),
                  ('>HBBHBBBBBBB', (13, 7, 4, 3, 1, 0, 0, 8, 0xff, 1, 0))],
    b'\xff\x53': [('>HBBBBBBB', (9, 0, 0, 1, 4, 4, 0, 1)), ('>HBBBBBBBBB', (11, 3, 1, 1, 3, 5, 0x41, 0, 0x77, 0x19)),
                  ('>HHBBBBBBBB', (12, 0x0103, 1, 1, 3, 5, 0x22, 0, 0x77, 0x19))],
    b'\xff\x5e': [('>HBBB', (5, 0, 0, 5)), ('>HHBB', (6, 0x0102, 0, 9))],
    b'\xff\x5c': [('>HB4B', (7, 0x40, 0x40, 0x48, 0x48, 0x50)), ('>HBH', (5, 0x21, 0x6f12)),
                  ('>HBHHH', (11, 0x42, 0x6f12, 0x6710, 0x4f05)), ('>HB7B', (10, 0x60, 8, 9, 16, 24, 32, 40, 48))],
    b'\xff\x5d': [('>HBB4B', (8, 0, 0x40, 0x40, 0x48, 0x48, 0x50)), ('>HBBH', (6, 2, 0x21, 0x6f12)),
                  ('>HBBHHH', (12, 1, 0x42, 0x6f12, 0x6710, 0x4f05)), ('>HHB4B', (9, 0x0102, 0x40, 0x40, 0x48, 0x48, 0x50)),
                  ('>HHBHHH', (13, 0x0102, 0x42, 0x6f12, 0x6710, 0x4f05)), ('>HBB7B', (11, 0, 0x60, 8, 9, 16, 24, 32, 40, 48))],
    b'\xff\x5f': [('>HBBHBBB', (9, 0, 0, 1, 1, 1, 0)), ('>HBBHBBBBBHBBB', (16, 1, 2, 0x0103, 5, 6, 3, 2, 3, 0x0304, 6, 0, 4)),
                  ('>HBHHBHB', (11, 1, 0x0102, 0x0304, 4, 0x0105, 2))],
    b'\xff\x63': [('>HHH', (6, 1, 2)), ('>HHHHHHH', (14, 0x0102, 0x0304, 0x0506, 0x0708, 9, 10))],
    b'\xff\x64': [('>HH2B', (6, 1) + tuple(b'hi')), ('>HH3B', (7, 0, 0, 128, 255)), ('>HHB', (5, 1, 0x41))],
    b'\xff\x50': [('>HIH', (8, 1 << 17, 0x8023)), ('>HIHH', (10, (1 << 17) | (1 << 30), 0x0102, 0xC81F)),
                  ('>HIHHH', (12, (1 << 17) | (1 << 31) | 1, 1, 0x3805, 3))],
    b'\xff\x56': [('>HH', (4, 5)), ('>HHH', (6, 0x0102, 0x0304)), ('>HHHH', (8, 0, 1, 0))],
    b'\xff\x59': [('>HH', (4, 5)), ('>HHH', (6, 0x0102, 0x0304)), ('>HHHH', (8, 0, 1, 0))],
    'startOfTile': [('>HHIBB', (10, 0, 100, 0, 1)), ('>HHIBB', (10, 0x0102, 0x01020304, 3, 4))],
    b'\xff\x57': [('>HBB4B', (8, 0, 3, 0x0c, 0x9f, 0x62, 0x7c)), ('>HBB5B', (9, 5, 9, 0x81, 0x82, 0x83, 0x04, 0x05))],
    b'\xff\x58': [('>HB4B', (7, 0, 0x0c, 0x9f, 0x62, 0x7c)), ('>HB5B', (8, 5, 0x81, 0x82, 0x83, 0x04, 0x05))],
    b'\xff\x55': [('>HBBI', (8, 0, 64, 16))], b'\xff\x60': [('>HB3B', (6, 0, 97, 98, 99))],
    b'\xff\x61': [('>HB3B', (6, 0, 97, 98, 99))],
    b'jp2i': [('>4B', b'abcd')], b'zzzz': [('>4B', b'abcd')],
}
SEGMENTS = (b'\xff\x50', b'\xff\x51', b'\xff\x56', b'\xff\x52', b'\xff\x5c', b'\xff\x64', b'\xff\x53', b'\xff\x5e',
            b'\xff\x5d', b'\xff\x5f', b'\xff\x55', b'\xff\x57', b'\xff\x58', b'\xff\x59', b'\xff\x60', b'\xff\x61',
            b'\xff\x63', 'startOfTile')
COMPONENTS = (b'\xff\x53', b'\xff\x5e', b'\xff\x5d', b'\xff\x5f', b'\xff\x63')
SUPER = (b'jp2h', b'res ', b'uinf', 'JP2')


def unit_formats(key):
    if key in SEGMENTS or key in (b'jp2c', b'\xff\x90'):
        return ALLFMT
    if key == 'contiguousCodestreamBox':
        return ('j2c', 'jhc')
    return BOXFMT


def constants(*terms):
    """integer constants the summaries compare with, mask by or add"""
    out = set()
    for t in terms:
        for x in walk(t):
            for y in (x.a if x.op != 'c' else ()):
                if isinstance(y, T) and y.op == 'c' and type(cv(y)) is int:
                    out.add(cv(y))
                elif type(y) is int and x.op == 'sum':
                    out.add(abs(y))
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T) and z.op == 'c' and type(cv(z)) is int:
                            out.add(cv(z))
    return out


def texts(*terms):
    """byte string constants the summaries mention"""
    out = set()
    for t in terms:
        for x in walk(t):
            for y in x.a:
                for z in (y if isinstance(y, (tuple, frozenset)) else (y,)):
                    v = cv(z) if isinstance(z, T) and z.op == 'c' else z
                    if isinstance(v, bytes):
                        out.add(v)
    return out


def split(fmt):
    r = []
    n = ''
    for ch in fmt[1:]:
        if ch.isdigit():
            n += ch
        else:
            r += [ch] * int(n or 1)
            n = ''
    return r


SIZE = {'B': 1, 'b': 1, 'H': 2, 'I': 4, 'Q': 8}


def field_values(ch, consts, rich=True):
    if ch in 'Bb':
        lo = -128 if ch == 'b' else 0
        return list(range(lo, lo + 256))
    top = (1 << (8 * SIZE[ch])) - 1
    v = {0, 1, 2, 3, top, top - 1, 0x0102, 0x0100, 0x00ff, 0x8000, 0x7fff, 0x8001}
    for k in range(8 * SIZE[ch]):
        v.add(1 << k)
        v.add(top ^ (1 << k))
    for c in consts:
        for d in (-1, 0, 1):
            v.add(c + d)
    if ch == 'H':
        for k in range(16):
            v.update((k << 12 | 0x0fff, k << 8, k << 4, k, k << 8 | 0xff, 0x4000 | k, k << 12))
        for k in range(0, 64):
            v.add(k)
    return sorted(x for x in v if 0 <= x <= top)


def short_values(ch, base, consts):
    """few values for products of two fields"""
    if ch in 'Bb':
        lo, hi = (-128, 127) if ch == 'b' else (0, 255)
        v = {base, 0, 1, 2, hi, lo}
    else:
        hi = (1 << (8 * SIZE[ch])) - 1
        v = {base, 0, 1, 2, hi, 257}
        lo = 0
    for c in (base - 1, base + 1):
        if lo <= c <= hi:
            v.add(c)
    return sorted(v)


def clip(key, b):
    """contents of a marker segment are cut at the length its first field gives"""
    if key in SEGMENTS and len(b) >= 2:
        n = struct.unpack('>H', b[:2])[0]
        return b[:n]
    return b


def contents(key, consts, deep=False):
    """byte strings naming regions of a leaf unit"""
    seen = set()

    def emit(b):
        b = clip(key, b)
        if b not in seen:
            seen.add(b)
            return [b]
        return []
    for fmt, vals in LAYOUT.get(key, [('>4B', b'abcd')]):
        vals = tuple(vals)
        chars = split(fmt)
        full = struct.pack(fmt, *vals)
        for b in emit(full):
            yield b
        for i, ch in enumerate(chars):
            for v in field_values(ch, consts):
                w = vals[:i] + (v,) + vals[i + 1:]
                for b in emit(struct.pack(fmt, *w)):
                    yield b
        for n in range(len(full) + 1):
            for b in emit(full[:n]):
                yield b
        for extra in (b'\0', b'\xff', b'\x01\x02', b'\0\0\0', b'\xff' * 4, b'a' * 8, b'z' * 16):
            for b in emit(full + extra):
                yield b
        if key in SEGMENTS:
            # longer segments with a consistent length field
            for extra in range(1, 40):
                p = (full + bytes((k * 37 + 11) & 255 for k in range(extra)))
                for b in emit(struct.pack('>H', len(p)) + p[2:]):
                    yield b
    for b in EXTRA.get(key, lambda: ())():
        for x in emit(b):
            yield x
    for fmt, vals in LAYOUT.get(key, []):
        vals = tuple(vals)
        chars = split(fmt)
        pairs = list(itertools.combinations(range(len(chars)), 2))
        for i, j in pairs:
            a = short_values(chars[i], vals[i], consts)
            c = short_values(chars[j], vals[j], consts)
            if deep:
                a = field_values(chars[i], consts)[::3] + a if SIZE[chars[i]] > 1 else a + list(range(0, 128, 5))
                c = field_values(chars[j], consts)[::3] + c if SIZE[chars[j]] > 1 else c + list(range(0, 128, 5))
            for x in a:
                for y in c:
                    w = list(vals)
                    w[i] = x
                    w[j] = y
                    for b in emit(struct.pack(fmt, *w)):
                        yield b
                        if len(b) > 2:
                            for b2 in emit(b[:-1]):
                                yield b2


# ------------------------------------------------------------ special contents
def _ftyp():
    for n in range(0, 6):
        for tail in (b'', b'x', b'xy', b'xyz'):
            for pos in range(max(n, 1)):
                for brand in (b'jp2 ', b'jph '):
                    items = [b'jpx ', b'abcd', b'jpm ', b'mjp2', b'JP2 '][:n]
                    yield brand + b'\0\0\0\0' + b''.join(items) + tail
                    if n:
                        items[pos] = brand
                        yield brand + b'\0\0\0\0' + b''.join(items) + tail
    for b in (b'JP2 ', b'jp2\0', b'jph2', b'jpx ', b'jp  ', b'jph ', b'jp2 '):
        yield b + b'\0\0\0\0' + b
        yield b + b'\0\0\0\x01' + b'jp2 '
        yield b + b'\0\0\0\0jp2 jph '


def _colr():
    for m in (2, 3):
        for b in _icc(short=True):
            yield bytes([m, 0, 0]) + b
        for n in (0, 1, 4, 16, 127, 128, 131, 132, 140):
            yield bytes([m, 0, 0]) + icc()[:n]
    for m in range(0, 8):
        for n in range(0, 9):
            yield bytes([m, 0, 0]) + (b'\0\0\0\x10\0\0\0\0\0')[:n]
    for cs in list(range(0, 40)) + [16 << 8, 16 << 24, 17 << 8, 0x110000, 2**31, 2**32 - 1]:
        yield colr(rest=struct.pack('>I', cs))
    for v in range(0, 40):
        yield colr(5, rest=struct.pack('>HHHB', v, 1, 1, 128))
        yield colr(5, rest=struct.pack('>HHHB', 1, v, 1, 0))
        yield colr(5, rest=struct.pack('>HHHB', 1, 1, v, 255))
        yield colr(5, rest=struct.pack('>HHHB', v, v, v, 64))


def _icc(short=False):
    yield icc()
    for c in (b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', b'SCNR', b'\0\0\0\0', b'scn\0'):
        yield icc(cls=c)
    for t in ((), (b'A2B0',), (b'desc', b'A2B0'), (b'A2B0', b'desc'), (b'wtpt', b'A2B1', b'desc'), (b'wtpt', b'wtpt'),
              (b'wtpt', b'bkpt', b'A2B0'), (b'desc', b'desc'), (b'A2B\0', b'desc'), (b'a2b0',), (b'B2A0',)):
        yield icc(tags=t)
    n = len(icc())
    for s in (0, n - 1, n, n + 1, n + 3, 128, 2**32 - 1, n - 128):
        yield icc(size=s)
    for c in (0, 1, 3, 4096, 4097, 2**32 - 1):
        if c < 100 or not short:
            yield icc(count=c)
    if not short:
        for d in (b'', b'a', b'ab', b'x' * 30, b'\xe9\0\x01', b'a\0b'):
            yield icc(desc=d)
            for k in (0, 1, 2, 5, 200, 2**31, 2**32 - 1):
                yield icc(desc=d, desclen=k)
        full = icc()
        for k in range(0, len(full) + 1):
            yield full[:k]
        for i in range(0, 132):
            for v in (0, 1, 2, 3, 4, 8, 15, 16, 32, 64, 127, 128, 129, 240, 255):
                b = bytearray(full)
                b[i] = v
                yield bytes(b)
        for i in (8, 9, 27, 29, 31, 33, 35, 44, 56):
            for v in range(256):
                b = bytearray(full)
                b[i] = v
                yield bytes(b)
        for i in range(132, len(full)):
            for v in (0, 1, 12, 128, 255):
                b = bytearray(full)
                b[i] = v
                yield bytes(b)


def _pclr():
    for ne in (0, 1, 2, 3):
        for npc in (0, 1, 2, 3):
            for d in (0, 6, 7, 8, 15, 16, 23, 31, 37, 38, 63, 127, 128, 135, 136, 165, 166, 255):
                size = ((d & 127) // 8) + 1
                data = bytes((k * 29 + 5) & 255 for k in range(ne * npc * size))
                for cut in (0, 1, size):
                    yield struct.pack('>HB', ne, npc) + bytes([d] * npc) + data[:max(0, len(data) - cut)]
    for ds in ((7, 15), (15, 7), (0, 23, 7), (37, 1, 9)):
        for ne in (1, 2, 3):
            data = bytes((k * 31 + 7) & 255 for k in range(60))
            yield struct.pack('>HB', ne, len(ds)) + bytes(ds) + data
    for ne in (1024, 1025):
        yield struct.pack('>HBB', ne, 0, 7)


def _cdef():
    for n in range(0, 5):
        for types in itertools.product((0, 1, 2, 3, 65535), repeat=min(n, 3)):
            for assoc in itertools.product((0, 1, 65535), repeat=min(n, 2)):
                p = b''
                for i in range(n):
                    p += struct.pack('>HHH', i, types[i] if i < 3 else 0, assoc[i] if i < 2 else i)
                yield struct.pack('>H', n) + p
    for n in (1, 2):
        for k in range(0, 6 * n + 8):
            yield struct.pack('>H', n) + (struct.pack('>HHH', 0, 0, 1) * 3)[:k]


def _cmap():
    for n in range(0, 4):
        for tail in (b'', b'\0', b'\0\1', b'\0\1\1'):
            for m in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 7), (1, 255), (0, 255)):
                yield struct.pack('>HBB', 3, m[0], m[1]) * n + tail
    for c in (16383, 16384, 16385, 32768, 65535):
        yield struct.pack('>HBB', c, 0, 0)


XMLS = (b'<a/>', b'<a><b c="d">t</b></a>', b'<a>', b'', b'x', b'\0', b'<a/>\0', b'<a/>\0\0', b'<a>\0</a>', b'\0<a/>',
        b'<a/>x', b'<a/>\0x', b'<?xml version="1.0"?><r>\xc3\xa9</r>', b'<r>\xe9</r>', b'\xef\xbb\xbf<a/>', b' <a/>',
        b'<a/> ', b'<a/>\n\0', b'<a>&amp;</a>', b'<a>&foo;</a>', b'\xff\xfe<\0a\0/\0>\0', b'<a><b></a>', b'<a b="1" b="2"/>',
        b'<x:a xmlns:x="u"/>', b'<x:a/>', b'<a/><b/>', b'\0\0', b'<a>\x01</a>', b'<siz><rsiz>1</rsiz></siz>')


def _xml():
    return XMLS


def _uuid():
    for x in XMLS:
        yield XMP + x
        yield uid() + x
    for i in range(16):
        b = bytearray(XMP)
        b[i] ^= 1
        yield bytes(b) + b'<a/>'
    for n in range(0, 20):
        yield (XMP + b'<a/>')[:n]
        yield (uid() + b'data')[:n]


def _ulst():
    for n in range(0, 4):
        for m in range(0, 4):
            for tail in (b'', b'\0', b'\0' * 15):
                yield struct.pack('>H', n) + b''.join(uid(i) for i in range(m)) + tail
    yield struct.pack('>H', 65535) + uid()
    yield struct.pack('>H', 256) + uid()


def _url():
    for v in (0, 1, 128, 255):
        for f in (b'\0\0\0', b'\0\0\1', b'\0\1\0', b'\1\0\0', b'\xff\xff\xff'):
            for u in (b'http://x\0', b'http://x', b'', b'\0', b'\0\0', b'a\0b\0', b'\xc3\xa9\0', b'\xe9\0', b'\xff', b'a\0\0\0',
                      b'\0a', b'\xe2\x82\xac', b'\xe2\x82', b'tab\there\0'):
                yield bytes([v]) + f + u


def _bpcc():
    for n in range(0, 5):
        yield bytes([7] * n)
    for v in range(256):
        yield bytes([v])
        yield bytes([7, v])


def _com():
    texts = [b'', b'a', b'hello', b'\xa4', b'a\nb', b'\t', b'\r', b'\x00', b'a\x00', b'\x1f', b'\x7f', b'\x80', b'\x9f',
             b'\xa0', b'\xad', b'\xff', b'\x0b', b'a\x0cb', b'\xe9t\xe9', bytes(range(32, 127))]
    for r in (0, 1, 2, 256, 257, 65535):
        for t in texts:
            yield struct.pack('>HH', 4 + len(t), r) + t
            yield struct.pack('>HH', 9 + len(t), r) + t
    for v in range(256):
        yield struct.pack('>HH', 5, 1) + bytes([v])
        yield struct.pack('>HH', 6, 1) + bytes([65, v])


def _ipl(head):
    def f():
        for body in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff), repeat=3):
            yield struct.pack('>H', 2 + len(head) + 3) + head + bytes(body)
        for body in itertools.product((0x05, 0x7f, 0x80, 0xff), repeat=4):
            yield struct.pack('>H', 2 + len(head) + 4) + head + bytes(body)
            yield struct.pack('>H', 2 + len(head) + 9) + head + bytes(body)
        for n in range(0, 3):
            for body in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff), repeat=n):
                yield struct.pack('>H', 2 + len(head) + n) + head + bytes(body)
        for n in range(0, 14):
            yield struct.pack('>H', 2 + len(head) + n) + head + bytes([0x81] * n)
            yield struct.pack('>H', 2 + len(head) + n + 1) + head + bytes([0x81] * n + [1])
    return f


def _siz():
    for n in (0, 1, 2, 3, 4, 5):
        for d in (0, 7, 37, 38, 127, 128, 135, 165, 166, 255):
            for x, y in ((1, 1), (0, 1), (1, 0), (2, 255), (255, 2), (0, 0)):
                p = siz(comps=((d, x, y),) + ((7, 1, 2),) * max(0, n - 1) if n else ())[2:]
                yield p
                if n:
                    yield p[:-1]
                    yield struct.pack('>H', len(p) + 3) + p[2:]
    for r in range(0, 65536, 1):
        if r & 0xf000 in (0, 0x4000, 0x8000, 0xc000) and (r & 0x0f in (0, 1, 7, 8, 9, 15)) and (r >> 4 & 15) in (0, 1, 8, 15):
            yield siz(rsiz=r)[2:]
    for r in range(0x1000):
        yield siz(rsiz=r)[2:]
    for k in range(16):
        yield siz(rsiz=k << 12)[2:]
        yield siz(rsiz=k << 12 | 0xfff)[2:]
    big = 2 ** 32 - 1
    for x, xt, xto in itertools.product((0, 1, 5, 7, 8, 9, 14, 15, 100, big), (0, 1, 3, 7, 8, 14, big), (0, 1, 7, 8, big - 1, big)):
        yield siz(x=x, xt=xt, xto=xto)[2:]
        yield siz(y=x, yt=xt, yto=xto)[2:]
    for x, y in itertools.product((1, 6, 7, 8, 15), repeat=2):
        for xt, yt in itertools.product((1, 3, 7), repeat=2):
            for xo, yo, xto, yto in ((0, 0, 0, 0), (1, 2, 0, 0), (0, 0, 1, 2), (3, 1, 2, 1)):
                yield siz(x=x, y=y, xt=xt, yt=yt, xo=xo, yo=yo, xto=xto, yto=yto)[2:]


def _cod():
    for s in range(0, 8):
        for lv in (0, 1, 2, 5, 31, 32, 33, 34, 255):
            for extra in (-1, 0, 1):
                n = max(0, lv + 1 + extra)
                if n > 40:
                    n = 3
                pp = bytes((0x77, 0x08, 0x80, 0x10, 0x01, 0x00)[k % 6] for k in range(n))
                for style in (0, 0x40, 0x41, 0x80, 0xc0, 0x3f, 0x7f):
                    body = struct.pack('>BBHBBBBBB', s, 2, 1, 0, lv, 4, 4, style, 1) + (pp if s & 1 else b'')
                    yield struct.pack('>H', len(body) + 2) + body
    for a in range(0, 12):
        for b in range(0, 12):
            body = struct.pack('>BBHBBBBBB', 0, 2, 1, 0, 1, a, b, 0, 1)
            yield struct.pack('>H', len(body) + 2) + body
    for i in range(0, 3):
        for v in range(256):
            pp = [0x88, 0x88, 0x88]
            pp[i] = v
            body = struct.pack('>BBHBBBBBB', 1, 2, 1, 0, 2, 4, 4, 0, 1) + bytes(pp)
            yield struct.pack('>H', len(body) + 2) + body


def _coc():
    for wide in (0, 1):
        c = b'\x01\x02' if wide else b'\x05'
        for s in (0, 1, 2, 3, 255):
            for lv in (0, 1, 2, 31, 32, 33, 255):
                for extra in (-1, 0, 1):
                    n = max(0, lv + 1 + extra)
                    if n > 40:
                        n = 3
                    pp = bytes((0x77, 0x08, 0x80, 0x10, 0x01, 0x00)[k % 6] for k in range(n))
                    for style in (0, 0x40, 0x7f, 0x3f):
                        body = c + bytes([s, lv, 4, 4, style, 1]) + (pp if s & 1 else b'')
                        yield struct.pack('>H', len(body) + 2) + body
        for a in range(0, 12):
            for b in range(0, 12):
                body = c + bytes([0, 1, a, b, 0, 1])
                yield struct.pack('>H', len(body) + 2) + body
        for i in range(0, 3):
            for v in range(256):
                pp = [0x88, 0x88, 0x88]
                pp[i] = v
                body = c + bytes([1, 2, 4, 4, 0, 1]) + bytes(pp)
                yield struct.pack('>H', len(body) + 2) + body


def _quant(heads):
    def f():
        for head in heads:
            for s in list(range(0, 4)) + [0x20, 0x41, 0x62, 0xe0, 0xff]:
                for n in range(0, 30):
                    body = head + bytes([s]) + bytes((k * 53 + 17) & 255 for k in range(n))
                    yield struct.pack('>H', len(body) + 2) + body
                    if n % 5 == 0:
                        yield struct.pack('>H', len(body) + 8) + body
    return f


def _poc():
    for n in range(0, 4):
        for it in (bytes([0, 0, 0, 1, 1, 1, 0]), bytes([32, 0, 255, 255, 33, 0, 4]), bytes([31, 5, 0, 0, 31, 5, 5]),
                   bytes([5, 7, 1, 2, 6, 8, 3]), bytes([0, 1, 2, 0, 1, 3, 0, 2, 1])):
            body = it * n
            for t in (b'', b'\0', b'abc'):
                yield struct.pack('>H', len(body + t) + 2) + body + t
    for rs in (0, 1, 31, 32, 33, 255):
        for re in (0, 1, 2, 31, 32, 33, 34, 255):
            yield struct.pack('>H', 9) + bytes([rs, 0, 0, 1, re, 1, 0])
    for cs in (0, 1, 2, 253, 254, 255):
        for ce in (0, 1, 2, 3, 254, 255):
            yield struct.pack('>H', 9) + bytes([0, cs, 0, 1, 1, ce, 0])
    for cs in (0, 1, 255, 256, 16382, 16383, 16384, 65535):
        for ce in (0, 1, 2, 256, 257, 16383, 16384, 16385, 65535):
            yield struct.pack('>HBHHBHB', 11, 0, cs, 1, 1, ce, 0)


def _cap():
    for bits in itertools.combinations((0, 1, 14, 13, 15, 16, 31), 2):
        p = 0
        for k in bits:
            p |= 1 << (31 - k)
        for n in range(0, 4):
            body = struct.pack('>I', p) + b''.join(struct.pack('>H', v) for v in (0x0005, 0xC83F, 0x3020)[:n])
            yield struct.pack('>H', len(body) + 2) + body
    for k in range(32):
        yield struct.pack('>HIH', 8, 1 << k, 0x1234)
    for v in range(0, 32):
        yield struct.pack('>HIH', 8, 1 << 17, v)
    for k in range(16):
        yield struct.pack('>HIH', 8, 1 << 17, 1 << k)
    for p in (0, 2 ** 32 - 1, 0x00030000, 0x00028000, 0x80020000):
        for n in range(0, 34, 1 if p == 2 ** 32 - 1 else 7):
            body = struct.pack('>I', p) + b''.join(struct.pack('>H', (v * 4369 + 77) & 65535) for v in range(n))
            yield struct.pack('>H', len(body) + 2) + body


def _prf():
    for n in range(0, 5):
        for v in itertools.product((0, 1, 0x0102, 65535), repeat=n):
            body = b''.join(struct.pack('>H', x) for x in v)
            yield struct.pack('>H', len(body) + 2) + body
            yield struct.pack('>H', len(body) + 3) + body + b'\7'
            yield struct.pack('>H', len(body) + 4) + body


def _crg():
    for n in range(0, 5):
        body = bytes((k * 7 + 1) & 255 for k in range(4 * n))
        yield struct.pack('>H', len(body) + 2) + body
        if body:
            yield struct.pack('>H', len(body) + 2) + body[:-1]
            yield struct.pack('>H', len(body) + 2) + body[:-2]


EXTRA = {b'ftyp': _ftyp, b'colr': _colr, 'icc': _icc, b'pclr': _pclr, b'cdef': _cdef, b'cmap': _cmap, b'xml ': _xml,
         b'uuid': _uuid, b'ulst': _ulst, b'url ': _url, b'bpcc': _bpcc, b'\xff\x64': _com, b'\xff\x57': _ipl(b'\0\x05'),
         b'\xff\x58': _ipl(b'\0'), b'\xff\x51': _siz, b'\xff\x52': _cod, b'\xff\x53': _coc, b'\xff\x5c': _quant((b'',)),
         b'\xff\x5d': _quant((b'\0', b'\x01\x02')), b'\xff\x5f': _poc, b'\xff\x50': _cap, b'\xff\x56': _prf,
         b'\xff\x59': _prf, b'\xff\x63': _crg}


# ------------------------------------------------------------ container regions
def jp2h_payloads():
    ih255 = struct.pack('>IIHBBBB', 5, 7, 2, 255, 7, 1, 0)
    ihunk = struct.pack('>IIHBBBB', 5, 7, 1, 7, 7, 1, 0)
    ihipr = struct.pack('>IIHBBBB', 5, 7, 1, 7, 7, 0, 1)
    A = {'i': box(b'ihdr', IHDR), 'v': box(b'ihdr', ih255), 'u': box(b'ihdr', ihunk), 'b': box(b'bpcc', b'\7\7'),
         'c': box(b'colr', colr()), 'p': box(b'pclr', b'\0\1\1\7\5'), 'm': box(b'cmap', b'\0\0\1\0'),
         'd': box(b'cdef', struct.pack('>HHHH', 1, 0, 0, 1)), 'e': box(b'cdef', struct.pack('>HHHH', 1, 0, 1, 0)),
         'r': box(b'res ', box(b'resc', struct.pack('>HHHHbb', 300, 1, 300, 1, 2, 2))), 'x': box(b'abcd', b'??'),
         'q': box(b'ihdr', ihipr), 'w': box(b'ihdr', struct.pack('>IIHBBBB', 5, 7, 2, 127, 7, 0, 0)),
         's': box(b'ihdr', struct.pack('>IIHBBBB', 5, 7, 2, 135, 7, 0, 0)), 't': box(b'ihdr', IHDR[:10])}
    return A


def seqs(alpha, n):
    for k in range(n + 1):
        for s in itertools.product(alpha, repeat=k):
            yield s


def framing(pieces, kinds):
    """box length encodings: XL, to-end, short, too long, cut"""
    base = b''.join(pieces)
    yield base
    for n in range(0, len(base) + 1):
        yield base[:n]
    for i in range(len(pieces)):
        pre = b''.join(pieces[:i])
        post = b''.join(pieces[i + 1:])
        kind, pay = pieces[i][4:8], pieces[i][8:]
        yield pre + xlbox(kind, pay) + post
        yield pre + struct.pack('>I', 0) + kind + pay
        yield pre + struct.pack('>I', 0) + kind + pay + post
        yield pre + struct.pack('>I', 1) + kind + struct.pack('>Q', 0) + pay + post
        for L in (1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, len(pay) + 7, len(pay) + 9, len(pay) + 100, 2 ** 31, 2 ** 32 - 1):
            yield pre + struct.pack('>I', L) + kind + pay + post
        for L in (1, 7, 8, 15, 16, 17, len(pay) + 15, len(pay) + 17, 2 ** 32, 2 ** 40, 2 ** 63, 2 ** 64 - 1):
            yield pre + struct.pack('>I', 1) + kind + struct.pack('>Q', L) + pay + post
        for k in kinds:
            yield pre + box(k, pay) + post


def container(key, deep=False):
    if key == b'jp2h':
        A = jp2h_payloads()
        for s in seqs('ivubcpmderxwst', 2):
            yield b''.join(A[c] for c in s)
        for s in seqs('icpmxb', 4 if deep else 3):
            yield b''.join(A[c] for c in s)
        for s in seqs('crx', 4):
            yield b''.join([A['i']] + [A[c] for c in s])
        for s in seqs('vubde', 3):
            yield b''.join(A[c] for c in s)
        for b in framing([A['i'], A['c'], A['x']], (b'ihdr', b'zzzz', b'colr', b'jP  ', b'\0\0\0\0')):
            yield b
    elif key == b'res ':
        c = box(b'resc', struct.pack('>HHHHbb', 300, 1, 300, 1, 2, 2))
        d = box(b'resd', struct.pack('>HHHHbb', 72, 1, 72, 1, 0, 0))
        x = box(b'abcd', b'?')
        e = box(b'resc', b'\0')
        A = {'c': c, 'd': d, 'x': x, 'e': e}
        for s in seqs('cdxe', 5 if deep else 4):
            yield b''.join(A[k] for k in s)
        for b in framing([c, d, x], (b'resc', b'resd', b'zzzz')):
            yield b
    elif key == b'uinf':
        u = box(b'ulst', b'\0\1' + uid())
        l = box(b'url ', b'\0\0\0\0http\0')
        x = box(b'abcd', b'?')
        A = {'u': u, 'l': l, 'x': x}
        for s in seqs('ulx', 5 if deep else 4):
            yield b''.join(A[k] for k in s)
        for b in framing([u, l, x], (b'ulst', b'url ', b'zzzz')):
            yield b
    elif key == 'JP2':
        for b in jp2_files(deep):
            yield b


def jp2_files(deep=False):
    H = jp2h_payloads()
    sg, ft = box(b'jP  ', SIG), box(b'ftyp', FTYP)
    h = box(b'jp2h', H['i'] + H['c'])
    c = box(b'jp2c', CS)
    A = {'s': sg, 'f': ft, 'h': h, 'c': c, 'p': box(b'jp2i', b'x'), 'x': box(b'abcd', b'?'),
         'q': box(b'jp2h', H['q'] + H['c']), 'u': box(b'uuid', uid() + b'd'), 'l': box(b'xml ', b'<a/>')}
    for s in seqs('sfhcx', 5 if deep else 4):
        yield b''.join(A[k] for k in s)
    for s in seqs('fhcsx', 3):
        yield b''.join([A['s'], A['f']] + [A[k] for k in s])
    for s in seqs('qpcuxl', 3):
        yield b''.join([A['s'], A['f']] + [A[k] for k in s])
    for b in framing([sg, ft, h, c], (b'zzzz', b'jP  ', b'jp2h', b'jp2c', b'ftyp', b'xml ', b'uuid', b'uinf', b'\0\0\0\0')):
        yield b

    def file(ih, cs, bp=None, more=b''):
        return sg + ft + box(b'jp2h', box(b'ihdr', ih) + (box(b'bpcc', bp) if bp is not None else b'') + H['c'] + more) + box(b'jp2c', cs)
    for hh, ww in itertools.product((0, 1, 3, 4, 5, 6, 7, 8, 2 ** 32 - 1), repeat=2):
        yield file(struct.pack('>IIHBBBB', hh, ww, 1, 7, 7, 0, 0), CS)
    for x, y, xo, yo in itertools.product((7, 9), (5, 8), (0, 1, 2), (0, 1, 2)):
        cs = stream(sz=siz(x=x, y=y, xo=xo, yo=yo, xt=20, yt=20))
        yield file(IHDR, cs)
        yield file(struct.pack('>IIHBBBB', y - yo, x - xo, 1, 7, 7, 0, 0), cs)
        yield file(struct.pack('>IIHBBBB', x - xo, y - yo, 1, 7, 7, 0, 0), cs)
    for nc in (0, 1, 2, 3, 4):
        for comps in ((), (7,), (7, 7), (7, 7, 7), (7, 8), (7, 135), (8, 7, 7), (7, 7, 8), (135, 135), (254, 254, 254)):
            cs = stream(sz=siz(comps=tuple((d, 1, 1) for d in comps)))
            for bpc in (7, 8, 135, 127, 128, 254, 255):
                ih = struct.pack('>IIHBBBB', 5, 7, nc, bpc, 7, 0, 0)
                yield file(ih, cs)
                if bpc in (7, 255, 254):
                    for bp in (b'', b'\7', b'\7\7', b'\7\x08', b'\7\x87', b'\x08\7\7', b'\7\7\7', b'\x87\x87'):
                        yield file(ih, cs, bp)
    # two header boxes / codestreams: the first counts
    cs2 = stream(sz=siz(x=9, y=9, xt=9, yt=9))
    yield sg + ft + h + box(b'jp2c', CS) + box(b'jp2c', cs2)
    yield sg + ft + h + box(b'jp2c', cs2) + box(b'jp2c', CS)
    yield sg + ft + box(b'jp2h', H['v'] + H['i'] + H['c']) + c
    yield sg + ft + box(b'jp2h', H['i'] + H['v'] + H['b'] + H['c']) + c
    yield sg + ft + h + box(b'jp2h', H['q']) + c
    for z in (b'\xff\x51', b'\xff\x90', b'\xff'):
        yield sg + ft + h + c + b'\0\0\0\0' + z


def codestreams(deep=False):
    yield CS
    names = sorted(SEGS)
    for s in names:
        main = SEGS[s]
        yield stream(main=COD + QCD + main)
        yield stream(main=main)
        yield stream(parts=sot(header=main))
    # component count reaches the segments that need it
    for n in (1, 2, 256, 257, 300):
        z = siz(comps=((7, 1, 1),) * n)
        for s in ('coc', 'qcc', 'rgn', 'poc', 'crg'):
            wide = seg(SEGS[s][:2], b'\x01\x02' + SEGS[s][5:] + b'\0')
            yield stream(sz=z, main=COD + QCD + SEGS[s] + wide)
            yield stream(sz=z, parts=sot(header=SEGS[s] + wide))
    for s in names:
        for t in (None,) + tuple(names):
            main = SEGS[s] + (SEGS[t] if t else b'')
            yield stream(main=COD + QCD + main)
            if t is None:
                yield stream(main=main + COD + QCD)
                yield stream(main=COD + main)
                yield stream(main=main + QCD)
                for tp in (0, 1, 255):
                    yield stream(parts=sot(header=main, tpsot=tp))
    # repeated component-specific segments
    for a in itertools.product(('coc', 'coc1', 'qcc', 'qcc1'), repeat=3):
        yield stream(main=COD + QCD + b''.join(SEGS[k] for k in a), sz=siz(comps=((7, 1, 1),) * 2))
        yield stream(parts=sot(header=b''.join(SEGS[k] for k in a)), sz=siz(comps=((7, 1, 1),) * 2))
    # capability bits
    for r in (0, 0x4000, 0x8000, 0xc000, 0x5000, 0x1000, 0x2000, 0x4fff, 0xffff):
        for m in (COD + QCD, CAP + COD + QCD, COD + QCD + CAP):
            yield stream(sz=siz(rsiz=r), main=m)
    # SOC / SIZ / EOC
    for soc in (b'\xff\x4f', b'\xff\x51', b'\0\0', b'\xff\x4e', b'', b'\xff'):
        for z in (siz(), COD + siz(), siz(comps=()), b'', b'\xff\x51', b'\xff\x51\0\0', b'\xff\x51\0\2'):
            for e in (EOC, b'', b'\xff\xd8', EOC + b'\0', b'\0' + EOC, EOC + EOC):
                yield soc + z + COD + QCD + sot() + e
    # SIZ offsets / depths for the compression ratio
    for xo, yo in itertools.product((0, 1, 2, 3), repeat=2):
        for d in (0, 7, 11, 135):
            yield stream(sz=siz(x=9, y=8, xo=xo, yo=yo, xt=20, yt=20, comps=((d, 1, 1), (7, 2, 1))))
    # tiles and tile-parts
    g2 = siz(x=14, y=5)
    g4 = siz(x=14, y=10)
    g0 = siz(xt=0)
    gbig = siz(x=2 ** 32 - 1, y=2 ** 32 - 1, xt=1, yt=1)
    for idx in itertools.chain.from_iterable(itertools.product((0, 1, 2), repeat=k) for k in (0, 1, 2, 3)):
        for tn in (0, 1, 2):
            parts = b''.join(sot(isot=i, tpsot=sum(1 for x in idx[:k] if x == i), tnsot=tn) for k, i in enumerate(idx))
            for z in ((g2, siz(), g0) if len(idx) < 3 else (g2,)):
                yield stream(sz=z, parts=parts)
    for tns in itertools.product((0, 1, 2, 3), repeat=3):
        yield stream(sz=g2, parts=sot(0, tnsot=tns[0]) + sot(0, tpsot=1, tnsot=tns[1]) + sot(1, tnsot=tns[2]))
    yield stream(sz=g4, parts=b''.join(sot(i) for i in range(4)))
    yield stream(sz=g4, parts=b''.join(sot(i) for i in (3, 1, 0, 2)))
    yield stream(sz=g4, parts=b''.join(sot(i) for i in range(3)))
    yield stream(sz=gbig, parts=sot())
    for ps in (0, 1, 2, 11, 12, 13, 14, 15, 16, 17, 18, 19, 40, 10000, 2 ** 31, 2 ** 32 - 1):
        yield stream(parts=sot(psot=ps))
        yield stream(sz=g2, parts=sot(0) + sot(1, psot=ps))
        yield stream(sz=g2, parts=sot(0, psot=ps) + sot(1))
        for tail in (b'', b'\xff', b'\xff\x90', b'\0\0'):
            yield stream(parts=sot(psot=ps), eoc=tail)
    for isot in (0, 1, 255, 256, 65534, 65535):
        yield stream(parts=sot(isot))
        yield stream(sz=g2, parts=sot(0) + sot(isot))
    for tn in (0, 1, 2, 254, 255):
        for tp in (0, 1, 254, 255):
            yield stream(parts=sot(tpsot=tp, tnsot=tn))
    for lsot in (0, 1, 2, 9, 10, 11, 12, 14, 60000):
        yield stream(parts=sot(lsot=lsot))
    # header loops: missing SOD, cut segments, zero lengths
    for s in names:
        for sod in (b'', SOD, b'\xff\x92'):
            yield stream(parts=sot(header=SEGS[s], sod=sod))
    full = stream(sz=g2, main=COD + COC + QCD + QCC + PLM + COM, parts=sot(0, header=PLT + COD) + sot(1, header=QCC))
    for n in range(0, len(full) + 1):
        yield full[:n]
    for i in range(0, len(full)):
        for v in (0, 1, 0x90, 0xff, 0x93):
            b = bytearray(full)
            b[i] = v
            yield bytes(b)
    # a tile-part whose own length cannot be read, far into the stream
    yield stream(main=COD + QCD + seg(b'\xff\x64', b'\0\0' + b'c' * 10100), parts=b'\xff\x90\0\x0a\0\0', eoc=b'')
    if deep:
        for s in itertools.product(names, repeat=2):
            yield stream(parts=sot(header=SEGS[s[0]] + SEGS[s[1]]))
            yield stream(main=SEGS[s[0]] + COD + SEGS[s[1]] + QCD)


def tileparts(deep=False):
    """(contents, start offset, components)"""
    names = sorted(SEGS)
    pre = b'\xff\x4f' + siz()
    for s in names:
        for t in (None,) + tuple(names):
            hd = SEGS[s] + (SEGS[t] if t else b'')
            for tp in (0, 1) if t else (0, 1, 2, 255):
                b = pre + sot(header=hd, tpsot=tp) + EOC
                yield b, len(pre), 1
    for n in (1, 3, 256, 257, 16384, 0, -9999):
        for s in ('coc', 'qcc', 'rgn', 'poc'):
            wide = seg(SEGS[s][:2], b'\x01\x02' + SEGS[s][5:] + b'\0')
            yield pre + sot(header=SEGS[s] + wide) + EOC, len(pre), n
    for a in itertools.product(('coc', 'coc1', 'qcc', 'qcc1'), repeat=3):
        yield pre + sot(header=b''.join(SEGS[k] for k in a)) + EOC, len(pre), 2
    base = sot(header=COD + PLT)
    for ps in (0, 1, 2, 11, 12, 13, 14, 15, len(base) - 1, len(base), len(base) + 1, len(base) + 2, 2 ** 32 - 1):
        for tail in (EOC, sot(1), b'', b'\xff', b'\0\0', b'\0' + EOC):
            b = bytearray(base)
            b[6:10] = struct.pack('>I', ps)
            yield pre + bytes(b) + tail, len(pre), 1
    for s in names:
        for sod in (b'', b'\xff\x92'):
            yield pre + sot(header=SEGS[s], sod=sod) + EOC, len(pre), 1
    for lsot in (0, 1, 2, 9, 10, 11, 12, 14, 60000):
        yield pre + sot(lsot=lsot) + EOC, len(pre), 1
    full = pre + sot(header=COD + QCC + PLT, tpsot=1) + EOC
    for n in range(len(pre) + 2, len(full)):
        yield full[:n], len(pre), 1
    for i in range(len(pre) + 2, len(full)):
        for v in (0, 1, 2, 0x93, 0xff):
            b = bytearray(full)
            b[i] = v
            yield bytes(b), len(pre), 1


def option_sets(key, first):
    """options under which a region is examined; the first region of a unit gets all of them"""
    fm = unit_formats(key)
    nx = (False, True) if key in (b'xml ', b'uuid') else (False,)
    pms = (False, True) if key in (b'\xff\x90', b'jp2c', 'contiguousCodestreamBox') else (False,)
    for f in fm:
        for v in (True, False):
            for n in nx:
                for p in pms:
                    yield opts(f, v, n, p)


def spread(it, first):
    """the distinct items: the first ones as they come, the others in an order that soon meets every kind of them"""
    items = list(dict.fromkeys(it))
    for x in items[:first]:
        yield x
    rest = items[first:]
    n = len(rest)
    step = max(1, int(n * 0.6180339887))
    while n and gcd(step, n) != 1:
        step += 1
    for i in range(n):
        yield rest[i * step % n]


def counted(key, odd):
    """inputs with as many parts, or as many bytes, as the constants only the source mentions; markers only it mentions"""
    marks = sorted(x for x in odd if isinstance(x, bytes) and len(x) == 2)[:8]
    odd = sorted(set(abs(x) for x in odd if isinstance(x, int)))
    few = [k for k in odd if 2 < k <= 1100][:4]
    few += [k for k in (9, 17, 40) if k not in few]
    wide = [k for k in odd if 8 < k <= 70000][:4]
    pre = b'\xff\x4f' + siz()
    fill = b''.join(bytes([(37 * i + 11) & 127]) for i in range(256)) * 300
    if key == b'\xff\x90':
        for m in marks:
            for h in (seg(m, b'\1\2'), seg(m, b'\1\2') + COM, COM + seg(m, b'')):
                yield pre + sot(header=h) + EOC, len(pre), 1
        for k in few:
            for n in (k + 2, k + 1, k) if k < 200 else (k + 2,):
                yield pre + sot(header=COM * n) + EOC, len(pre), 1
                yield pre + sot(header=PLT * n) + EOC, len(pre), 1
        for k in wide:
            for n in (k - 1, k, k + 1, k + 2):
                for h in (len(COM), 0, len(pre)):
                    if n - 14 - h >= 0:
                        yield pre + sot(header=COM, data=fill[:n - 14 - h]) + EOC, len(pre), 1
    elif key in (b'jp2c', 'contiguousCodestreamBox'):
        for m in marks:
            for h in (seg(m, b'\1\2'), seg(m, b'\1\2') + COM, COM + seg(m, b'')):
                yield stream(main=COD + QCD + h), None, None
                yield stream(main=h + COD + QCD), None, None
                yield stream(parts=sot(header=h)), None, None
        for k in few:
            for n in (k + 2, k + 1, k) if k < 200 else (k + 2,):
                yield stream(sz=siz(x=7 * n, y=5), parts=b''.join(sot(i) for i in range(n))), None, None
                yield stream(main=COD + QCD + b''.join(seg(b'\xff\x64', b'\0\1' + b'%d' % i) for i in range(n))), None, None
                yield stream(parts=b''.join(sot(0, tpsot=i & 255, tnsot=0) for i in range(n))), None, None
        for k in wide:
            for n in (k - 1, k, k + 1, k + 2):
                for h in (len(CS), len(CS) - 2, 0):
                    if n >= h:
                        yield stream(parts=sot(data=fill[:n - h])), None, None
    elif key in SUPER:
        H = jp2h_payloads()
        bits = {b'jp2h': (box(b'abcd', b'?'), H['c']), b'res ': (box(b'resd', struct.pack('>HHHHbb', 72, 1, 72, 1, 0, 0)), box(b'abcd', b'?')),
                b'uinf': (box(b'url ', b'\0\0\0\0http\0'), box(b'ulst', b'\0\1' + uid())),
                'JP2': (box(b'xml ', b'<a/>'), box(b'abcd', b'?'), box(b'uuid', uid() + b'd'))}.get(key, (box(b'abcd', b'?'),))
        head, tail = b'', b''
        if key == 'JP2':
            head = box(b'jP  ', SIG) + box(b'ftyp', FTYP) + box(b'jp2h', H['i'] + H['c'])
            tail = box(b'jp2c', CS)
        elif key == b'jp2h':
            head = H['i'] + H['c']
        for k in few if key == b'jp2h' else ():
            for n in (k + 2, k + 1, k):
                for t in (H['i'], H['u']):
                    for x in (0, 1):
                        yield t + box(b'cdef', struct.pack('>H', n) + b''.join(struct.pack('>HHH', i, x ^ (i == n - 1), i + 1) for i in range(n))), None, None
        for k in few:
            for n in (k + 2, k + 1, k) if k < 200 else (k + 2,):
                for x in bits:
                    yield head + x * n + tail, None, None
        for k in wide:
            for n in (k - 1, k, k + 1, k + 2):
                r = n - len(head) - len(tail) - 8
                if r >= 0:
                    yield head + box(b'abcd', fill[:r]) + tail, None, None
                    yield head + b'\0\0\0\0xml ' + fill[:r], None, None
                    yield head + b'\0\0\0\0abcd' + fill[:r], None, None
                    yield b'\0\0\0\0' + bits[0][4:8] + fill[:r + len(head)], None, None
    else:
        for k in few:
            for n in (k + 2, k + 1, k):
                if key == b'ftyp':
                    for f in (b'jp2 ', b'jph '):
                        yield f + b'\0\0\0\0' + f + b'abcd' * n, None, None
                        yield f + b'\0\0\0\0' + b'abcd' * n + f, None, None
                elif key in (b'colr', 'icc'):
                    for tags in ((b'desc',) + (b'wtpt',) * n + (b'A2B0',), (b'A2B0',) + (b'wtpt',) * n, (b'wtpt',) * n + (b'desc',)):
                        for m in (2, 3):
                            yield (b'' if key == 'icc' else bytes([m, 0, 0])) + icc(tags=tags), None, None
                elif key == b'cdef':
                    yield struct.pack('>H', n) + b''.join(struct.pack('>HHH', i, i == n - 1, i + 1) for i in range(n)), None, None
                elif key == b'ulst':
                    yield struct.pack('>H', n) + uid() * n, None, None
                elif key == b'cmap':
                    yield b'\0\0\1\0' * n, None, None
                elif key == b'bpcc':
                    yield b'\7' * n + b'\x85', None, None
        for k in wide:
            for fmt, vals in LAYOUT.get(key, [('>4B', b'abcd')]):
                full = struct.pack(fmt, *vals)
                for n in (k - 1, k, k + 1, k + 2):
                    if len(full) < n:
                        b = full + fill[:n - len(full)]
                        if key in SEGMENTS and len(b) < 65536:
                            b = struct.pack('>H', len(b)) + b[2:]
                        for m in ((1, 257) if key in COMPONENTS else (None,)):
                            yield b, None, m


def regions(key, consts, deep=False, odd=()):
    """all regions of a unit: (atoms dict)"""
    fm = unit_formats(key)

    def full(b, s=None, n=None):
        for o in option_sets(key, True):
            yield dict(o, B=b, S=s, N=n)

    def light(b, s=None, n=None, k=0):
        # every format verbose, one format terse
        for i, f in enumerate(fm):
            yield dict(opts(f, True, bool(k & 1) or key in (b'xml ', b'uuid'), k % 3 == 0), B=b, S=s, N=n)
        yield dict(opts(fm[k % len(fm)], False, False, k % 3 == 1), B=b, S=s, N=n)
    if key == b'\xff\x90':
        it = tileparts(deep)
    elif key in (b'jp2c', 'contiguousCodestreamBox'):
        it = ((b, None, None) for b in codestreams(deep))
    elif key in SUPER:
        it = ((b, None, None) for b in container(key, deep))
    elif key in COMPONENTS:
        def gen():
            few = list(itertools.islice(contents(key, consts), 40))
            few = few[:10] + few[10::6]
            for n in sorted({-9999, 0, 1, 2, 127, 128, 129, 200, 255, 256, 257, 258, 300, 16384, 65535} |
                            {c + d for c in consts if 16 < c < 70000 for d in (-1, 0, 1)}):
                if key == b'\xff\x63' and n > 300:
                    continue
                for b in few:
                    yield b, None, n
            for b in contents(key, consts, deep):
                for n in (3, 257):
                    yield b, None, n
        it = gen()
    else:
        it = ((b, None, None) for b in contents(key, consts, deep))
    for b, s, n in dict.fromkeys(counted(key, odd)):
        for a in ([dict(opts(fm[0], True, False, True), B=b, S=s, N=n)] if len(b) > 4000 else light(b, s, n)):
            yield a
    for k, (b, s, n) in enumerate(spread(it, 100)):
        for a in (full(b, s, n) if key in (b'xml ', b'uuid') or k < 60 else light(b, s, n, k)):
            yield a
