"""Builds small JPEG 2000 files from parts, for the demonstrations."""
import os
import struct
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

NS = '{http://openpreservation.org/ns/jpylyzer/v2/}'


def box(t, b):
    return struct.pack('>I', 8 + len(b)) + t + b


def seg(m, b):
    return m + struct.pack('>H', 2 + len(b)) + b


def ihdr(h=16, w=16, nc=1, bpc=7, c=7, unk=0, ipr=0):
    return box(b'ihdr', struct.pack('>IIHBBBB', h, w, nc, bpc, c, unk, ipr))


def colr(cs=16):
    return box(b'colr', struct.pack('>BBBI', 1, 0, 0, cs))


def siz(x=16, y=16, xo=0, yo=0, xt=16, yt=16, xto=0, yto=0, comps=((7, 1, 1),), rsiz=0):
    return seg(b'\xff\x51', struct.pack('>HIIIIIIIIH', rsiz, x, y, xo, yo, xt, yt, xto, yto, len(comps)) +
               b''.join(struct.pack('>BBB', *c) for c in comps))


def cod(scod=0, order=0, layers=1, mct=0, levels=1, cw=4, ch=4, style=0, tr=1, prec=b''):
    return seg(b'\xff\x52', struct.pack('>BBHBBBBBB', scod, order, layers, mct, levels, cw, ch, style, tr) + prec)


def qcd(style=0x40, steps=b'\x48\x48\x50\x48'):
    return seg(b'\xff\x5c', bytes([style]) + steps)


def tilepart(i=0, tp=0, tn=1, extra=b'', data=b'\x00\x00', psot=None):
    n = 12 + len(extra) + 2 + len(data)
    return seg(b'\xff\x90', struct.pack('>HIBB', i, n if psot is None else psot, tp, tn)) + extra + b'\xff\x93' + data


def codestream(size=None, main=None, tiles=None, extra=b''):
    return b'\xff\x4f' + (siz() if size is None else size) + (cod() + qcd() if main is None else main) + extra + \
        (tilepart() if tiles is None else tiles) + b'\xff\xd9'


SIG = box(b'jP  ', b'\r\n\x87\n')
FTYP = box(b'ftyp', b'jp2 \x00\x00\x00\x00jp2 ')
FTYPH = box(b'ftyp', b'jph \x00\x00\x00\x00jph ')


def jp2(head=None, cs=None, extra=b'', ftyp=FTYP, tail=b''):
    return SIG + ftyp + box(b'jp2h', ihdr() + colr() if head is None else head) + extra + \
        box(b'jp2c', codestream() if cs is None else cs) + tail


def raw(files, *opts, **kw):
    """run the command line tool on the given contents -> (status, stdout, stderr)"""
    with tempfile.TemporaryDirectory() as d:
        paths = []
        for i, f in enumerate(files if isinstance(files, (list, tuple)) else [files]):
            p = os.path.join(d, 'f%d.jp2' % i)
            with open(p, 'wb') as o:
                o.write(f)
            paths.append(p)
        r = subprocess.run([sys.executable, '-m', 'jpylyzer'] + list(opts) + paths, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=kw.get('timeout', 60))
        return r.returncode, r.stdout, r.stderr


def report(f, *opts, **kw):
    """the file element of the report, namespaces stripped"""
    rc, out, err = raw(f, *opts, **kw)
    root = ET.fromstring(out)
    for e in root.iter():
        if isinstance(e.tag, str):
            e.tag = e.tag.split('}')[-1]
    return root.find('file')
