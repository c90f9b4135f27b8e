"""Scenarios for the program around the validators, and the value of its summaries under a scenario.

A scenario fixes what the environment answers: command line, files, platform, and which operation fails with which
exception.  Effects in a summary are read off in order as events (text written, files opened and closed, exits,
files analysed).  Only summary terms are evaluated; the analysed program is neither imported nor run.
"""
import argparse
import contextlib
import datetime
import fnmatch
import io
import mmap
import os.path
import posixpath
import re
import xml.dom.minidom
import xml.etree.ElementTree as ET
from .terms import T, cv, raw
from .evalt import Env, FN, UNK, UNKTAG, PyRaise, Rec, Excv


class Stop(Exception):
    """the program ends"""


class Unclear(Exception):
    """an answer that depends on something unknown"""


class Fault(object):
    def __init__(self, op, name, msg=''):
        self.op, self.name, self.msg = op, name, msg

    def __repr__(self):
        return '%s raises %s%s' % (self.op, self.name, '(%r)' % self.msg if self.msg else '')


class World(object):
    """what the environment answers"""

    def __init__(self, argv=(), files=(), dirs=(), cwd='/work', platform='linux', fault=None, locale='utf-8', sizes=None,
                 mtime=1234567890.0, results=None, version='3.12.3 (main)', maxsize=2**63 - 1, links=(), dirlinks=None):
        self.argv, self.cwd, self.platform, self.fault, self.locale = list(argv), cwd, platform, fault, locale
        self.files, self.dirs = set(files), set(dirs) | {'/'}
        self.links = set(links)         # dangling
        self.dirlinks = dirlinks or {}  # to directories
        for f in list(self.files) + list(self.dirs) + list(self.links) + list(self.dirlinks):
            d = posixpath.dirname(f)
            while d and d not in self.dirs:
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.sizes = sizes or {}
        self.mtime, self.ctime, self.atime = mtime, 1500000001.0, 1600000002.0
        self.results = results
        self.version, self.maxsize = version, maxsize

    # ---------------------------------------------------------- file system
    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def real(self, p):
        p = self.abs(p)
        for l, t in self.dirlinks.items():
            if p == l or p.startswith(l + '/'):
                return t + p[len(l):]
        return p

    def isfile(self, p):
        return self.real(p) in self.files

    def isdir(self, p):
        return self.real(p) in self.dirs

    def exists(self, p):
        return self.isfile(p) or self.isdir(p)

    def children(self, d):
        d = self.real(d)
        names = set()
        for x in self.files | self.dirs | self.links | set(self.dirlinks):
            if x != d and posixpath.dirname(x) == d:
                names.add(posixpath.basename(x))
        return sorted(names)

    def glob(self, pattern, recursive=False):
        if not re.search(r'[*?\[]', pattern):
            return [pattern] if self.exists(pattern) or self.abs(pattern) in self.links else []
        d, b = posixpath.split(pattern)
        tops = self.glob(d, recursive) if re.search(r'[*?\[]', d) else [d]
        out = []
        if recursive and b == '**':
            for t in tops:
                for top, ds, fs in self.walk(t or '.', True, True):
                    if any(x.startswith('.') for x in posixpath.relpath(top, t or '.').split('/') if x != '.'):
                        continue
                    out.append(top if top != t else posixpath.join(t, ''))
                    out.extend(posixpath.join(top, x) for x in fs if not x.startswith('.'))
            return out
        for t in tops:
            if not self.isdir(t or '.'):
                continue
            for n in self.children(t or '.'):
                if n.startswith('.') and not b.startswith('.'):
                    continue
                if fnmatch.fnmatchcase(n, b) if b else False:
                    out.append(posixpath.join(t, n) if t else n)
        return out

    def walk(self, top, topdown=True, follow=False, select=None):
        if not self.isdir(top):
            return []
        subs = [n for n in self.children(top) if self.isdir(posixpath.join(top, n))]
        fs = [n for n in self.children(top) if n not in subs]
        below = []
        into = subs
        if select is not None and topdown:
            into = select(top, list(subs), list(fs))
        for s in into:
            if follow or self.abs(posixpath.join(top, s)) not in self.dirlinks:
                below += self.walk(posixpath.join(top, s), topdown, follow, select)
        me = [(top, subs, fs)]
        return me + below if topdown else below + me

    def size(self, p):
        a = self.real(p)
        if a not in self.files:
            return PyRaise('FileNotFoundError')
        return self.sizes.get(a, 4711)


class Stream(Rec):
    """a place text is written to"""

    def __init__(self, name, enc):
        Rec.__init__(self)
        self.name, self.enc = name, enc


class Handle(Rec):
    """an opened file or a memory map"""

    def __init__(self, label, path, kind):
        Rec.__init__(self)
        self.label, self.path, self.kind = label, path, kind

    def __repr__(self):
        return self.label


class Parser(Rec):
    def __init__(self, obj):
        Rec.__init__(self)
        self.obj = obj


CONST = {'os.sep': '/', 'os.path.sep': '/', 'os.linesep': '\n', 'os.name': 'posix', 'os.curdir': '.', 'os.pardir': '..',
         'os.altsep': None, 'os.extsep': '.', 'os.R_OK': 4, 'os.W_OK': 2, 'os.X_OK': 1, 'os.F_OK': 0}
for _n in ('ACCESS_READ', 'ACCESS_WRITE', 'ACCESS_COPY', 'MAP_SHARED', 'MAP_PRIVATE', 'PROT_READ', 'PROT_WRITE', 'ACCESS_DEFAULT'):
    if hasattr(mmap, _n):
        CONST['mmap.' + _n] = getattr(mmap, _n)
for _n in dir(re):
    if _n.isupper():
        CONST['re.' + _n] = getattr(re, _n)


class TopEnv(Env):
    """valuation of a top-level summary in a world; collects events"""
    LIMIT = 6000

    def __init__(self, world, atoms=None, cut=None, child=None):
        Env.__init__(self, atoms or {}, child)
        self.w = world
        self.cut = cut or {}
        self.events = []
        self.open_ = []         # entered context managers
        self.live = False       # performing an effect
        self.once = set()

    # ------------------------------------------------------------ plumbing
    def event(self, *e):
        if self.live:
            self.events.append(e)

    def failing(self, op):
        f = self.w.fault
        if f is not None and f.op == op:
            e = PyRaise(f.name)
            e.msg = f.msg
            raise e

    def v_ext(self, t):
        n = t.a[0]
        w = self.w
        if n == 'sys.platform':
            return w.platform
        if n == 'sys.maxsize':
            return w.maxsize
        if n == 'sys.version':
            return w.version
        if n == 'sys.version_info':
            return tuple(int(x) for x in w.version.split()[0].split('.'))
        if n == 'sys.argv':
            return list(w.argv)
        if n in ('sys.stdout', 'sys.stderr'):
            return Stream(n[4:], w.locale)
        if n in ('sys.stdout.buffer', 'sys.stderr.buffer'):
            return Stream(n[4:10], None)
        if n in ('sys.stdout.encoding', 'sys.stderr.encoding'):
            return w.locale
        if n in CONST:
            return CONST[n]
        if n.split('.')[0] in ('argparse', 're', 'mmap', 'codecs'):
            return Rec(ext=n)
        return UNK

    def v_bi(self, t):
        return {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes}.get(t.a[0], UNK)

    def v_excval(self, t):
        try:
            self.ev(t.a[0])
        except PyRaise as e:
            x = Excv(e.name)
            x.msg = getattr(e, 'msg', '')
            return x
        return UNK

    def v_entered(self, t):
        return self.ev(t.a[0])

    def v_ucall(self, t):
        f = self.ev(t.a[0])
        if isinstance(f, Rec) and '()' in f.f:
            pos, kw = self._args(t.a[1:])
            return f.f['()'](*pos, **kw)
        return UNK

    def v_attr(self, t):
        x = self.ev(t.a[0])
        if isinstance(x, argparse.Namespace):
            if hasattr(x, t.a[1]):
                return getattr(x, t.a[1])
            raise PyRaise('AttributeError')
        if isinstance(x, Stream):
            if t.a[1] == 'buffer':
                return Stream(x.name, None)
            if t.a[1] == 'encoding':
                return x.enc
            return UNK
        if isinstance(x, Excv):
            if t.a[1] == 'args':
                return (x.msg,) if x.msg else ()
            return UNK
        return Env.v_attr(self, t)

    # ------------------------------------------------------------ calls
    def v_call(self, t):
        name = t.a[0]
        live, self.live = self.live, False
        try:
            pos, kw = self._args(t.a[1:])
        finally:
            self.live = live
        if name.startswith('cut:'):
            f = self.cut.get(name[4:])
            if f is None:
                return UNK
            self.failing(name)
            if not live:
                return None     # performed in its place, see effect()
            r = f(self, pos, kw)
            if isinstance(r, PyRaise):
                raise r
            return r
        r = self.external(name, pos, kw)
        if r is not NotImplemented:
            if isinstance(r, PyRaise):
                raise r
            return r
        if name == 'str' and len(pos) == 1 and isinstance(pos[0], Excv):
            return pos[0].msg
        if name == 'type' and len(pos) == 1 and pos[0] is not UNK and not isinstance(pos[0], (Rec, Excv, ET.Element)):
            return type(pos[0])
        if live and name not in FN:
            self.events.append(('call', name, tuple(repr(p) for p in pos)))
        return Env.v_call(self, t)

    def external(self, name, pos, kw):
        w = self.w
        self.failing(name)
        unk = any(self.hasunk(x) for x in pos) or any(self.hasunk(x) for x in kw.values())
        if name == 'open' or name in ('io.open', 'codecs.open'):
            if unk:
                return UNK
            p = pos[0]
            mode = pos[1] if len(pos) > 1 else kw.get('mode', 'r')
            self.event('open', p, mode)
            if not w.isfile(p) and 'r' in mode:
                return PyRaise('IsADirectoryError' if w.isdir(p) else 'FileNotFoundError')
            h = Handle('file(%s,%s)' % (p, mode), p, 'file')
            h.f['.fileno'] = lambda: self._op('fileno', h)
            h.f['.read'] = lambda *a: self._read(h)
            return h
        if name == 'mmap.mmap':
            if unk:
                return UNK
            f = pos[0] if pos else kw.get('fileno')
            ro = kw.get('access') == mmap.ACCESS_READ or len(pos) > 3 and pos[3] == mmap.PROT_READ or \
                kw.get('prot') == mmap.PROT_READ
            p = f.path if isinstance(f, Handle) else None
            if p is not None and w.size(p) == 0:
                e = PyRaise('ValueError')
                e.msg = 'cannot mmap an empty file'
                return e
            if p is not None and not isinstance(w.size(p), PyRaise) and w.size(p) > w.maxsize:
                e = PyRaise('ValueError')
                e.msg = 'mmap length is too large'
                return e
            length = pos[1] if len(pos) > 1 else kw.get('length')
            self.event('map', p, 'ro' if ro else 'rw')
            h = Handle('map(%s,%s,%s)' % (p, length, 'ro' if ro else 'rw'), p, 'map')
            return h
        if name.startswith('os.path.') or name in ('os.walk', 'glob.glob', 'glob.iglob', 'os.getcwd', 'os.listdir', 'os.stat', 'os.access', 'os.lstat',
                                                    'os.readlink', 'os.getenv', 'os.environ.get'):
            return self.filesystem(name, pos, kw, unk)
        if name == 'argparse.ArgumentParser':
            if unk:
                return UNK
            kw = dict(kw)
            kw.setdefault('prog', 'jpylyzer')
            for k in list(kw):
                if isinstance(kw[k], Rec):
                    n = kw[k].f.get('ext', '')
                    kw[k] = getattr(argparse, n.split('.')[-1], None)
            return self.parser(argparse.ArgumentParser(*pos, **kw))
        if name == 'codecs.getwriter':
            if unk:
                return UNK
            enc = pos[0]
            return Rec(**{'()': lambda s, errors='strict': Stream(s.name, enc) if isinstance(s, Stream) else UNK})
        if name == 'io.TextIOWrapper':
            s = pos[0] if pos else UNK
            enc = pos[1] if len(pos) > 1 else kw.get('encoding', w.locale)
            return Stream(s.name, enc) if isinstance(s, Stream) else UNK
        if name in ('datetime.datetime.fromtimestamp', 'datetime.datetime.utcfromtimestamp'):
            if unk:
                return UNK
            try:
                tz = pos[1] if len(pos) > 1 else kw.get('tz')
                if tz is not None and not isinstance(tz, datetime.tzinfo):
                    return UNK
                # local time is not UTC
                local = datetime.timezone.utc if 'utcfrom' in name else datetime.timezone(datetime.timedelta(minutes=330))
                d = datetime.datetime.fromtimestamp(pos[0], tz=tz or local)
                return d if tz else d.replace(tzinfo=None)
            except Exception as e:
                return PyRaise(type(e).__name__)
        if name.startswith('sys.') and name.count('.') == 2:
            # method of a constant of sys
            o = self.v_ext(raw('ext', name.rsplit('.', 1)[0]))
            m = name.rsplit('.', 1)[1]
            if isinstance(o, Stream):
                return self.method(o, m, pos, kw)
            if isinstance(o, (str, list)) and not unk:
                try:
                    return getattr(o, m)(*pos, **kw)
                except Exception as e:
                    return PyRaise(type(e).__name__)
            return UNK
        if name.startswith('sys.stdout.buffer.') or name.startswith('sys.stderr.buffer.'):
            return self.method(Stream(name[4:10], None), name.rsplit('.', 1)[1], pos, kw)
        if name in ('re.sub', 're.search', 're.match', 're.fullmatch', 're.split', 're.findall', 're.compile', 're.escape'):
            if unk:
                return UNK
            try:
                return getattr(re, name[3:])(*pos, **kw)
            except Exception as e:
                return PyRaise(type(e).__name__)
        if name == 'xml.etree.ElementTree.tostring':
            if unk or not isinstance(pos[0], ET.Element) or any(x.tag == UNKTAG or x.text is UNK for x in pos[0].iter()):
                return UNK
            try:
                return ET.tostring(*pos, **kw)
            except Exception as e:
                return PyRaise(type(e).__name__)
        if name in ('xml.dom.minidom.parseString',):
            if unk:
                return UNK
            try:
                return xml.dom.minidom.parseString(*pos, **kw)
            except Exception as e:
                return PyRaise('xml.parsers.expat.ExpatError')
        if name == 'vars' and pos and isinstance(pos[0], argparse.Namespace):
            return vars(pos[0])
        if name == 'getattr' and pos and isinstance(pos[0], argparse.Namespace):
            return getattr(*pos)
        if name == 'unicodedata.category' and not unk:
            try:
                return FN[name](*pos)
            except TypeError:
                return PyRaise('TypeError')
        return NotImplemented

    def filesystem(self, name, pos, kw, unk):
        w = self.w
        if unk:
            return UNK
        try:
            return self.files(name, pos, kw, w)
        except (TypeError, AttributeError):
            # a path that is no path
            if all(isinstance(p, str) for p in pos):
                raise
            return PyRaise('TypeError')

    def v_quote(self, t):
        return Rec(quote=t.a[0])

    def selector(self, term):
        def f(top, dirs, files):
            e = type(self)(self.w, dict(self.atoms, **{'$top': top, '$dirs': dirs, '$files': files}), self.cut)
            e.child, e.frames = self.child, dict(self.frames)
            v = e.ev(term)
            if not isinstance(v, (list, tuple)) or e.hasunk(v) or not all(isinstance(x, str) for x in v):
                raise Unclear()
            return list(v)
        return f

    def files(self, name, pos, kw, w):
        f = name.split('.')[-1]
        if name == 'os.getcwd':
            return w.cwd
        if name == 'os.walk':
            top = pos[0]
            td = pos[1] if len(pos) > 1 else kw.get('topdown', True)
            sel = kw.get('$select')
            if sel is not None:
                sel = self.selector(sel.f['quote'])
            try:
                return w.walk(top, td, pos[3] if len(pos) > 3 else kw.get('followlinks', False), sel)
            except Unclear:
                return UNK
        if name in ('glob.glob', 'glob.iglob'):
            try:
                return w.glob(pos[0], kw.get('recursive', False))
            except NotImplementedError:
                return UNK
        if name == 'os.listdir':
            return w.children(pos[0] if pos else '.') if w.isdir(pos[0] if pos else '.') else PyRaise('FileNotFoundError')
        if name == 'os.access':
            return w.exists(pos[0])
        if name in ('os.getenv', 'os.environ.get'):
            return pos[1] if len(pos) > 1 else None
        if name in ('os.stat', 'os.lstat'):
            z = w.size(pos[0])
            return z if isinstance(z, PyRaise) else Rec(st_size=z, st_mtime=w.mtime, st_ctime=w.ctime, st_atime=w.atime)
        if f in ('isfile', 'isdir', 'exists'):
            return getattr(w, f)(pos[0])
        if f == 'lexists':
            return w.exists(pos[0]) or w.abs(pos[0]) in w.links or w.abs(pos[0]) in w.dirlinks
        if f == 'islink':
            return w.abs(pos[0]) in w.links or w.abs(pos[0]) in w.dirlinks
        if f == 'realpath':
            return w.real(pos[0])
        if f == 'abspath':
            return w.abs(pos[0])
        if f == 'samefile':
            return w.real(pos[0]) == w.real(pos[1]) if w.exists(pos[0]) and w.exists(pos[1]) else PyRaise('FileNotFoundError')
        if f == 'getsize':
            return w.size(pos[0])
        if f in ('getmtime', 'getctime', 'getatime'):
            z = w.size(pos[0])
            return z if isinstance(z, PyRaise) else getattr(w, f[3:])
        if f in ('basename', 'dirname', 'split', 'splitext', 'join', 'isabs', 'normpath', 'commonprefix', 'normcase', 'expanduser'):
            try:
                return getattr(posixpath, f)(*pos)
            except Exception as e:
                return PyRaise(type(e).__name__)
        return UNK

    def _op(self, op, h):
        self.failing(op)
        return h

    def _read(self, h):
        self.failing('read')
        z = self.w.size(h.path)
        if z == 0:
            return b''
        return Handle('bytes(%s)' % h.path, h.path, 'bytes')

    def parser(self, obj):
        return Parser(obj)

    def v_mcall(self, t):
        live, self.live = self.live, False
        try:
            x = self.ev(t.a[0])
            pos, kw = self._args(t.a[2:])
        finally:
            self.live = live
        if isinstance(x, (Stream, Parser, Handle)) or type(x).__module__.startswith('xml.dom') or \
                isinstance(x, (re.Match, re.Pattern)) or isinstance(x, Rec) and t.a[1] in ('write', 'flush', 'close'):
            r = self.method(x, t.a[1], pos, kw)
            if isinstance(r, PyRaise):
                raise r
            return r
        if live and isinstance(x, ET.Element) and t.a[1] in ('set', 'append', 'extend', 'insert', 'remove', 'clear') and \
                not any(self.hasunk(v) for v in pos):
            getattr(x, t.a[1])(*pos, **kw)
            return None
        return Env.v_mcall(self, t)

    def method(self, x, name, pos, kw):
        unk = any(self.hasunk(v) for v in pos) or any(self.hasunk(v) for v in kw.values())
        if isinstance(x, Stream):
            if name in ('write', 'writelines'):
                if unk:
                    self.event('write', x.name, UNK)
                    return None
                s = pos[0]
                for s in (s if name == 'writelines' else [s]):
                    r = self.emit(x, s)
                    if isinstance(r, PyRaise):
                        return r
                return None
            if name in ('flush', 'close', 'isatty', 'reconfigure', 'detach'):
                if name == 'reconfigure' and 'encoding' in kw:
                    return UNK
                return None
            return UNK
        if isinstance(x, Handle):
            if name == 'close':
                self.failing('close')
                self.event('close', x.label)
                return None
            if name in ('fileno', 'read') and '.' + name in x.f:
                r = x.f['.' + name](*pos)
                return r
            if x.kind == 'map' and name in ('read', 'find', 'size', 'seek', 'tell'):
                return UNK
            if name in ('flush', 'write', 'resize', 'move', 'write_byte', 'truncate', 'writelines'):
                self.event('modify', x.label, name)
                return None
            if name in ('__enter__',):
                return x
            if name == '__exit__':
                self.event('close', x.label)
                return None
            return UNK
        if isinstance(x, Parser):
            return self.parse(x, name, pos, kw, unk)
        if isinstance(x, (re.Match, re.Pattern)):
            if unk:
                return UNK
            try:
                return getattr(x, name)(*pos, **kw)
            except Exception as e:
                return PyRaise(type(e).__name__)
        if type(x).__module__.startswith('xml.dom'):
            if unk or name not in ('toprettyxml', 'toxml', 'unlink'):
                return UNK
            return getattr(x, name)(*pos, **kw)
        return UNK

    def emit(self, x, s):
        if x.enc is None:
            if not isinstance(s, (bytes, bytearray)):
                return PyRaise('TypeError')
            b = bytes(s)
        else:
            if not isinstance(s, str):
                return PyRaise('TypeError')
            try:
                b = s.encode(x.enc, 'backslashreplace' if x.name == 'stderr' else 'strict')
            except UnicodeEncodeError:
                return PyRaise('UnicodeEncodeError')
        self.event('write', x.name, b)
        return None

    def parse(self, x, name, pos, kw, unk):
        if unk:
            return UNK
        kw = dict(kw)
        for k in list(kw):
            if isinstance(kw[k], Rec) and 'ext' in kw[k].f:
                kw[k] = getattr(argparse, kw[k].f['ext'].split('.')[-1], None)
        pos = [p for p in pos]
        if name in ('add_argument', 'add_argument_group', 'add_mutually_exclusive_group', 'set_defaults'):
            if not self.live:
                return UNK
            try:
                r = getattr(x.obj, name)(*pos, **kw)
            except Exception as e:
                return PyRaise(type(e).__name__)
            return Parser(r) if name.endswith('group') else None
        if name in ('parse_args', 'print_help', 'print_usage', 'error', 'exit', 'format_help', 'format_usage', 'parse_known_args'):
            if name in ('print_help', 'print_usage', 'error', 'exit') and not self.live:
                return None
            o, e = io.StringIO(), io.StringIO()
            a = list(pos)
            if name.startswith('parse') and (not a or a[0] is None):
                a = [list(self.w.argv[1:])] + a[1:]
            if name in ('print_help', 'print_usage') and a and isinstance(a[0], Stream):
                e2 = o if a[0].name == 'stdout' else e
                a = [e2]
            r = None
            code = None
            try:
                with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                    r = getattr(x.obj, name)(*a, **kw)
            except SystemExit as ex:
                code = ex.code
                self.pending = (o.getvalue(), e.getvalue(), code)
                p = PyRaise('SystemExit')
                p.code = code
                p.out = o.getvalue()
                p.err = e.getvalue()
                return p
            except Exception as ex:
                return PyRaise(type(ex).__name__)
            if o.getvalue():
                self.event('write', 'stdout', b'(help or version)\n')
            if e.getvalue():
                self.event('write', 'stderr', e.getvalue().encode())
            return r
        return UNK

    # ------------------------------------------------------------ effects
    def perform(self, t):
        """an effect, once, in its place"""
        if t.op == 'ite':
            c = self.b(t.a[0])
            if c is UNK:
                self.events.append(('unknown', 'effect'))
                return
            return self.perform(t.a[1] if c else t.a[2])
        if t.op != 'eff':
            self.events.append(('unknown', 'effect'))
            return
        name = t.a[0]
        args = t.a[1:]
        try:
            self.effect(name, args)
        except PyRaise as e:
            if e.name == 'SystemExit' and hasattr(e, 'out'):
                # the wording of help and usage is not judged
                if e.out:
                    self.events.append(('write', 'stdout', b'(help or version)\n'))
                if e.err:
                    self.events.append(('write', 'stderr', b'(usage)\n'))
                self.events.append(('exit', e.code))
                raise Stop()
            # the guards of what follows say whether it is caught

    def effect(self, name, args):
        if name.startswith('global.'):
            return
        if name in ('mcall', 'ucall', 'child'):
            t = args[0]
            if t.op in ('mcall', 'call'):
                self.again(t)       # equal calls may be performed twice
            else:
                self.ev(t)
            return
        if name.startswith('cut:'):
            self.events.append((name, [self.ev(a) for a in args]))
            self.again(raw('call', name, *args))
            return
        if name.startswith('print:'):
            dest = name[6:]
            pos, kw = self._args(args)
            if any(self.hasunk(v) for v in pos):
                self.events.append(('write', 'stdout' if 'stderr' not in dest else 'stderr', UNK))
                return
            sep, end = kw.get('sep', ' '), kw.get('end', '\n')
            text = (sep if sep is not None else ' ').join(str(p) for p in pos) + (end if end is not None else '\n')
            if dest in ('sys.stdout', 'sys.stderr'):
                self.live = True
                try:
                    r = self.emit(Stream(dest[4:], self.w.locale), text)
                finally:
                    self.live = False
                if isinstance(r, PyRaise):
                    raise r
            else:
                self.events.append(('unknown', 'print'))
            return
        if name in ('sys.exit', 'os._exit', 'os.abort'):
            v = self.ev(args[0]) if args else None
            if isinstance(v, str):
                self.events.append(('write', 'stderr', v.encode('utf-8', 'replace')))
                v = 1
            self.events.append(('exit', v))
            raise Stop()
        if name == 'open':
            self.again(raw('call', 'open', *args))
            return
        if name == 'with.enter':
            v = self.ev(args[0])
            self.open_.append(v)
            return
        if name == 'with.exit':
            if self.open_:
                v = self.open_.pop()
                if isinstance(v, Handle):
                    self.events.append(('close', v.label))
            return
        if name in ('setattr', 'append', 'setitem'):
            vs = [self.ev(a) for a in args]
            o = vs[0]
            if o is UNK:
                self.events.append(('unknown', name))
                return
            if isinstance(o, ET.Element):
                if name == 'append':
                    if isinstance(vs[1], ET.Element):
                        o.append(vs[1])
                    else:
                        o.append(ET.Element(UNKTAG))
                elif name == 'setattr':
                    setattr(o, vs[1], vs[2])
                self.stale(o)
                return
            if isinstance(o, Rec) and name == 'setattr':
                o.f[vs[1]] = vs[2]
                return
            self.events.append(('unknown', name))
            return
        # other calls into the environment
        t = raw('call', name, *args)
        self.again(t)

    def again(self, t):
        self.memo.pop(self.key(t), None)
        self.live = True
        try:
            return self.ev(t)
        finally:
            self.live = False

    def stale(self, o):
        """forget values read from a mutated element"""
        self.muts = getattr(self, 'muts', 0) + 1

    def play(self, log):
        if log.op != 'gs':
            self.events.append(('unknown', 'effects'))
            return
        for it in log.a:
            if it in self.once:
                continue
            try:
                g = self.b(it.a[0])
            except PyRaise as e:
                g = UNK
            if g is False:
                continue
            if g is UNK:
                self.events.append(('unknown', 'guard'))
                continue
            if it.op == 'gi':
                self.perform(it.a[1])
            elif it.op == 'gx':
                self.play(it.a[1])
            else:
                run = self.run(it.a[1])
                if run is None:
                    self.events.append(('unknown', 'loop'))
                    continue
                for fr in run.frames:
                    self.at(it.a[1].a[0], fr, lambda: self.play(it.a[2]))


def prepare(env, log):
    """declarations of the command line come first"""
    if log.op != 'gs':
        return
    for it in log.a:
        if it.op != 'gi' or it.a[1].op != 'eff' or it.a[1].a[0] != 'mcall':
            break
        m = it.a[1].a[1]
        if m.op != 'mcall' or not m.a[1].startswith(('add_', 'set_')):
            break
        env.perform(it.a[1])
        env.once.add(it)
