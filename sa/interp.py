"""Abstract interpreter: gated value numbering over the Python syntax tree.

Every statement is interpreted once (loops: until the set of loop-carried slots
is stable) over abstract values that are hash-consed terms (sa.terms).  Branches
are joined with gates, loops become recurrences, package functions are inlined,
and everything outside the package is an uninterpreted operation.  No analysed
code is ever executed.
"""
import ast
import builtins
import copy as copymod
import os
from .terms import *
from . import terms as tm


class Unsupported(Exception):
    pass


def leaves_of(v):
    while v.op == 'ite':
        for x in leaves_of(v.a[1]):
            yield x
        v = v.a[2]
    yield v


EXC_PARENT = {
    'BaseException': None, 'Exception': 'BaseException', 'SystemExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AttributeError': 'Exception', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'OSError': 'Exception', 'IOError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'TypeError': 'Exception',
    'struct.error': 'Exception', 'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError',
    'NotImplementedError': 'RuntimeError', 'MemoryError': 'Exception', 'StopIteration': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'AssertionError': 'Exception',
    'SyntaxError': 'Exception', 'xml.etree.ElementTree.ParseError': 'SyntaxError',
    'PermissionError': 'OSError', 'FileNotFoundError': 'OSError', 'EnvironmentError': 'Exception',
    'binascii.Error': 'ValueError',
}
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'WindowsError': 'OSError'}


def exc_sub(a, b):
    """exception class a is b or derives from b"""
    a = EXC_ALIAS.get(a, a)
    b = EXC_ALIAS.get(b, b)
    while a is not None:
        if a == b:
            return True
        a = EXC_ALIAS.get(EXC_PARENT.get(a), EXC_PARENT.get(a))
    return False


BUILTIN_TYPES = {'int', 'float', 'str', 'bytes', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset',
                 'bytearray', 'object', 'type', 'memoryview'}
BUILTINS = BUILTIN_TYPES | {
    'len', 'range', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'sorted', 'min', 'max', 'sum', 'any',
    'all', 'abs', 'round', 'ord', 'chr', 'hex', 'bin', 'oct', 'divmod', 'pow', 'repr', 'format', 'isinstance',
    'issubclass', 'getattr', 'setattr', 'hasattr', 'callable', 'print', 'open', 'iter', 'next', 'id', 'hash',
    'super', 'property', 'staticmethod', 'classmethod', 'vars', 'type', 'input', 'exit', 'quit', 'eval', 'exec',
    'compile', '__import__', 'globals', 'locals', 'ascii', 'slice'}

# external operations with no observable effect
PURE_EXT_PREFIX = ('os.path.', 'math.', 'struct.', 'binascii.', 'unicodedata.', 'uuid.', 're.', 'datetime.',
                   'itertools.', 'functools.', 'operator.', 'collections.', 'string.', 'xml.etree.ElementTree.',
                   'xml.dom.minidom.', 'time.', 'codecs.', 'copy.', 'glob.', 'int.', 'bytes.', 'str.', 'dict.',
                   'html.', 'xml.sax.saxutils.', 'textwrap.', 'enum.', 'typing.', 'dataclasses.')
LIST_CHANGES = {'sort', 'reverse', 'remove', 'append', 'extend', 'clear', 'pop', 'insert'}


def listy(t):
    """a list, for certain"""
    if t.op == 'call':
        return t.a[0] in ('glob.glob', 'os.listdir', 'sorted', 'list', 'list.remove')
    if t.op == 'mcall':
        return t.a[1] in ('split', 'rsplit', 'splitlines', 'readlines')
    if t.op == 'slice':
        return listy(t.a[0])
    if t.op == 'ite':
        return listy(t.a[1]) and listy(t.a[2])
    if t.op == 'index' and t.a[1].op == 'c' and t.a[1].a[0] in (1, 2):
        b = t.a[0]
        return b.op == 'index' and b.a[0].op == 'call' and b.a[0].a[0] == 'os.walk'
    return False


PURE_EXT = {'os.walk', 'sys.getsizeof', 'os.fspath', 'os.stat', 'os.listdir', 'os.scandir', 'os.getcwd', 'os.fsencode', 'os.fsdecode'}
# methods of plain data values: no effect, may be evaluated
PURE_METHODS = {
    'find', 'findall', 'findtext', 'iter', 'get', 'keys', 'items', 'values', 'strip', 'lstrip', 'rstrip',
    'split', 'rsplit', 'splitlines', 'join', 'format', 'encode', 'decode', 'startswith', 'endswith', 'lower',
    'upper', 'replace', 'hex', 'index', 'count', 'group', 'groups', 'search', 'match', 'isoformat', 'title',
    'zfill', 'ljust', 'rjust', 'partition', 'rpartition', 'translate', 'isdigit', 'to_bytes', 'bit_length',
    'union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy', 'isspace', 'capitalize', 'sub',
    'fullmatch', 'toprettyxml', 'toxml', 'tobytes', 'isprintable', 'iterfind', 'itertext', 'getchildren',
    'isalpha', 'isalnum', 'rfind', 'swapcase', 'casefold', 'expandtabs', 'removeprefix', 'removesuffix', 'strftime'}


class FuncInfo(object):
    def __init__(self, key, module, node, cls=None, closure=None, deco=()):
        self.key, self.module, self.node, self.cls, self.closure = key, module, node, cls, closure
        self.deco = deco
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            for n in _own_nodes(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


def _own_nodes(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Obj(object):
    __slots__ = ('kind', 'f', 'cls')

    def __init__(self, kind, f, cls=None):
        self.kind, self.f, self.cls = kind, f, cls

    def copy(self):
        return Obj(self.kind, dict(self.f), self.cls)


class State(object):
    __slots__ = ('vars', 'heap')

    def __init__(self, vars_, heap):
        self.vars, self.heap = vars_, heap

    def copy(self):
        n = State(None, dict(self.heap))
        n.vars = self.vars.rebind(n) if isinstance(self.vars, _NSVars) else dict(self.vars)
        return n


def none_when(t, depth=6):
    """when a value is None, as far as its branches say"""
    if t is NONE:
        return TRUE
    if t.op == 'ite' and depth:
        x, y = none_when(t.a[1], depth - 1), none_when(t.a[2], depth - 1)
        if x is FALSE and y is FALSE:
            return FALSE
        return Or(And(t.a[0], x), And(Not(t.a[0]), y))
    return FALSE


class Out(object):
    __slots__ = ('kind', 'cond', 'st', 'val', 'exc')

    def __init__(self, kind, cond, st, val=None, exc=None):
        self.kind, self.cond, self.st, self.val, self.exc = kind, cond, st, val, exc


SEQ_FIELDS = {('list', 'seq'), ('elem', 'ch'), ('log', 'seq'), ('set', 'seq')}


class Program(object):
    """All modules of one package directory (or one spec file set)."""

    def __init__(self, paths, cuts=None):
        self.paths = paths          # modname -> file path
        self.src = {}
        self.trees = {}
        for m, p in paths.items():
            with open(p, encoding='utf-8') as f:
                s = f.read()
            self.src[m] = s
            self.trees[m] = ast.parse(s, p)


class Unsupported(Exception):
    pass


CACHES = ('functools.lru_cache', 'functools.cache', 'lru_cache', 'cache', 'functools.wraps', 'wraps')
READING = frozenset(['count', 'index', 'copy', 'get', 'keys', 'items', 'values', 'find', 'findall', 'findtext', 'iter', 'itertext', 'iterfind', 'union',
                     'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'getchildren', 'join', 'format',
                     'startswith', 'endswith', '__len__', '__contains__', '__iter__', '__getitem__', '__str__', '__repr__'])


class Interp(object):
    MAX_INLINE = 40
    UNROLL = 64

    def __init__(self, program, cuts=()):
        self.p = program
        self.funcs = {}
        self.classes = {}       # 'mod:Name' -> info dict
        self.next_obj = 1
        self.inline_stack = []
        self.loopdepth = 0
        self.try_stack = []     # list of booleans (non-empty: exceptions are observable)
        self.collectors = []
        self.eguard = []
        self.cuts = set(cuts)
        self.child_class = None     # class whose nested instances are cut points
        self.cut_children = False
        self.unsupported = []       # (reason, module, line)
        self.curnode = None
        self.curmod = None
        self.analysed_functions = set()
        self.analysed_stmts = set()
        self.call_sites = set()
        self.loops_seen = set()
        self.unbphi = set()         # values of variables that are not assigned before the loop
        self.heap0 = {}
        self.st0 = State({}, {'LOG': Obj('log', {'seq': EMPTY}), 'OBL': Obj('log', {'seq': EMPTY})})
        self.modobj = {}
        self.elem_class = None
        self.loading = set()
        for m in program.trees:
            self.load_module(m)
        self.rng = 0

    # ------------------------------------------------------------ heap utils
    def alloc(self, st, obj):
        i = self.next_obj
        self.next_obj += 1
        st.heap[i] = obj
        return raw('ref', i)

    def obj(self, st, t):
        return st.heap.get(t.a[0])

    def setf(self, st, t, field, val):
        o = st.heap[t.a[0]].copy()
        o.f[field] = val
        st.heap[t.a[0]] = o

    def log(self, st, which, term):
        o = st.heap[which].copy()
        o.f['seq'] = self.seq_append(o.f['seq'], term)
        st.heap[which] = o

    def seq_append(self, s, v):
        if s.op != 'gs':
            s = gs(raw('gx', TRUE, s))
        return gs(*(s.a + (gi(TRUE, v),)))

    def seq_extend(self, s, o):
        if s.op != 'gs':
            s = gs(raw('gx', TRUE, s))
        if o.op == 'gs':
            return gs(*(s.a + o.a))
        k = gs_known(o)
        if k is not None:
            return gs(*(s.a + tuple(gi(TRUE, x) for x in k)))
        return gs(*(s.a + (raw('gx', TRUE, o),)))

    def note(self, reason):
        line = getattr(self.curnode, 'lineno', 0)
        self.unsupported.append((reason, self.curmod, line))

    def give_up(self, reason):
        """a construct whose effect on the state is not modelled"""
        self.note(reason)
        raise Unsupported('%s at %s.py:%s' % (reason, self.curmod, getattr(self.curnode, 'lineno', 0)))

    def opaque(self, reason):
        self.note(reason)
        return raw('opaque', reason, self.curmod or '', getattr(self.curnode, 'lineno', 0), getattr(self.curnode, 'col_offset', 0))

    # ------------------------------------------------------------ modules
    def load_module(self, m, st=None):
        if m in self.modobj or m in self.loading:
            return
        self.loading.add(m)
        if st is None:
            st = self.st0
        ref = self.alloc(st, Obj('ns', {'__name__': C('jpylyzer.' + m)}, m))
        self.modobj[m] = ref
        ms = State({}, st.heap)
        save = self.curmod
        self.curmod = m
        ms.vars = _NSVars(self, ms, ref)
        n, _ = self.exec_block(self.p.trees[m].body, ms)
        st.heap = (n or ms).heap
        self.curmod = save
        self.loading.discard(m)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state equal to a when c holds, else b"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a.vars, _NSVars):
            vars_ = a.vars
        else:
            vars_ = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                x = a.vars.get(k, UNBOUND)
                y = b.vars.get(k, UNBOUND)
                vars_[k] = x if x is y else self.mite(c, x, y)
        heap = dict(b.heap)
        for i, o in a.heap.items():
            p = b.heap.get(i)
            if p is None:
                heap[i] = o
            elif p is not o:
                heap[i] = self.merge_obj(c, o, p)
        r = State(vars_, heap)
        if isinstance(vars_, _NSVars):
            r.vars = vars_.rebind(r)
        return r

    def mite(self, c, x, y):
        return ite(c, x, y)

    def merge_obj(self, c, o, p):
        n = Obj(o.kind, {}, o.cls)
        for k in list(o.f) + [k for k in p.f if k not in o.f]:
            x = o.f.get(k, UNBOUND)
            y = p.f.get(k, UNBOUND)
            if x is y:
                n.f[k] = x
            elif (o.kind, k) in SEQ_FIELDS:
                n.f[k] = gs_merge(c, x, y)
            elif k == 'm':
                n.f[k] = map_merge(c, x, y)
            else:
                n.f[k] = ite(c, x, y)
        return n

    # ------------------------------------------------------------ resolution
    def resolve(self, t, heap, mark=0, memo=None):
        """replace references to heap objects (id >= mark) by structural terms"""
        if memo is None:
            memo = {}
        return self._resolve(t, heap, mark, memo)

    def _resolve(self, t, heap, mark, memo):
        if isinstance(t, tuple):
            return tuple(self._resolve(x, heap, mark, memo) for x in t)
        if not isinstance(t, T):
            return t
        if t in memo:
            return memo[t]
        if t.op == 'ref':
            if t.a[0] < mark:
                memo[t] = t
                return t
            memo[t] = raw('cyc')
            o = heap.get(t.a[0])
            if o is None:
                r = raw('dangling')
            elif o.kind in ('list',):
                r = self._resolve(o.f['seq'], heap, mark, memo)
            elif o.kind == 'set':
                r = raw('setof', self._resolve(o.f['seq'], heap, mark, memo))
            elif o.kind == 'dict':
                r = self._resolve(o.f['m'], heap, mark, memo)
            elif o.kind == 'elem':
                r = raw('elem', self._resolve(o.f['tag'], heap, mark, memo),
                        self._resolve(o.f['text'], heap, mark, memo),
                        self._resolve(o.f['attrib'], heap, mark, memo),
                        self._resolve(o.f['ch'], heap, mark, memo))
            elif o.kind == 'childinst':
                r = o.f['t'] if o.f['v'] is TRUE else ite(o.f['v'], o.f['t'], raw('newchild', *o.f['t'].a))
                r = self._resolve(r, heap, mark, memo)
            elif o.kind == 'inst':
                r = raw('inst', o.cls, tuple((k, self._resolve(v, heap, mark, memo)) for k, v in sorted(o.f.items())))
            else:
                r = t
            memo[t] = r
            return r
        if t.op in ('c', 'atom', 'unbound', 'fn', 'cls', 'mod', 'ext', 'bi'):
            memo[t] = t
            return t
        na = tuple(self._resolve(x, heap, mark, memo) for x in t.a)
        if all(x is y or x == y for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
        if r.op == 'gs':
            r = gs_canon(r)
        memo[t] = r
        return r

    def data(self, t, st):
        """term denoting the current contents of t (references dereferenced)"""
        if t.op == 'ref':
            return self.resolve(t, st.heap)
        if t.op in ('c', 'atom'):
            return t
        if contains_ref(t):
            return self.resolve(t, st.heap)
        return t

    # ------------------------------------------------------------ exceptions
    def partial(self, st, term, types):
        """term may raise one of the exception classes in types (None = any)."""
        g = And(*self.eguard) if self.eguard else TRUE
        if g is FALSE:
            return
        if term.op == 'c':
            return
        if self.try_stack:
            out = Out('exc', And(g, mk_raises(term)), st.copy(), term, types)
            self.collectors[-1].append(out)
        else:
            o = st.heap['OBL'].copy()
            s = o.f['seq']
            line = getattr(self.curnode, 'lineno', 0)
            o.f['seq'] = gs(*(s.a + (gi(g, raw('obl', term, types or ('*',), self.curmod or '', line, self.curfunc())),)))
            st.heap['OBL'] = o

    def curfunc(self):
        return self.inline_stack[-1].name if self.inline_stack else '<module>'

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        outs = []
        live = TRUE
        for s in stmts:
            if st is None:
                break
            nst, o = self.exec_stmt(s, st)
            if o:
                dead = FALSE
                for x in o:
                    c = And(live, x.cond)
                    dead = Or(dead, x.cond)
                    if c is not FALSE:
                        x.cond = c
                        outs.append(x)
                live = And(live, Not(dead))
                if live is FALSE:
                    nst = None
            st = nst
        return st, outs

    def exec_stmt(self, s, st):
        self.curnode = s
        self.analysed_stmts.add((self.curmod, getattr(s, 'lineno', 0)))
        self.collectors.append([])
        save_g = self.eguard
        self.eguard = []
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.give_up('statement ' + type(s).__name__)
            else:
                r = m(s, st)
        finally:
            self.eguard = save_g
            pend = self.collectors.pop()
        nst, outs = r
        if pend:
            res = []
            live = TRUE
            for x in pend:
                c = And(live, x.cond)
                live = And(live, Not(x.cond))
                if c is not FALSE:
                    x.cond = c
                    res.append(x)
            for x in outs:
                x.cond = And(live, x.cond)
                if x.cond is not FALSE:
                    res.append(x)
            outs = res
        return nst, outs

    def s_Pass(self, s, st):
        return st, []

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st, []
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st)
        r = self.ev(s.value, st)
        if r is ABORT:
            return None, self.take_abort()
        return st, []

    def do_yield(self, node, st):
        g = st.vars.get('$gen')
        if isinstance(node, ast.YieldFrom):
            v = self.ev(node.value, st)
            sq = self.as_seq(v, st)
            o = st.heap[g.a[0]].copy()
            o.f['seq'] = self.seq_extend(o.f['seq'], sq)
            st.heap[g.a[0]] = o
        else:
            v = self.ev(node.value, st) if node.value is not None else NONE
            self.list_append(st, g, v)
        return st, []

    def take_abort(self):
        a = self.aborts
        self.aborts = []
        return a

    aborts = []

    def s_Assign(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.give_up('yield expression value')
        v = self.ev(s.value, st)
        if v is ABORT:
            return None, self.take_abort()
        for t in s.targets:
            self.assign(t, v, st)
        return st, []

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v is ABORT:
                return None, self.take_abort()
            self.assign(s.target, v, st)
        return st, []

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr_(self.ev(t.value, st), t.attr, st)
        else:
            cur = self.ev(ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t), st)
        v = self.ev(s.value, st)
        if v is ABORT or cur is ABORT:
            return None, self.take_abort()
        if isinstance(s.op, ast.Add) and cur.op == 'ref' and self.obj(st, cur).kind == 'list':
            sq = self.as_seq(v, st)
            o = st.heap[cur.a[0]].copy()
            o.f['seq'] = self.seq_extend(o.f['seq'], sq)
            st.heap[cur.a[0]] = o
            return st, []
        r = self.binop(s.op, cur, v, st)
        self.assign(t, r, st)
        return st, []

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            gl = st.vars.get('$globals')
            if gl is not None and t.id in gl.a:
                ref = self.modobj[self.curmod]
                self.setf(st, ref, t.id, v)
                self.log(st, 'LOG', raw('eff', 'global.set', C(self.curmod + '.' + t.id), self.data(v, st)))
                return
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack_seq(v, n, st, star)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name):
                self.own_list(t.value.id, st)
            b = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and t.slice.step is None and b.op == 'ref' and self.obj(st, b).kind == 'list':
                    q = self.as_seq(v, st)
                    self.setf(st, b, 'seq', q if q.op == 'gs' else gs(raw('gx', TRUE, q)))
                    return
                self.note('slice assignment')
                self.list_opaque(b, st)
                return
            k = self.ev(t.slice, st)
            self.setitem(b, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.give_up('assign target')

    def unpack_seq(self, v, n, st, star):
        if v.op == 'ite':
            a = self.unpack_seq(v.a[1], n, st, star)
            b = self.unpack_seq(v.a[2], n, st, star)
            return [ite(v.a[0], x, y) for x, y in zip(a, b)]
        s = self.as_seq(v, st)
        k = gs_known(s)
        if k is not None:
            if star:
                i = star[0]
                j = len(k) - (n - i - 1)
                mid = self.new_list(st, gs(*[gi(TRUE, x) for x in k[i:j]]))
                return k[:i] + [mid] + k[j:]
            if len(k) == n:
                return k
        if star:
            return [self.opaque('starred unpack') for _ in range(n)]
        return [index(s, C(i)) for i in range(n)]

    def setitem(self, b, k, v, st):
        if b.op == 'ref':
            o = self.obj(st, b)
            if o.kind == 'dict':
                self.setf(st, b, 'm', map_put(o.f['m'], self.data(k, st), v))
                return
            if o.kind == 'list':
                kn = gs_known(o.f['seq'])
                if kn is not None and k.op == 'c' and -len(kn) <= cv(k) < len(kn):
                    kn[cv(k)] = v
                    self.setf(st, b, 'seq', gs(*[gi(TRUE, x) for x in kn]))
                else:
                    self.partial(st, raw('index', o.f['seq'], k), ('IndexError',))
                    self.setf(st, b, 'seq', gs(raw('gx', TRUE, raw('lput', o.f['seq'], k, self.data(v, st)))))
                return
        self.log(st, 'LOG', raw('eff', 'setitem', self.data(b, st), self.data(k, st), self.data(v, st)))

    def own_list(self, name, st):
        """a list some call returned, about to be changed: from here on a list of our own"""
        v = st.vars.get(name)
        if v is not None and v.op != 'ref' and listy(v):
            st.vars[name] = self.new_list(st, gs(raw('gx', TRUE, v)))

    def list_opaque(self, b, st):
        if b.op == 'ref' and self.obj(st, b).kind == 'list':
            self.setf(st, b, 'seq', gs(raw('gx', TRUE, self.opaque('list op'))))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                if isinstance(t.value, ast.Name) and b.op not in ('mcall', 'call', 'slice', 'ref') or isinstance(t.slice, ast.Slice):
                    if isinstance(t.value, ast.Name):
                        self.own_list(t.value.id, st)
                    b = self.ev(t.value, st)
                if b.op == 'ref':
                    o = self.obj(st, b)
                    if o.kind == 'list' and not isinstance(t.slice, ast.Slice):
                        k = self.ev(t.slice, st)
                        kn = gs_known(o.f['seq'])
                        if kn is not None and k.op == 'c' and -len(kn) <= cv(k) < len(kn):
                            del kn[cv(k)]
                            self.setf(st, b, 'seq', gs(*[gi(TRUE, x) for x in kn]))
                        elif is_const(k, 0):
                            self.partial(st, raw('index', o.f['seq'], k), ('IndexError',))
                            self.setf(st, b, 'seq', gs(raw('gx', TRUE, slice_(o.f['seq'], C(1), NONE))))
                        else:
                            self.list_opaque(b, st)
                        continue
                    if o.kind == 'list' and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                        self.setf(st, b, 'seq', EMPTY)
                        continue
                    if o.kind == 'list':
                        self.list_opaque(b, st)
                        continue
                    if o.kind == 'dict':
                        k = self.ev(t.slice, st)
                        self.setf(st, b, 'm', raw('mdel', o.f['m'], k))
                        continue
                if isinstance(t.value, ast.Name) and b.op in ('mcall', 'call', 'slice') and not isinstance(t.slice, ast.Slice) and \
                        is_const(self.ev(t.slice, st), 0):
                    # fresh list: the rest of it
                    self.partial(st, raw('index', b, ZERO), ('IndexError',))
                    st.vars[t.value.id] = slice_(b, C(1), NONE)
                    continue
                self.give_up('del')
            else:
                self.give_up('del')
        return st, []

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if v is ABORT:
            return None, self.take_abort()
        return None, [Out('ret', TRUE, st, v)]

    def s_Break(self, s, st):
        return None, [Out('brk', TRUE, st)]

    def s_Continue(self, s, st):
        return None, [Out('cnt', TRUE, st)]

    def s_Global(self, s, st):
        cur = st.vars.get('$globals')
        st.vars['$globals'] = raw('names', *(tuple(cur.a if cur else ()) + tuple(s.names)))
        return st, []

    def s_Nonlocal(self, s, st):
        self.give_up('nonlocal')
        return st, []

    def s_Assert(self, s, st):
        c = truth(self.ev(s.test, st))
        if c is TRUE:
            return st, []
        bad = st.copy()
        return st, [Out('exc', Not(c), bad, raw('raise', 'AssertionError'), ('AssertionError',))]

    def s_Raise(self, s, st):
        name = 'Exception'
        val = None
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            t = self.ev(e, st)
            if t.op in ('exc',):
                name = t.a[0]
            elif t.op == 'cls':
                name = t.a[0]
            elif t.op == 'ext':
                name = t.a[0]
            else:
                val = t
        else:
            cur = st.vars.get('$exc')
            if cur is not None:
                return None, [Out('exc', TRUE, st, cur, None)]
        if val is not None:
            return None, [Out('exc', TRUE, st, val, None)]
        return None, [Out('exc', TRUE, st, raw('raise', name), (name,))]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.vars[a.asname] = self.module_term(a.name, st)
            else:
                top = a.name.split('.')[0]
                st.vars[top] = self.module_term(top, st)
        return st, []

    def module_term(self, name, st=None):
        if name.startswith('jpylyzer.') and name.split('.')[1] in self.p.trees:
            m = name.split('.')[1]
            self.load_module(m, st)
            return raw('mod', m)
        return raw('ext', name)

    def s_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            if s.level or (s.module or '').split('.')[0] == 'jpylyzer':
                mod = (s.module or '')
                if mod.startswith('jpylyzer'):
                    mod = mod[len('jpylyzer'):].lstrip('.')
                if mod:
                    if mod in self.p.trees:
                        self.load_module(mod, st)
                        st.vars[nm] = self.getattr_(raw('mod', mod), a.name, st)
                    else:
                        st.vars[nm] = raw('ext', mod + '.' + a.name)
                elif a.name in self.p.trees:
                    self.load_module(a.name, st)
                    st.vars[nm] = raw('mod', a.name)
                else:
                    st.vars[nm] = raw('ext', 'jpylyzer.' + a.name)
            elif s.module == '__future__':
                pass
            else:
                st.vars[nm] = raw('ext', s.module + '.' + a.name)
        return st, []

    def s_FunctionDef(self, s, st):
        st.vars[s.name] = self.make_func(s, st)
        return st, []

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, st, cls=None):
        deco = []
        for d in getattr(node, 'decorator_list', ()):
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, (ast.Name, ast.Attribute)):
                deco.append(ast.unparse(f))
            else:
                deco.append('?')
        key = '%s:%s:%d:%d' % (self.curmod, getattr(node, 'name', '<lambda>'), node.lineno, node.col_offset)
        closure = None
        if isinstance(st.vars, dict):
            closure = dict(st.vars)
        # defaults evaluated now
        dfl = []
        for d in node.args.defaults:
            dfl.append(self.ev(d, st))
        kwd = []
        for d in node.args.kw_defaults:
            kwd.append(None if d is None else self.ev(d, st))
        fi = FuncInfo(key, self.curmod, node, cls, closure, tuple(deco))
        fi.defaults, fi.kwdefaults = dfl, kwd
        if closure is not None:
            key = key + '#%d' % len(self.funcs)
        fi.key = key
        self.funcs[key] = fi
        return raw('fn', key)

    def s_ClassDef(self, s, st):
        key = '%s:%s' % (self.curmod, s.name)
        bases = [self.ev(b, st) for b in s.bases]
        info = {'name': s.name, 'module': self.curmod, 'bases': bases, 'node': s}
        self.classes[key] = info
        ref = self.alloc(st, Obj('ns', {}, key))
        info['ns'] = ref
        cs = State({}, st.heap)
        cs.vars = _NSVars(self, cs, ref)
        cs.vars.parent = st.vars
        n, _ = self.exec_block(s.body, cs)
        st.heap = (n or cs).heap
        for k, v in st.heap[ref.a[0]].f.items():
            if v.op == 'fn':
                self.funcs[v.a[0]].cls = key
        st.vars[s.name] = raw('cls', key)
        if any(b.op == 'ext' and b.a[0] == 'xml.etree.ElementTree.Element' for b in bases):
            self.elem_class = key
            self.patched = set(n.name for n in s.body if isinstance(n, ast.FunctionDef))
            ELEMENT_ATTRS.update(self.patched)
        return st, []

    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        if v is ABORT:
            return None, self.take_abort()
        name = '$match%d' % s.lineno
        st.vars[name] = v
        subj = ast.Name(name, ast.Load())
        chain = []
        for case in reversed(s.cases):
            test, binds = self.pattern(case.pattern, subj)
            body = list(case.body)
            if case.guard is not None:
                if binds:
                    self.give_up('pattern with guard')
                test = case.guard if test is None else ast.BoolOp(ast.And(), [test, case.guard])
            body = [ast.Assign([ast.Name(b, ast.Store())], subj) for b in binds] + body
            chain = body if test is None else [ast.If(test, body, chain)]
            for x in chain:
                for y in ast.walk(x):
                    ast.copy_location(y, case.body[0]) if not hasattr(y, 'lineno') and 'lineno' in getattr(y, '_attributes', ()) else None
        return self.exec_block(chain, st)

    def pattern(self, p, subj):
        """(condition or None, names bound to the subject)"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return None, [p.name] if p.name else []
            t, b = self.pattern(p.pattern, subj)
            return t, b + [p.name]
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(x, subj) for x in p.patterns]
            if any(b for t, b in ts):
                self.give_up('pattern')
            if any(t is None for t, b in ts):
                return None, []
            return ast.BoolOp(ast.Or(), [t for t, b in ts]), []
        self.give_up('pattern ' + type(p).__name__)

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        if c is ABORT:
            return None, self.take_abort()
        c = self.truthy(c, st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        if isinstance(st.vars, _NSVars):
            # module level conditional: take the body when it is not a main guard
            t = ast.dump(s.test)
            if '__main__' in t:
                return st, []
        s1 = st.copy()
        s2 = st.copy()
        self.narrow(s.test, c, True, s1)
        self.narrow(s.test, c, False, s2)
        n1, o1 = self.exec_block(s.body, s1)
        n2, o2 = self.exec_block(s.orelse, s2)
        outs = []
        for x in o1:
            x.cond = And(c, x.cond)
            if x.cond is not FALSE:
                outs.append(x)
        for x in o2:
            x.cond = And(Not(c), x.cond)
            if x.cond is not FALSE:
                outs.append(x)
        if n1 is None and n2 is None:
            return None, outs
        if n1 is None:
            n = n2
        elif n2 is None:
            n = n1
        else:
            n = self.merge(c, n1, n2)
        return n, outs

    def narrow(self, test, c, val, st):
        """simplify variables that are ite-terms under the branch condition"""
        if isinstance(st.vars, _NSVars):
            return
        for k, v in list(st.vars.items()):
            if isinstance(v, T) and v.op == 'ite':
                n = assume(v, c if val else Not(c), True)
                if n is not v:
                    st.vars[k] = n

    def truthy(self, v, st):
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.kind == 'list' or o.kind == 'set':
                return truth(o.f['seq'])
            if o.kind == 'dict':
                return truth_map(o.f['m'])
            if o.kind == 'elem':
                return truth(length(o.f['ch']))
            return TRUE
        if v.op == 'ite':
            return ite(v.a[0], self.truthy(v.a[1], st), self.truthy(v.a[2], st))
        return truth(v)

    def s_With(self, s, st):
        for it in s.items:
            cm = self.ev(it.context_expr, st)
            if cm is ABORT:
                return None, self.take_abort()
            cmd = self.data(cm, st)
            self.log(st, 'LOG', raw('eff', 'with.enter', cmd))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, raw('entered', cmd) if cmd.op != 'call' else cm, st)
        n, outs = self.exec_block(s.body, st)
        for it in reversed(s.items):
            if n is not None:
                self.log(n, 'LOG', raw('eff', 'with.exit'))
            for o in outs:
                self.log(o.st, 'LOG', raw('eff', 'with.exit'))
        return n, outs

    # ------------------------------------------------------------ try
    def s_Try(self, s, st):
        self.try_stack.append(True)
        n, outs = self.exec_block(s.body, st)
        self.try_stack.pop()
        if n is not None and s.orelse:
            n, o2 = self.exec_block(s.orelse, n)
            dead = FALSE
            for x in outs:
                dead = Or(dead, x.cond)
            for x in o2:
                x.cond = And(Not(dead), x.cond)
            outs = outs + o2
        res = [x for x in outs if x.kind != 'exc']
        excs = [x for x in outs if x.kind == 'exc']
        handled_states = []     # (cond, state)
        for h in s.handlers:
            names = self.handler_types(h, st)
            caught, rest = [], []
            for x in excs:
                full, part = self.catch(x, names)
                if full:
                    caught.append(x)
                elif part is None:
                    rest.append(x)
                else:
                    base = x.cond
                    c1 = self.replace_raise(base, x.val, part)
                    caught.append(Out('exc', c1, x.st.copy(), x.val, names))
                    x.cond = And(base, Not(part))
                    rest.append(x)
            excs = rest
            if not caught:
                continue
            hc = FALSE
            hs = None
            for x in reversed(caught):
                hs = x.st if hs is None else self.merge(x.cond, x.st, hs)
                hc = Or(hc, x.cond)
            ev_ = caught[-1].val
            for x in reversed(caught[:-1]):
                ev_ = ite(x.cond, x.val, ev_)
            hs = hs.copy()
            if h.name:
                hs.vars[h.name] = raw('excval', ev_)
            hs.vars['$exc'] = ev_
            hn, ho = self.exec_block(h.body, hs)
            if hn is not None:
                hn.vars.pop('$exc', None)
                hex_ = FALSE
                for x in ho:
                    hex_ = Or(hex_, x.cond)
                handled_states.append((And(hc, Not(hex_)), hn))
            for x in ho:
                x.cond = And(hc, x.cond)
                res.append(x)
        res += excs
        for c, hstate in handled_states:
            n = hstate if n is None else self.merge(c, hstate, n)
        if s.finalbody:
            if n is not None:
                n, fo = self.exec_block(s.finalbody, n)
                dead = FALSE
                for x in res:
                    dead = Or(dead, x.cond)
                for x in fo:
                    x.cond = And(Not(dead), x.cond)
                extra = fo
            else:
                extra = []
            nres = []
            for x in res:
                fs, fo = self.exec_block(s.finalbody, x.st)
                for y in fo:
                    y.cond = And(x.cond, y.cond)
                    nres.append(y)
                if fs is not None:
                    x.st = fs
                    nres.append(x)
            res = nres + extra
        return n, res

    s_TryStar = s_Try

    def replace_raise(self, cond, term, part):
        return And(cond, part)

    def handler_types(self, h, st):
        if h.type is None:
            return ('BaseException',)
        t = self.ev(h.type, st)
        ts = list(t.a) if t.op == 'tuple' else [t]
        out = []
        for x in ts:
            if x.op == 'exc':
                out.append(x.a[0])
            elif x.op == 'ext':
                out.append(x.a[0])
            else:
                out.append('?')
        return tuple(out)

    def catch(self, x, names):
        """-> (fully caught, partial condition)"""
        if '?' in names:
            return False, raw('raises_as', x.val, names)
        if x.exc is None:
            if any(n in ('BaseException', 'Exception') for n in names):
                return True, None
            return False, raw('raises_as', x.val, names)
        cov = [any(exc_sub(e, n) for n in names) for e in x.exc]
        if all(cov):
            return True, None
        if not any(cov):
            # handler could still catch a subclass of a declared type
            if any(exc_sub(n, e) for n in names for e in x.exc):
                return False, raw('raises_as', x.val, names)
            return False, None
        return False, raw('raises_as', x.val, names)

    # ------------------------------------------------------------ loops
    def s_While(self, s, st):
        def head(ls):
            c = self.ev(s.test, ls)
            return self.truthy(c, ls)
        return self.exec_loop(s, st, None, head, None, s.body, s.orelse)

    def s_For(self, s, st):
        lazy = self.lazy_loop(s, st)
        if lazy is not None:
            return self.exec_block(lazy, st)
        it = self.ev(s.iter, st)
        if it is ABORT:
            return None, self.take_abort()
        if it.op == 'call' and it.a[0] == 'os.walk':
            it = self.guided(s, it, st)
        return self.iterate(s, it, st, s.target, s.body, s.orelse)

    def guided(self, s, it, st):
        """os.walk descends into what the loop body leaves in the list of directories"""
        t = s.target
        if not (isinstance(t, ast.Tuple) and len(t.elts) == 3 and isinstance(t.elts[1], ast.Name)):
            return it
        name = t.elts[1].id
        if not any(isinstance(x, ast.Name) and x.id == name and (
                isinstance(p, ast.Attribute) and p.attr in LIST_CHANGES or isinstance(p, ast.Subscript) and not isinstance(p.ctx, ast.Load))
                for b in s.body for p in ast.walk(b) for x in ast.iter_child_nodes(p)):
            return it
        ps = st.copy()
        saved = (self.collectors, self.eguard, self.try_stack)
        self.collectors, self.eguard, self.try_stack = [[]], [], []
        try:
            vals = [atom('$top', 'str'), None, None]
            vals[1] = self.new_list(ps, gs(raw('gx', TRUE, atom('$dirs'))))
            vals[2] = self.new_list(ps, gs(raw('gx', TRUE, atom('$files'))))
            for e, v in zip(t.elts, vals):
                self.assign(e, v, ps)
            n, outs = self.exec_block(s.body, ps)
            n, outs = self.fold_cnt(n, outs)
        finally:
            self.collectors, self.eguard, self.try_stack = saved
        if n is None:
            return it
        left = self.resolve(self.obj(n, vals[1]).f['seq'], n.heap)
        return raw('call', 'os.walk', *(it.a[1:] + (raw('kw', '$select', raw('quote', left)),)))

    def lazy_loop(self, s, st):
        """'for x in map(f, xs)' and 'for x in (e for y in ys)' as the plain loops they amount to"""
        k = s.iter
        if s.orelse:
            return None
        if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'map' and len(k.args) == 2 and not k.keywords \
                and not isinstance(k.args[1], ast.Starred) and self.is_builtin('map', st):
            v = '$m%d' % s.lineno
            call = ast.Call(func=k.args[0], args=[ast.Name(id=v, ctx=ast.Load())], keywords=[])
            first = ast.Assign(targets=[s.target], value=call)
            n = ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=k.args[1], body=[first] + s.body, orelse=[])
        elif isinstance(k, ast.GeneratorExp) and len(k.generators) == 1:
            g = k.generators[0]
            names = set(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            ren = dict((x, '$g%d%s' % (s.lineno, x)) for x in names)

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.copy_location(ast.Name(id=ren.get(n.id, n.id), ctx=n.ctx), n)
            r = R()
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr))
                   for y in [k.elt] + g.ifs for x in ast.walk(y)):
                return None
            cp = lambda x: r.visit(copymod.deepcopy(x))
            body = [ast.Assign(targets=[s.target], value=cp(k.elt))] + s.body
            for c in reversed(g.ifs):
                body = [ast.If(test=cp(c), body=body, orelse=[])]
            n = ast.For(target=cp(g.target), iter=g.iter, body=body, orelse=[])
        else:
            return None
        ast.copy_location(n, s)
        ast.fix_missing_locations(n)
        return [n]

    def is_builtin(self, name, st):
        v = self.ev(ast.Name(id=name, ctx=ast.Load()), st)
        return v is not ABORT and v.op == 'bi'

    def changed(self, old, st):
        """something that existed before was changed (obligations aside)"""
        for k, o in old.items():
            n = st.heap.get(k)
            if n is o or k == 'OBL' or n is None:
                continue
            if n.kind != o.kind or n.f.keys() != o.f.keys() or any(n.f[x] is not o.f[x] for x in o.f):
                return True
        return False

    def comp_loop(self, gens, elt, st, more=None):
        """a comprehension whose parts have effects: the loop it stands for"""
        vars_ = dict(st.vars) if isinstance(st.vars, dict) else dict(st.vars.flat())
        vars_.update(more or {})
        cs = State(vars_, st.heap)
        gen = self.new_list(cs, EMPTY)
        cs.vars['$gen'] = gen
        body = [ast.Expr(value=ast.Yield(value=elt))]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.copy_location(b, self.curnode) if hasattr(self.curnode, 'lineno') else None
            b.lineno = getattr(b, 'lineno', 0)
            b.col_offset = 0
            ast.fix_missing_locations(b)
        saveg, self.eguard = self.eguard, []
        try:
            n, outs = self.exec_block(body, cs)
        finally:
            self.eguard = saveg
        g = And(*self.eguard) if self.eguard else TRUE
        for x in outs:
            if x.kind != 'exc':
                self.give_up('comprehension leaves')
            x.cond = And(g, x.cond)
            if x.cond is FALSE:
                continue
            x.st = State(st.vars if isinstance(st.vars, _NSVars) else dict(st.vars), x.st.heap)
            self.collectors[-1].append(x) if self.collectors else None
        if n is None:
            return ABORT
        st.heap = n.heap
        return gen

    def iterate(self, s, it, st, target, body, orelse):
        segs = self.segments(it, st)
        # segs: list of ('one', guard, value) | ('many', guard, desc-like, elemfn)
        outs = []
        live = TRUE
        broken = []     # (cond, state) break exits
        for seg in segs:
            if st is None:
                break
            if seg[0] == 'one':
                g, v = seg[1], seg[2]
                s1 = st if g is TRUE else st.copy()
                self.assign(target, v, s1)
                n, o = self.exec_block(body, s1)
                n, o = self.fold_cnt(n, o)
                if g is not TRUE:
                    for x in o:
                        x.cond = And(g, x.cond)
                    n = self.merge(g, n, st) if n is not None else st
                    # note: when body always leaves under g the rest is guarded by not g
                dead = FALSE
                for x in o:
                    dead = Or(dead, x.cond)
                    x.cond = And(live, x.cond)
                    if x.cond is FALSE:
                        continue
                    if x.kind == 'brk':
                        broken.append((x.cond, x.st))
                    else:
                        outs.append(x)
                live = And(live, Not(dead))
                st = n if live is not FALSE else None
            else:
                n, o = self.exec_loop(s, st, seg, None, target, body, None)
                dead = FALSE
                for x in o:
                    dead = Or(dead, x.cond)
                    x.cond = And(live, x.cond)
                    if x.cond is FALSE:
                        continue
                    if x.kind == 'brk':
                        broken.append((x.cond, x.st))
                    else:
                        outs.append(x)
                live = And(live, Not(dead))
                st = n if live is not FALSE else None
        if orelse and st is not None:
            st, o = self.exec_block(orelse, st)
            for x in o:
                x.cond = And(live, x.cond)
                outs.append(x)
        for c, bs in broken:
            st = bs if st is None else self.merge(c, bs, st)
        return st, outs

    def fold_cnt(self, n, outs):
        rest = []
        for x in outs:
            if x.kind == 'cnt':
                n = x.st if n is None else self.merge(x.cond, x.st, n)
            else:
                rest.append(x)
        return n, rest

    def segments(self, it, st):
        """decompose an iterable into unrollable items and symbolic segments"""
        if it.op == 'ref':
            o = self.obj(st, it)
            if o.kind in ('list', 'set'):
                return self.segments(o.f['seq'], st)
            if o.kind == 'dict':
                ks = map_keys(o.f['m'])
                if ks is not None:
                    return [('one', TRUE, k) for k in ks]
                return [('many', TRUE, length(raw('keys', o.f['m'])), lambda i: index(raw('keys', o.f['m']), i), None)]
            if o.kind == 'elem':
                return self.segments(o.f['ch'], st)
            if o.kind == 'iter':
                return self.segments(o.f['seq'], st)
        if it.op == 'range':
            a, b, k = it.a
            if a.op == 'c' and b.op == 'c' and k.op == 'c' and all(isinstance(cv(x), int) for x in it.a):
                r = range(cv(a), cv(b), cv(k))
                if len(r) <= self.UNROLL:
                    return [('one', TRUE, C(v)) for v in r]
            if is_const(k, 1):
                trip = max0(sub(b, a))
            elif is_const(k, -1):
                trip = max0(sub(a, b))
            else:
                trip = length(it)
            return [('many', TRUE, trip, lambda i: add(a, mul(k, i)) if not is_const(k, 1) else add(a, i), None)]
        known = gs_known(it)
        if known is not None and len(known) <= 4096:
            return [('one', TRUE, k) for k in known]
        if it.op == 'gs':
            segs = []
            for x in it.a:
                if x.op == 'gi':
                    segs.append(('one', x.a[0], x.a[1]))
                elif x.op == 'gx':
                    for y in self.segments(x.a[1], st):
                        if y[0] == 'one':
                            segs.append(('one', And(x.a[0], y[1]), y[2]))
                        else:
                            segs.append(('many', And(x.a[0], y[1])) + y[2:])
                else:
                    # nested loop item
                    segs.append(('gl', x.a[0], x.a[1], x.a[2]))
            if all(z[0] == 'one' for z in segs):
                return segs
            if len(segs) == 1 and segs[0][0] == 'gl':
                _, g, desc, body = segs[0]
                if desc.op == 'cloop' and len(body.a) == 1 and body.a[0].op == 'gi' and body.a[0].a[0] is TRUE:
                    el = body.a[0].a[1]
                    d = desc.a[0]
                    return [('many', g, desc.a[1], lambda i, el=el, d=d: subst(el, {raw('idx', d): i}), None)]
            return [('many', TRUE, length(it), lambda i: index(it, i), None)]
        if it.op == 'zip':
            parts = [self.segments(x, st) for x in it.a]
            if all(all(z[0] == 'one' and z[1] is TRUE for z in p) for p in parts):
                n = min(len(p) for p in parts) if parts else 0
                return [('one', TRUE, raw('tuple', *[p[i][2] for p in parts])) for i in range(n)]
            fns = []
            trips = []
            for p, src in zip(parts, it.a):
                if len(p) == 1 and p[0][0] == 'many':
                    fns.append(p[0][3])
                    trips.append(p[0][2])
                else:
                    fns.append(lambda i, src=src: index(src, i))
                    trips.append(length(src))
            t = trips[0]
            for u in trips[1:]:
                if u is not t:
                    t = raw('call', 'min', t, u)
            return [('many', TRUE, t, lambda i: raw('tuple', *[f(i) for f in fns]), None)]
        if it.op == 'enumerate':
            src, start = it.a
            p = self.segments(src, st)
            if all(z[0] == 'one' for z in p):
                n = start
                out = []
                for z in p:
                    out.append(('one', z[1], raw('tuple', n, z[2])))
                    n = add(n, ite(z[1], C(1), ZERO))
                return out
            if len(p) == 1 and p[0][0] == 'many':
                f = p[0][3]
                return [('many', p[0][1], p[0][2], lambda i: raw('tuple', add(start, i), f(i)), None)]
            return [('many', TRUE, length(src), lambda i: raw('tuple', add(start, i), index(src, i)), None)]
        if it.op == 'ite':
            a, b = self.segments(it.a[1], st), self.segments(it.a[2], st)
            if all(z[0] == 'one' for z in a + b):
                return [('one', And(it.a[0], z[1]), z[2]) for z in a] + [('one', And(Not(it.a[0]), z[1]), z[2]) for z in b]
        if it.op == 'map' and it.a:
            ks = map_keys(it)
            if ks is not None:
                return [('one', TRUE, k) for k in ks]
        return [('many', TRUE, length(it), lambda i: index(it, i), None)]

    def assigned_names(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
                    out.append(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    pass
        return out

    def exec_loop(self, s, st, seg, head, target, body, orelse):
        """seg: ('many', guard, trip, elemfn) for counted loops, head() for while loops"""
        self.loops_seen.add((self.curmod, getattr(s, 'lineno', 0)))
        loopkey = (self.curmod, getattr(s, 'lineno', 0), self.curfunc())
        d = self.loopdepth
        idx = raw('idx', d)
        guard = TRUE
        trip = None
        if seg is not None:
            guard, trip = seg[1], seg[2]
            if guard is not TRUE:
                trip = ite(guard, trip, ZERO)
        names = self.assigned_names(body)
        if head is not None:
            for n in ast.walk(s.test):
                if isinstance(n, ast.NamedExpr) and n.target.id not in names:
                    names.append(n.target.id)
        if target is not None:
            for n in ast.walk(target):
                if isinstance(n, ast.Name) and n.id not in names:
                    names.append(n.id)
        if isinstance(st.vars, _NSVars):
            names = []
        gnames = st.vars.get('$globals') if isinstance(st.vars, dict) else None
        if gnames is not None:
            names = [n for n in names if n not in gnames.a]
        slots = {}      # slot -> headvalue
        inits = {}
        for n in names:
            inits[('v', n)] = st.vars.get(n, UNBOUND)
            slots[('v', n)] = raw('phi', d, 'v:' + n)
            if contains_any(inits[('v', n)], {UNBOUND}):
                self.unbphi.add(slots[('v', n)])
        fixed = {}      # slot -> closed form
        ncol = len(self.collectors)
        mark = self.next_obj
        nuns = len(self.unsupported)
        for attempt in range(12):
            del self.unsupported[nuns:]
            ls = st.copy()
            for sl, ph in slots.items():
                val = fixed.get(sl, ph)
                if sl[0] == 'v':
                    if val is UNBOUND:
                        ls.vars.pop(sl[1], None)
                    else:
                        ls.vars[sl[1]] = val
                else:
                    o = ls.heap[sl[1]].copy()
                    if (o.kind, sl[2]) in SEQ_FIELDS:
                        o.f[sl[2]] = gs(raw('gx', TRUE, val)) if val.op != 'gs' else val
                    else:
                        o.f[sl[2]] = val
                    ls.heap[sl[1]] = o
            base = ls.copy()
            self.loopdepth += 1
            cond = TRUE
            hpend = []
            if head is not None:
                self.collectors.append([])
                sg = self.eguard
                self.eguard = []
                cond = head(ls)
                self.eguard = sg
                hpend = self.collectors.pop()
            if target is not None:
                self.assign(target, seg[3](idx), ls)
            bn, outs = self.exec_block(body, ls)
            self.loopdepth -= 1
            for x in outs:
                x.cond = And(cond, x.cond)
            outs = [x for x in outs if x.cond is not FALSE]
            outs = list(hpend) + outs
            nxt, exits = self.fold_cnt(bn, [x for x in outs])
            # new modified heap slots
            changed = False
            ends = ([nxt] if nxt is not None else []) + [x.st for x in exits]
            for e in ends:
                for i, o in st.heap.items():
                    p = e.heap.get(i)
                    b0 = base.heap.get(i)
                    if p is b0 or p is None:
                        continue
                    for f in p.f:
                        if p.f[f] is not b0.f.get(f, UNBOUND) and ('h', i, f) not in slots:
                            inits[('h', i, f)] = o.f.get(f, UNBOUND)
                            slots[('h', i, f)] = raw('phi', d, 'h:%s:%s' % (i, f))
                            changed = True
            if changed:
                continue
            # classify
            steps = {}
            for sl in slots:
                steps[sl] = self.slot_val(nxt, sl, mark) if nxt is not None else None
            newfixed = dict(fixed)
            phis = set(slots.values())
            for sl, ph in slots.items():
                stp = steps[sl]
                isseq = sl[0] == 'h' and (st.heap[sl[1]].kind, sl[2]) in SEQ_FIELDS
                if isseq:
                    continue
                if sl in fixed:
                    continue
                if stp is None:
                    continue
                if stp is ph:
                    # unchanged on all continuing paths
                    newfixed[sl] = inits[sl]
                    continue
                dlt = sub_num(stp, ph)
                if dlt is not None and not contains_any(dlt, phis | {idx}) and ty(inits[sl]) in ('int', 'num') \
                        and (ty(dlt) in ('int', 'num')):
                    newfixed[sl] = add(inits[sl], mul(dlt, idx))
            if newfixed != fixed:
                fixed = newfixed
                continue
            # verify fixed
            bad = False
            for sl, v in list(fixed.items()):
                stp = steps[sl]
                if stp is None:
                    continue
                want = subst(v, {idx: add(idx, C(1))})
                if stp is not want:
                    del fixed[sl]
                    inits_ok = False
                    old = slots[sl]
                    slots[sl] = raw('phi', d, slots[sl].a[1] + "'")
                    if old in self.unbphi:
                        self.unbphi.add(slots[sl])
                    bad = True
            if bad:
                if attempt > 9:
                    break
                continue
            break
        else:
            self.give_up('loop did not stabilise')
        return self.finish_loop(s, st, d, idx, trip, cond, slots, fixed, inits, steps, exits, nxt, mark, orelse, loopkey)

    def slot_val(self, state, sl, mark):
        if sl[0] == 'v':
            v = state.vars.get(sl[1], UNBOUND)
        else:
            v = state.heap[sl[1]].f.get(sl[2], UNBOUND)
        return self.resolve(v, state.heap, mark) if v is not UNBOUND else v

    def finish_loop(self, s, st, d, idx, trip, cond, slots, fixed, inits, steps, exits, nxt, mark, orelse, loopkey):
        seqslots = [sl for sl in slots if sl[0] == 'h' and (st.heap[sl[1]].kind, sl[2]) in SEQ_FIELDS]
        # while loop -> counted loop
        if trip is None and not exits:
            tc = self.as_trip(cond, idx, set(slots[sl] for sl in slots if sl not in fixed))
            if tc is not None:
                trip = tc
                cond = TRUE
        counted = trip is not None
        # total per-iteration appended items (over all ends)
        deltas = {}
        for sl in seqslots:
            ph = slots[sl]
            ends = []
            for x in exits:
                ends.append((x.cond, self.slot_val(x.st, sl, mark)))
            cur = self.slot_val(nxt, sl, mark) if nxt is not None else None
            for c, v in reversed(ends):
                cur = v if cur is None else gs_merge(c, v, cur)
            if cur is None:
                cur = gs(raw('gx', TRUE, ph))
            deltas[sl] = cur
        # system of recurrences
        sysmap = {}     # phi term -> (init, step)
        for sl, ph in slots.items():
            if sl in fixed:
                continue
            stp = steps[sl]
            if stp is None:
                stp = ph
            ini = inits[sl]
            sysmap[ph] = (ini, stp)
        breaks = tuple(x.cond for x in exits)

        def canon(*roots):
            """-> (desc, mapped roots) pruned to what roots need"""
            need = []
            todo = [cond] + list(breaks) + list(roots)
            seen = set()
            while todo:
                t = todo.pop()
                for x in walk(t):
                    if x.op == 'phi' and x in sysmap and x not in seen:
                        seen.add(x)
                        need.append(x)
                        todo.append(sysmap[x][1])
            if not need and not breaks and counted:
                return raw('cloop', d, trip), roots
            # colours by refinement
            anon = {}
            for t in [cond] + list(breaks) + list(roots) + [y for p in need for y in sysmap[p]]:
                for x in walk(t):
                    if x.op == 'phi' and x not in seen:
                        anon[x] = raw('phi?', x.a[0])
            col = dict((p, raw('col', subst(sysmap[p][0], anon))) for p in need)
            for _ in range(len(need) + 1):
                m = dict(anon)
                m.update(col)
                col = dict((p, raw('col', col[p], subst(sysmap[p][1], m))) for p in need)
                if len(need) > 12 and _ > 4:
                    break
            order = sorted(need, key=lambda p: (col[p].dg, p.a[1]))
            # congruent phis collapse
            ren = {}
            reps = []
            for p in order:
                if reps and col[reps[-1]] is col[p]:
                    ren[p] = ren[reps[-1]]
                else:
                    ren[p] = raw('phi', d, len(reps))
                    reps.append(p)
            system = tuple((sysmap[p][0], subst(sysmap[p][1], ren)) for p in reps)
            desc = raw('loop', d, trip if counted else NONE, subst(cond, ren),
                       tuple(subst(b, ren) for b in breaks), system)
            return desc, tuple(subst(r, ren) for r in roots)

        after = st.copy()
        used = set()
        for sl in slots:
            for other in [cond] + list(breaks):
                if contains_any(other, {slots[sl]}):
                    used.add(sl)
        allterms = []
        for sl, ph in slots.items():
            if sl in seqslots:
                v = deltas[sl]
                allterms.append((sl, gs(*[x for x in v.a if not (x.op == 'gx' and x.a[1] is ph and x.a[0] is TRUE)]) if v.op == 'gs' else v))
            elif steps[sl] is not None:
                allterms.append((sl, steps[sl]))

        def exit_value(sl, k):
            """value of slot at exit k (0 = head)"""
            if k == 0:
                return fixed.get(sl, slots[sl])
            return self.slot_val(exits[k - 1].st, sl, mark)

        def mk_out(sl, k):
            if sl in seqslots:
                ph = slots[sl]
                v = deltas[sl]
                rest = [x for x in v.a if not (x.op == 'gx' and x.a[1] is ph)] if v.op == 'gs' else None
                pure = (v.op == 'gs' and v.a and v.a[0].op == 'gx' and v.a[0].a[1] is ph and v.a[0].a[0] is TRUE
                        and not any(contains_any(x, {ph}) for x in v.a[1:])
                        and not any(contains_any(t, {ph}) for o, t in allterms if o != sl)
                        and not any(contains_any(b, {ph}) for b in breaks) and not contains_any(cond, {ph}))
                ini = inits[sl]
                if pure:
                    if not v.a[1:]:
                        return ini
                    desc, (bd,) = canon(gs(*v.a[1:]))
                    return gs(*(self._gs(ini).a + (raw('gl', TRUE, desc, bd),)))
                val = exit_value(sl, k)
                desc, (r,) = canon(val)
                return gs(raw('gx', TRUE, raw('outk', desc, k, r)))
            if counted and not exits:
                if sl in fixed:
                    return subst(fixed[sl], {idx: trip})
                stp = steps[sl]
                if stp is not None and not any(contains_any(stp, {p}) for p in sysmap):
                    last = subst(stp, {idx: sub(trip, C(1))})
                    return ite(lt(ZERO, trip), last, inits[sl])
            v = exit_value(sl, k)
            if v is UNBOUND:
                return UNBOUND
            if not contains_any(v, set(sysmap) | {idx}):
                return v
            desc, (r,) = canon(v)
            return raw('outk', desc, k, r)

        def exit_cond(k):
            desc, _ = canon()
            if desc.op == 'loop' and not desc.a[4] and desc.a[1] is not NONE and len(breaks) == 1 and k == 1:
                return raw('any', gs(raw('gl', TRUE, raw('cloop', d, trip), gs(gi(TRUE, breaks[0])))))
            return raw('exit', desc, k)

        def exit_state(k):
            base = after.copy()
            if k > 0:
                # objects allocated in the loop are visible through resolved values only
                pass
            for sl in slots:
                v = mk_out(sl, k)
                if sl[0] == 'v':
                    if v is UNBOUND:
                        base.vars.pop(sl[1], None)
                    else:
                        base.vars[sl[1]] = v
                else:
                    o = base.heap[sl[1]].copy()
                    o.f[sl[2]] = v
                    base.heap[sl[1]] = o
            if k > 0 and exits[k - 1].kind == 'brk':
                pass
            return base

        outs = []
        n = None
        infinite = (not counted and cond is TRUE)
        if not infinite:
            n = exit_state(0)
            if orelse:
                n, oo = self.exec_block(orelse, n)
                outs += oo
        for k, x in enumerate(exits, 1):
            es = exit_state(k)
            c = exit_cond(k)
            if x.kind == 'brk':
                if self._for_mode(s):
                    outs.append(Out('brk', c, es))
                else:
                    n = es if n is None else self.merge(c, es, n)
            else:
                val = x.val
                if val is not None:
                    v = self.resolve(val, x.st.heap, mark)
                    if contains_any(v, set(sysmap) | {idx}):
                        desc, (r,) = canon(v)
                        v = raw('outk', desc, k, r)
                    val = v
                outs.append(Out(x.kind, c, es, val, x.exc))
        self.record_loop(loopkey, d, trip, cond, slots, fixed, inits, steps, exits, nxt, idx)
        return n, outs

    def record_loop(self, *a):
        pass

    def _for_mode(self, s):
        return isinstance(s, ast.For)

    def _gs(self, t):
        return t if t.op == 'gs' else gs(raw('gx', TRUE, t))

    def as_trip(self, cond, idx, phis):
        """cond of the form  a + k*idx < b  ->  trip count"""
        if contains_any(cond, phis):
            return None
        if cond.op in ('lt', 'le'):
            a, b = cond.a
            dd = sub(b, a)          # continue while dd > 0 (lt) or >= 0 (le)
            c, lin = tm._lin(dd) if dd.op in ('sum', 'c', 'idx') or True else (None, None)
            k = lin.pop(idx, 0)
            rest = tm._mklin(c, lin)
            if contains_any(rest, {idx}):
                return None
            if k == -1:
                return max0(rest if cond.op == 'lt' else add(rest, C(1)))
            if k < 0 and cond.op == 'lt':
                return max0(raw('floordiv', add(rest, C(-k - 1)), C(-k)))
        if cond.op == 'not' and cond.a[0].op in ('eq', 'inset'):
            x = cond.a[0]
            dd = sub(x.a[0], x.a[1]) if x.op == 'eq' else (sub(x.a[0], x.a[1][0]) if len(x.a[1]) == 1 else None)
            if dd is None:
                return None
            c, lin = tm._lin(dd)
            k = lin.pop(idx, 0)
            if k in (1, -1):
                rest = tm._mklin(c, lin)
                rest = rest if k == -1 else neg(rest)
                if not contains_any(rest, {idx}) and ty(rest) in ('int', 'num') and (rest.op == 'len' or (rest.op == 'c' and cv(rest) >= 0)):
                    return rest
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expression ' + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return self.opaque('ellipsis')
        if isinstance(e.value, complex):
            return self.opaque('complex')
        return C(e.value)

    def e_Name(self, e, st):
        v = st.vars.get(e.id)
        gl = st.vars.get('$globals') if isinstance(st.vars, dict) else None
        if v is not None and not (gl is not None and e.id in gl.a):
            if v.op == 'ite' and contains_any(v, {UNBOUND}):
                self.partial(st, raw('bound', v, ''), ('UnboundLocalError',))
                v = drop_unbound(v)
            elif v.op == 'outk' and contains_any(v, {UNBOUND}):
                self.partial(st, raw('bound', v, ''), ('UnboundLocalError',))
            elif v.op in ('phi', 'ite') and self.unbphi and any(x in self.unbphi for x in leaves_of(v)):
                self.partial(st, raw('bound', v, ''), ('UnboundLocalError',))
            return v
        if isinstance(st.vars, dict):
            fi = self.inline_stack[-1] if self.inline_stack else None
            loc = getattr(fi, 'locals_', None)
            if fi is not None and loc is None:
                loc = fi.locals_ = local_names(fi.node)
            if loc and e.id in loc and v is None:
                self.partial(st, raw('bound', UNBOUND, ''), ('UnboundLocalError',))
                return self.opaque('unbound ' + e.id)
            if fi is not None and fi.closure and e.id in fi.closure:
                return fi.closure[e.id]
        return self.global_lookup(self.curmod, e.id, st)

    def global_lookup(self, mod, name, st):
        ref = self.modobj.get(mod)
        if ref is not None:
            o = st.heap.get(ref.a[0])
            if o is not None and name in o.f:
                return o.f[name]
        if name in EXC_PARENT or name.endswith('Error') or name in ('Warning',):
            return raw('exc', name)
        if name in BUILTINS:
            return raw('bi', name)
        if name == '__file__':
            return atom('__file__', 'str')
        self.note('unknown name ' + name)
        if self.undefined(mod, name):
            self.partial(st, raw('bound', UNBOUND, ''), ('NameError',))
            return self.opaque('undefined ' + name)
        return raw('ext', name)

    def undefined(self, mod, name):
        """no statement of the module can define the name"""
        if name.startswith('__') or hasattr(builtins, name) or mod not in self.p.trees:
            return False
        for n in ast.walk(self.p.trees[mod]):
            if isinstance(n, ast.Global) and name in n.names or isinstance(n, ast.alias) and n.name == '*' or \
                    isinstance(n, ast.Name) and n.id in ('globals', 'exec', 'eval', 'setattr', 'vars'):
                return False
        return True

    def e_Tuple(self, e, st):
        vs = self.ev_list(e.elts, st)
        if vs is None:
            return ABORT
        if any(v.op == 'star' for v in vs):
            return self.data(self.build_list(vs, st), st)
        return raw('tuple', *vs)

    def ev_list(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if v is ABORT:
                    return None
                out.append(raw('star', self.as_seq(v, st)))
            else:
                v = self.ev(x, st)
                if v is ABORT:
                    return None
                out.append(v)
        return out

    def build_list(self, vs, st):
        s = EMPTY
        for v in vs:
            if v.op == 'star':
                s = self.seq_extend(s, v.a[0])
            else:
                s = self.seq_append(s, v)
        return self.new_list(st, s)

    def e_List(self, e, st):
        vs = self.ev_list(e.elts, st)
        if vs is None:
            return ABORT
        return self.build_list(vs, st)

    def new_list(self, st, seq):
        return self.alloc(st, Obj('list', {'seq': seq}))

    def e_Set(self, e, st):
        vs = self.ev_list(e.elts, st)
        s = EMPTY
        for v in vs:
            s = self.seq_append(s, v) if v.op != 'star' else self.seq_extend(s, v.a[0])
        return self.alloc(st, Obj('set', {'seq': self.distinct(s, st)}))

    def e_Dict(self, e, st):
        m = raw('map')
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.data(self.ev(v, st), st)
                if x.op == 'map':
                    for kk, vv in x.a:
                        m = map_put(m, kk, vv)
                else:
                    m = self.opaque('dict merge')
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            m = map_put(m, self.data(kv, st), vv)
        return self.alloc(st, Obj('dict', {'m': m}))

    def e_IfExp(self, e, st):
        c = self.truthy(self.ev(e.test, st), st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        return self.branch_values(c, lambda s1: self.ev(e.body, s1), lambda s2: self.ev(e.orelse, s2), st)

    def branch_values(self, c, f, g, st):
        s1, s2 = st.copy(), st.copy()
        self.eguard.append(c)
        a = f(s1)
        self.eguard.pop()
        self.eguard.append(Not(c))
        b = g(s2)
        self.eguard.pop()
        n = self.merge(c, s1, s2)
        st.vars, st.heap = n.vars, n.heap
        if a is ABORT or b is ABORT:
            return self.opaque('exit in expression')
        return ite(c, a, b)

    def e_BoolOp(self, e, st):
        v = self.ev(e.values[0], st)
        for nx in e.values[1:]:
            c = self.truthy(v, st)
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return v
                if c is TRUE:
                    v = self.ev(nx, st)
                    continue
                cur = v
                v = self.branch_values(c, lambda s1: self.ev(nx, s1), lambda s2: cur, st)
            else:
                if c is TRUE:
                    return v
                if c is FALSE:
                    v = self.ev(nx, st)
                    continue
                cur = v
                v = self.branch_values(c, lambda s1: cur, lambda s2: self.ev(nx, s2), st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if v is ABORT:
            return v
        if isinstance(e.op, ast.Not):
            return Not(self.truthy(v, st))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return C(~cv(v)) if v.op == 'c' else sub(C(-1), v)
        return self.opaque('unary')

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        if a is ABORT or b is ABORT:
            return ABORT
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        if self.illtyped(op, a, b):
            r = raw('illtyped', C(type(op).__name__), a, b)
            self.partial(st, r, ('TypeError',))
            return r
        self.none_operands(st, type(op).__name__, a, b)
        return self.binop_(op, a, b, st)

    def none_operands(self, st, what, *ts):
        """the operation raises TypeError where an operand is None"""
        for t in ts:
            w = none_when(t)
            if w is FALSE:
                continue
            self.eguard.append(w)
            self.partial(st, raw('illtyped', C(what), *ts), ('TypeError',))
            self.eguard.pop()

    def illtyped(self, op, a, b):
        """the operation raises TypeError whatever the values"""
        if not isinstance(op, (ast.Add, ast.Sub, ast.Div, ast.FloorDiv, ast.Pow, ast.BitAnd, ast.LShift, ast.RShift)):
            return False
        text = ('str', 'bytes')
        if a.op == 'c' and b.op == 'c':
            x, y = type(cv(a)), type(cv(b))
            n = (int, float, bool)
            t = (str, bytes)
            if x not in n + t + (type(None),) or y not in n + t + (type(None),):
                return False
            return type(None) in (x, y) or not (x in n and y in n or isinstance(op, ast.Add) and x is y and x in t)
        ta, tb = ty(a), ty(b)
        if isinstance(op, ast.Add):
            known = text + ('int', 'num', 'float', 'bool')
            return ta in known and tb in known and ta != tb and (ta in text or tb in text)
        return ta in text or tb in text

    def binop_(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if a.op == 'ref' or b.op == 'ref' or a.op == 'gs' or b.op == 'gs':
                sa, sb = self.as_seq(a, st), self.as_seq(b, st)
                return self.new_list(st, self.seq_extend(self._gs(sa), sb))
            if a.op == 'tuple' and b.op == 'tuple':
                return raw('tuple', *(a.a + b.a))
            return add(a, b)
        if a.op == 'ref' and b.op == 'ref' and isinstance(op, ast.BitOr) and self.obj(st, a).kind == self.obj(st, b).kind == 'set':
            return self.alloc(st, Obj('set', {'seq': self.distinct(self.seq_extend(self._gs(self.as_seq(a, st)), self.as_seq(b, st)), st)}))
        a, b = self.data(a, st), self.data(b, st)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if a.op in ('gs', 'tuple') or b.op in ('gs', 'tuple'):
                s, n = (a, b) if a.op in ('gs', 'tuple') else (b, a)
                k = gs_known(s)
                if k is not None and n.op == 'c':
                    return self.new_list(st, gs(*[gi(TRUE, x) for x in k * cv(n)]))
                if k is not None and len(k) == 1:
                    return self.new_list(st, gs(raw('gl', TRUE, raw('cloop', self.loopdepth, max0(n)), gs(gi(TRUE, k[0])))))
                return raw('repeat', s, n)
            if ty(a) in ('str', 'bytes') or ty(b) in ('str', 'bytes'):
                if a.op == 'c' and b.op == 'c':
                    return C(cv(a) * cv(b))
                return raw('repeat', a, b)
            return mul(a, b)
        if isinstance(op, ast.Mod):
            if ty(a) == 'str':
                return self.percent(a, b, st)
            r = arith('mod', a, b)
            if r.op == 'mod' and not (b.op == 'c' and cv(b) != 0):
                self.partial(st, r, ('ZeroDivisionError', 'TypeError'))
            return r
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            nm = 'div' if isinstance(op, ast.Div) else 'floordiv'
            r = arith(nm, a, b)
            if r.op == nm and not (b.op == 'c' and cv(b) != 0):
                self.partial(st, r, ('ZeroDivisionError',))
            return r
        names = {ast.Pow: 'pow', ast.LShift: 'shl', ast.RShift: 'shr', ast.BitAnd: 'band', ast.BitOr: 'bor',
                 ast.BitXor: 'bxor'}
        nm = names.get(type(op))
        if nm is None:
            return self.opaque('binop')
        r = arith(nm, a, b)
        if nm in ('shl', 'shr') and not (b.op == 'c' and isinstance(cv(b), int) and cv(b) >= 0):
            self.partial(st, r, ('ValueError',))
        return r

    def percent(self, fmt, b, st):
        if fmt.op != 'c':
            return raw('percent', fmt, b)
        args = list(b.a) if b.op == 'tuple' else [b]
        import re as _re
        s = cv(fmt)
        out = C('')
        pos = 0
        ai = 0
        for m in _re.finditer(r'%(\(\w+\))?([-#0 +]*)(\d+|\*)?(\.\d+)?([diouxXeEfFgGcrsa%])', s):
            out = cat(out, C(s[pos:m.start()])) if m.start() > pos else out
            pos = m.end()
            if m.group(5) == '%':
                out = cat(out, C('%'))
                continue
            if m.group(1) or m.group(3) == '*' or ai >= len(args):
                return raw('percent', fmt, b)
            a = args[ai]
            ai += 1
            spec = m.group(0)
            out = cat(out, self.strof(a) if spec == '%s' else raw('call', 'pct', C(spec), a))
        out = cat(out, C(s[pos:])) if pos < len(s) else out
        return out

    def strof(self, t):
        if t.op == 'c':
            return C(str(cv(t)))
        if ty(t) == 'str':
            return t
        return raw('call', 'str', t)

    def e_JoinedStr(self, e, st):
        out = C('')
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = cat(out, C(v.value))
            else:
                x = self.data(self.ev(v.value, st), st)
                if v.conversion == 114:
                    x = raw('call', 'repr', x)
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    x = self.fmt_one(x, sp)
                else:
                    x = self.strof(x)
                out = cat(out, x)
        return out

    def fmt_one(self, x, sp):
        if sp.op == 'c' and cv(sp) == '':
            return self.strof(x)
        if x.op == 'c' and sp.op == 'c':
            try:
                return C(format(cv(x), cv(sp)))
            except Exception:
                pass
        return raw('call', 'format', x, sp)

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st)
            if l is ABORT or rv is ABORT:
                return ABORT
            c = self.compare(op, l, rv, st)
            res = c if res is None else And(res, c)
            l = rv
        return res

    def compare(self, op, l, r, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if l.op == 'ref' or r.op == 'ref':
                c = TRUE if l is r else (FALSE if (l.op == 'ref' and r.op in ('ref', 'c')) or (r.op == 'ref' and l.op == 'c') else Is(l, r))
            else:
                c = Is(l, r)
            return c if isinstance(op, ast.Is) else Not(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(l, r, st)
            return c if isinstance(op, ast.In) else Not(c)
        if l.op == 'ref' and r.op == 'ref':
            ol, orr = self.obj(st, l), self.obj(st, r)
            if ol.kind == 'inst' or orr.kind == 'inst':
                c = TRUE if l is r else FALSE
                return c if isinstance(op, ast.Eq) else Not(c)
        l, r = self.data(l, st), self.data(r, st)
        if isinstance(op, ast.Eq):
            return eq(l, r)
        if isinstance(op, ast.NotEq):
            return Not(eq(l, r))
        self.none_operands(st, type(op).__name__, l, r)
        if isinstance(op, ast.Lt):
            return lt(l, r)
        if isinstance(op, ast.LtE):
            return le(l, r)
        if isinstance(op, ast.Gt):
            return lt(r, l)
        if isinstance(op, ast.GtE):
            return le(r, l)
        return self.opaque('compare')

    def contains(self, x, s, st):
        x = self.data(x, st)
        if s.op == 'ref':
            o = self.obj(st, s)
            if o.kind in ('list', 'set'):
                return contains(x, self.resolve(o.f['seq'], st.heap))
            if o.kind == 'dict':
                return map_has(o.f['m'], x)
        if s.op == 'range':
            a, b, k = s.a
            if is_const(k, 1) and ty(x) in ('int', 'num', None):
                return And(le(a, x), lt(x, b), raw('isint', x) if ty(x) != 'int' else TRUE) if ty(x) != 'int' else And(le(a, x), lt(x, b))
            return raw('in', x, s)
        if s.op == 'map':
            return map_has(s, x)
        return contains(x, s)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.vars[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_Await(self, e, st):
        return self.opaque('await')

    def e_Yield(self, e, st):
        self.do_yield(e, st)
        return NONE

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def e_ListComp(self, e, st):
        return self.list_comp(e.generators, e.elt, st)

    def e_GeneratorExp(self, e, st):
        return self.list_comp(e.generators, e.elt, st)

    def list_comp(self, gens, elt, st, more=None):
        old = dict(st.heap)
        pend = [len(c) for c in self.collectors]
        if not more:
            s = self.comp(gens, 0, st, lambda cs: self.ev(elt, cs))
            if not self.changed(old, st):
                return self.new_list(st, s)
        if elt is self.lazy:
            self.give_up('effects in a generator that may not be run to its end')
        st.heap = old
        for c, k in zip(self.collectors, pend):
            del c[k:]
        return self.comp_loop(gens, elt, st, more)

    lazy = None

    def e_SetComp(self, e, st):
        old = dict(st.heap)
        s = self.comp(e.generators, 0, st, lambda cs: self.ev(e.elt, cs))
        if self.changed(old, st):
            self.give_up('effects in a comprehension')
        return self.alloc(st, Obj('set', {'seq': self.distinct(s, st)}))

    def e_DictComp(self, e, st):
        old = dict(st.heap)
        s = self.comp(e.generators, 0, st, lambda cs: raw('tuple', self.data(self.ev(e.key, cs), cs), self.ev(e.value, cs)))
        if self.changed(old, st):
            self.give_up('effects in a comprehension')
        k = gs_known(s)
        if k is not None:
            m = raw('map')
            for p in k:
                m = map_put(m, p.a[0], p.a[1])
        else:
            m = raw('mapof', s)
        return self.alloc(st, Obj('dict', {'m': m}))

    def comp(self, gens, gi_, st, elt):
        saved = st.vars
        st.vars = dict(saved) if isinstance(saved, dict) else dict(saved.flat())
        r = self._comp(gens, 0, st, elt)
        st.vars = saved
        return r

    def _comp(self, gens, k, st, elt):
        if k == len(gens):
            mark = self.next_obj
            v = elt(st)
            if v is ABORT:
                v = self.opaque('abort')
            return gs(gi(TRUE, v))
        g = gens[k]
        it = self.ev(g.iter, st)
        if it is ABORT:
            return EMPTY
        out = EMPTY
        for seg in self.segments(it, st):
            if seg[0] == 'one':
                self.assign(g.target, seg[2], st)
                c = seg[1]
                for cnd in g.ifs:
                    self.eguard.append(c)
                    c = And(c, self.truthy(self.ev(cnd, st), st))
                    self.eguard.pop()
                if c is FALSE:
                    continue
                self.eguard.append(c)
                inner = self._comp(gens, k + 1, st, elt)
                self.eguard.pop()
                out = gs(*(out.a + tuple(gs_guard(c, inner.a))))
            else:
                d = self.loopdepth
                self.loopdepth += 1
                idx = raw('idx', d)
                mark = self.next_obj
                self.assign(g.target, seg[3](idx), st)
                c = TRUE
                for cnd in g.ifs:
                    c = And(c, self.truthy(self.ev(cnd, st), st))
                self.eguard.append(c)
                inner = self._comp(gens, k + 1, st, elt)
                self.eguard.pop()
                inner = self.resolve(inner, st.heap, mark)
                self.loopdepth -= 1
                body = gs(*gs_guard(c, inner.a))
                trip = seg[2] if seg[1] is TRUE else ite(seg[1], seg[2], ZERO)
                # identity comprehension
                if (len(body.a) == 1 and body.a[0].op == 'gi' and body.a[0].a[0] is TRUE and body.a[0].a[1].op == 'index'
                        and body.a[0].a[1].a[1] is idx and trip is length(body.a[0].a[1].a[0])):
                    out = self.seq_extend(out, body.a[0].a[1].a[0])
                else:
                    out = gs(*(out.a + (raw('gl', TRUE, raw('cloop', d, trip), body),)))
        return out

    # ------------------------------------------------------------ subscripts / attributes
    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if b is ABORT:
            return b
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            sp = self.ev(e.slice.step, st) if e.slice.step else NONE
            s = self.as_seq(b, st) if b.op == 'ref' else b
            r = slice_(s, lo, hi, sp)
            if b.op == 'ref':
                return self.new_list(st, self._gs(r))
            return r
        k = self.ev(e.slice, st)
        return self.getitem(b, k, st)

    def getitem(self, b, k, st):
        k = self.data(k, st)
        if b.op == 'ref':
            o = self.obj(st, b)
            if o.kind == 'dict':
                return self.map_get(o.f['m'], k, st)
            if o.kind == 'list':
                r = index(o.f['seq'], k)
                if r.op == 'index':
                    r = index(self.resolve(o.f['seq'], st.heap), k)
                    self.partial(st, r, ('IndexError',))
                return r
            if o.kind == 'elem':
                r = index(o.f['ch'], k)
                if r.op == 'index':
                    r = index(self.resolve(o.f['ch'], st.heap), k)
                    self.partial(st, r, ('IndexError',))
                return r
        if b.op == 'map':
            return self.map_get(b, k, st)
        if b.op == 'ite':
            self.eguard.append(b.a[0])
            x = self.getitem(b.a[1], k, st)
            self.eguard.pop()
            self.eguard.append(Not(b.a[0]))
            y = self.getitem(b.a[2], k, st)
            self.eguard.pop()
            return ite(b.a[0], x, y)
        r = index(b, k)
        if r.op == 'index':
            if not (b.op == 'unpack'):
                self.partial(st, r, ('IndexError',) if ty(b) in ('bytes', 'str', 'list') else ('IndexError', 'KeyError', 'TypeError'))
        return r

    def map_get(self, m, k, st):
        r = map_get(m, k)
        if r.op == 'mget' or r is UNBOUND:
            if r is UNBOUND:
                r = raw('mget', m, k)
            self.partial(st, r, ('KeyError',))
        return r

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        if b is ABORT:
            return b
        return self.getattr_(b, e.attr, st)

    def getattr_(self, b, name, st):
        op = b.op
        if op == 'mod':
            ref = self.modobj[b.a[0]]
            o = st.heap.get(ref.a[0])
            v = o.f.get(name) if o else None
            if v is None:
                return raw('ext', b.a[0] + '.' + name)
            return v
        if op == 'ext':
            n = b.a[0] + '.' + name
            if n == 'struct.error':
                return raw('exc', 'struct.error')
            if n == 'xml.etree.ElementTree.ParseError':
                return raw('exc', n)
            return raw('ext', n)
        if op == 'cls':
            v = self.class_attr(b.a[0], name, st)
            if v is not None:
                return v
            if name == '__name__':
                return C(self.classes[b.a[0]]['name'])
            return self.opaque('class attribute ' + name)
        if op == 'bi':
            return raw('ext', b.a[0] + '.' + name)
        if op == 'ref':
            o = self.obj(st, b)
            if o.kind in ('inst',):
                if name in o.f:
                    v = o.f[name]
                    if contains_any(v, {UNBOUND}):
                        self.partial(st, raw('bound', v, name), ('AttributeError',))
                        v = drop_unbound(v)
                    return v
                if name == '__class__':
                    return raw('cls', o.cls)
                v = self.class_attr(o.cls, name, st)
                if v is not None:
                    if v.op == 'fn':
                        fi = self.funcs[v.a[0]]
                        if 'staticmethod' in fi.deco:
                            return v
                        if 'classmethod' in fi.deco:
                            return raw('bm', v.a[0], raw('cls', o.cls))
                        if 'property' in fi.deco:
                            return self.call_fn(fi, [b], {}, st)
                        return raw('bm', v.a[0], b)
                    return v
                self.partial(st, raw('noattr', name), ('AttributeError',))
                return self.opaque('missing attribute ' + name)
            if o.kind == 'elem':
                if name in ('tag', 'text', 'attrib', 'tail'):
                    if name == 'attrib':
                        return raw('dictview', b)
                    return o.f.get(name, NONE)
                v = self.class_attr(o.cls or self.elem_class, name, st) if (o.cls or self.elem_class) else None
                if v is not None and v.op == 'fn':
                    return raw('bm', v.a[0], b)
                return raw('bmx', b, name)
            if o.kind == 'childinst':
                if name == 'validate':
                    return raw('bmx', b, name)
                t = o.f['t'] if o.f['v'] is TRUE else raw('newchild', *o.f['t'].a)
                return self.attr_term(t, name, st)
            if o.kind == 'ns':
                v = o.f.get(name)
                if v is not None:
                    return v
            return raw('bmx', b, name)
        if op == 'ite':
            if b.a[1] is UNBOUND or b.a[2] is UNBOUND:
                self.partial(st, raw('bound', b, ''), ('UnboundLocalError',))
                return self.getattr_(drop_unbound(b), name, st)
            if any(x.op in ('ref', 'fn', 'cls', 'mod') for x in (b.a[1], b.a[2])) or \
                    any(x.op in ('attr', 'mcall', 'c') for x in (b.a[1], b.a[2])):
                self.eguard.append(b.a[0])
                x = self.getattr_(b.a[1], name, st)
                self.eguard.pop()
                self.eguard.append(Not(b.a[0]))
                y = self.getattr_(b.a[2], name, st)
                self.eguard.pop()
                return ite(b.a[0], x, y)
        if op == 'super':
            v = self.class_attr_bases(b.a[0], name, st)
            if v is not None and v.op == 'fn':
                return raw('bm', v.a[0], b.a[1])
            return raw('bmx', b.a[1], name)
        if op == 'call' and b.a[0] == 'struct.Struct' and len(b.a) == 2 and b.a[1].op == 'c':
            if name == 'size':
                try:
                    import struct
                    return C(struct.calcsize(cv(b.a[1])))
                except Exception:
                    pass
            elif name in ('unpack', 'unpack_from'):
                return raw('bmx', b, name)
        # method of the package's element class on an element-valued term
        if self.elem_class is not None and op in ('attr', 'mcall', 'index', 'outk', 'child', 'atom', 'phi', 'excval', 'call'):
            v = self.class_attr(self.elem_class, name, st)
            if v is not None and v.op == 'fn':
                if self.maybe_none(b):
                    self.partial(st, raw('attr', b, name), ('AttributeError',))
                return raw('bm', v.a[0], b)
        return self.attr_term(b, name, st)

    def maybe_none(self, b):
        if b.op == 'c':
            return cv(b) is None
        if b.op == 'mcall' and b.a[1] in ('find', 'get', 'search', 'match'):
            return True
        if b.op in ('outk', 'phi', 'opaque', 'atom'):
            return ty(b) is None and not (b.op == 'atom')
        if b.op == 'mget':
            return False
        return False

    def attr_term(self, b, name, st):
        t = raw('attr', b, name)
        w = none_when(b) if b.op == 'ite' else FALSE
        if w is not FALSE:
            self.eguard.append(w)
            self.partial(st, raw('attr', NONE, name), ('AttributeError',))
            self.eguard.pop()
        if b.op == 'c' and cv(b) is None:
            self.partial(st, t, ('AttributeError',))
            return t
        if name in PURE_METHODS or (ty(b) in ('str', 'bytes', 'int', 'list')):
            if self.maybe_none(b) or (ty(b) is None and b.op == 'attr' and b.a[1] == 'text'):
                self.partial(st, t, ('AttributeError',))
            return raw('bmx', b, name)
        if self.maybe_none(b):
            self.partial(st, t, ('AttributeError',))
        return t

    def class_attr(self, key, name, st):
        info = self.classes.get(key)
        if info is None:
            return None
        o = st.heap.get(info['ns'].a[0])
        if o is not None and name in o.f:
            return o.f[name]
        return self.class_attr_bases(key, name, st)

    def class_attr_bases(self, key, name, st):
        for b in self.classes[key]['bases']:
            if b.op == 'cls':
                v = self.class_attr(b.a[0], name, st)
                if v is not None:
                    return v
        return None

    def setattr_(self, b, name, v, st):
        if b.op == 'ref':
            o = self.obj(st, b)
            if o.kind in ('inst', 'elem', 'childinst', 'ns'):
                if o.kind == 'elem' and name == 'attrib':
                    self.setf(st, b, 'attrib', self.data(v, st))
                    return
                self.setf(st, b, name, v)
                if b.a[0] in self.nsrefs():
                    self.log(st, 'LOG', raw('eff', 'global.set', C(str(o.cls) + '.' + name), self.data(v, st)))
                return
        if b.op == 'mod':
            self.setf(st, self.modobj[b.a[0]], name, v)
            self.log(st, 'LOG', raw('eff', 'global.set', C(b.a[0] + '.' + name), self.data(v, st)))
            return
        if b.op == 'cls':
            self.setf(st, self.classes[b.a[0]]['ns'], name, v)
            self.log(st, 'LOG', raw('eff', 'global.set', C(b.a[0] + '.' + name), self.data(v, st)))
            return
        if b.op == 'ite':
            for br, c in ((b.a[1], b.a[0]), (b.a[2], Not(b.a[0]))):
                s1 = st.copy()
                self.setattr_(br, name, v, s1)
                n = self.merge(c, s1, st)
                st.vars, st.heap = n.vars, n.heap
            return
        self.log(st, 'LOG', raw('eff', 'setattr', self.data(b, st), C(name), self.data(v, st)))

    def nsrefs(self):
        return set(i['ns'].a[0] for i in self.classes.values()) | set(r.a[0] for r in self.modobj.values())

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'next', 'zip', 'iter') and any(isinstance(a, ast.GeneratorExp) for a in e.args):
            self.lazy = [a.elt for a in e.args if isinstance(a, ast.GeneratorExp)][0]
        self.call_sites.add((self.curmod, e.lineno, e.col_offset))
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fi = self.inline_stack[-1]
            selfname = fi.node.args.args[0].arg
            return raw('super', fi.cls, st.vars[selfname])
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in LIST_CHANGES:
            self.own_list(e.func.value.id, st)
        f = self.ev(e.func, st)
        if f is ABORT:
            return f
        args = self.ev_list(e.args, st)
        if args is None:
            return ABORT
        flat = []
        for a in args:
            if a.op == 'star':
                k = gs_known(a.a[0])
                if k is None:
                    flat.append(a)
                else:
                    flat += k
            else:
                flat.append(a)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if v is ABORT:
                return ABORT
            if k.arg is None:
                d = self.data(v, st)
                if d.op == 'map' and all(x.op == 'c' for x, _ in d.a):
                    for x, y in d.a:
                        kwargs[cv(x)] = y
                else:
                    self.give_up('**kwargs')
            else:
                kwargs[k.arg] = v
        self.curnode = e
        return self.call(f, flat, kwargs, st)

    def call(self, f, args, kwargs, st):
        op = f.op
        if op == 'fn':
            return self.call_fn(self.funcs[f.a[0]], args, kwargs, st)
        if op == 'bm':
            fi = self.funcs[f.a[0]]
            return self.call_fn(fi, [f.a[1]] + args, kwargs, st)
        if op == 'partialfn':
            return self.call(f.a[0], list(f.a[1]) + args, kwargs, st)
        if op == 'cls':
            return self.instantiate(f.a[0], args, kwargs, st)
        if op == 'ext':
            return self.call_ext(f.a[0], args, kwargs, st)
        if op == 'bi':
            return self.call_builtin(f.a[0], args, kwargs, st)
        if op == 'bmx':
            return self.call_method(f.a[0], f.a[1], args, kwargs, st)
        if op == 'attr':
            return self.call_method(f.a[0], f.a[1], args, kwargs, st)
        if op == 'ite':
            return self.branch_values(f.a[0], lambda s1: self.call(f.a[1], args, kwargs, s1),
                                      lambda s2: self.call(f.a[2], args, kwargs, s2), st)
        if op == 'exc':
            return raw('excnew', f.a[0], *[self.data(a, st) for a in args])
        if op == 'mget' and f.a[0].op == 'map':
            # call through a constant dispatch table
            m, k = f.a
            ents = list(m.a)
            if ents and len(ents) <= 64 and all(kk.op == 'c' for kk, _ in ents):
                def chain(i, s1):
                    if i == len(ents) - 1:
                        return self.call(ents[i][1], args, kwargs, s1)
                    return self.branch_values(eq(k, ents[i][0]), lambda a: self.call(ents[i][1], args, kwargs, a),
                                              lambda b: chain(i + 1, b), s1)
                return chain(0, st)
        t = raw('ucall', self.data(f, st), *[self.data(a, st) for a in args])
        self.note('call of unknown value')
        self.log(st, 'LOG', raw('eff', 'ucall', t))
        self.partial(st, t, None)
        return t

    def bind(self, fi, args, kwargs, st):
        a = fi.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        if any(x.op == 'star' for x in args):
            self.give_up('star args of unknown length')
        if len(args) > len(params):
            if a.vararg:
                vars_[a.vararg.arg] = raw('tuple', *args[len(params):])
                args = args[:len(params)]
            else:
                return None
        elif a.vararg:
            vars_[a.vararg.arg] = raw('tuple')
        for p, v in zip(params, args):
            vars_[p] = v
        kwnames = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in kwnames:
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            m = raw('map')
            for k, v in extra.items():
                m = map_put(m, C(k), v)
            vars_[a.kwarg.arg] = self.alloc(st, Obj('dict', {'m': m}))
        nd = len(fi.defaults)
        for i, p in enumerate(params[len(params) - nd:] if nd else []):
            if p not in vars_:
                vars_[p] = fi.defaults[i]
        for p, dv in zip(kwnames, fi.kwdefaults):
            if p not in vars_ and dv is not None:
                vars_[p] = dv
        if any(p not in vars_ for p in params + kwnames):
            return None
        return vars_

    def call_fn(self, fi, args, kwargs, st):
        qual = fi.name
        if fi.name in self.cuts or ((fi.cls or '').split(':')[-1] + '.' + fi.name) in self.cuts:
            return self.cut_call(fi, args, kwargs, st)
        if any(dd not in ('staticmethod', 'classmethod', 'property') for dd in fi.deco):
            self.note('decorated function ' + fi.name)
            if not all(dd in ('staticmethod', 'classmethod', 'property') or dd in CACHES for dd in fi.deco):
                self.give_up('decorated function ' + fi.name)
        if len(self.inline_stack) >= self.MAX_INLINE or sum(1 for x in self.inline_stack if x.node is fi.node) > 1:
            self.note('recursion ' + fi.name)
            if any(contains_ref(a) for a in args):
                self.give_up('recursion ' + fi.name)
            t = raw('ucall', raw('atom', 'rec:' + fi.name, None), *[self.data(a, st) for a in args])
            self.log(st, 'LOG', raw('eff', 'ucall', t))
            return t
        if 'classmethod' in fi.deco and args and args[0].op == 'ref' and self.obj(st, args[0]).kind == 'inst':
            args = [raw('cls', self.obj(st, args[0]).cls)] + args[1:]
        vars_ = self.bind(fi, args, kwargs, st)
        if vars_ is None:
            t = raw('badcall', fi.name)
            self.partial(st, t, ('TypeError',))
            return self.opaque('argument mismatch calling ' + fi.name)
        self.analysed_functions.add((fi.module, fi.name, fi.node.lineno))
        cs = State(vars_, st.heap)
        savemod, savenode, saveg = self.curmod, self.curnode, self.eguard
        self.curmod = fi.module
        self.inline_stack.append(fi)
        self.eguard = []
        gen = None
        if fi.is_gen:
            genold = dict(st.heap)
            gen = self.new_list(cs, EMPTY)
            cs.vars['$gen'] = gen
        try:
            if isinstance(fi.node, ast.Lambda):
                self.collectors.append([])
                v = self.ev(fi.node.body, cs)
                pend = self.collectors.pop()
                if v is ABORT:
                    outs = pend + self.take_abort()
                    n = None
                else:
                    outs = pend + [Out('ret', TRUE, cs, v)]
                    n = None
            else:
                n, outs = self.exec_block(fi.node.body, cs)
        finally:
            self.inline_stack.pop()
            self.curmod, self.curnode, self.eguard = savemod, savenode, saveg
        rets = [x for x in outs if x.kind == 'ret']
        excs = [x for x in outs if x.kind == 'exc']
        g = And(*self.eguard) if self.eguard else TRUE
        for x in excs:
            x.cond = And(g, x.cond)
            if x.cond is FALSE:
                continue
            x.st = State(st.vars if isinstance(st.vars, _NSVars) else dict(st.vars), x.st.heap)
            if self.try_stack:
                self.collectors[-1].append(x)
            else:
                # uncaught explicit raise
                o = st.heap['OBL']
                if x.val is not None and x.val.op == 'raise':
                    pass
                self.collectors[-1].append(x) if self.collectors else None
        states = [(x.cond, x.st, x.val) for x in rets]
        if n is not None:
            states.append((TRUE, n, NONE))
        if not states:
            # never returns normally
            self.aborts = self.aborts + []
            return ABORT
        c, cur, val = states[-1]
        heap, v = cur, val
        for c, s2, v2 in reversed(states[:-1]):
            v = ite(c, v2, v)
            heap = self.merge(c, State({}, s2.heap), State({}, heap.heap))
        st.heap = heap.heap
        if gen is not None:
            if self.changed(genold, st):
                self.give_up('generator function with effects ' + fi.name)
            return gen
        return v

    def cut_call(self, fi, args, kwargs, st):
        vars_ = self.bind(fi, args, kwargs, st)
        if vars_ is None:
            self.partial(st, raw('badcall', fi.name), ('TypeError',))
            return self.opaque('argument mismatch calling ' + fi.name)
        params = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs]
        vals = []
        for p in params:
            v = self.data(vars_[p], st)
            if v.op == 'inst':      # an object that only carries settings: its fields
                vals += [x for _, x in v.a[1]]
            else:
                vals.append(v)
        t = raw('call', 'cut:' + fi.name, *vals)
        self.log(st, 'LOG', raw('eff', 'cut:' + fi.name, *vals))
        self.partial(st, t, None)
        if getattr(self, 'havoc', None) and fi.name == self.havoc[0]:
            for k, f in self.havoc[1]:      # shared state the call changes
                o = st.heap[k].copy()
                o.f[f] = raw('atom', 'left by %s: %s.%s' % (fi.name, k, f), None)
                st.heap[k] = o
        return t

    CTOR = ['options', 'bType', 'boxContents', 'startOffset', 'components']

    def ctor_params(self, fi):
        """parameters of the validator's constructor, the five known ones first and in their order"""
        a = fi.node.args
        params = [p.arg for p in a.posonlyargs + a.args][1:] + [p.arg for p in a.kwonlyargs]
        if set(self.CTOR) <= set(params):
            return self.CTOR + [p for p in params if p not in self.CTOR]
        return params

    def instantiate(self, key, args, kwargs, st):
        info = self.classes[key]
        if info['name'] == self.child_class and self.cut_children:
            init = self.class_attr(key, '__init__', st)
            fi = self.funcs[init.a[0]]
            dummy = raw('atom', 'self', None)
            vars_ = self.bind(fi, [dummy] + args, kwargs, st)
            if vars_ is None:
                self.partial(st, raw('badcall', '__init__'), ('TypeError',))
                return self.opaque('argument mismatch')
            params = self.ctor_params(fi)
            vals = [self.data(vars_[p], st) for p in params]
            return self.alloc(st, Obj('childinst', {'t': raw('child', *vals), 'v': FALSE}))
        if self.is_elem_class(key):
            return self.new_elem(st, args, kwargs, key)
        ref = self.alloc(st, Obj('inst', {}, key))
        init = self.class_attr(key, '__init__', st)
        if init is not None and init.op == 'fn':
            r = self.call_fn(self.funcs[init.a[0]], [ref] + args, kwargs, st)
            if r is ABORT:
                return ABORT
        elif any(b.op == 'ext' for b in info['bases']):
            self.note('instance of external base ' + key)
        return ref

    def is_elem_class(self, key):
        if key == self.elem_class:
            return True
        return any(b.op == 'cls' and self.is_elem_class(b.a[0]) for b in self.classes[key]['bases'])

    def new_elem(self, st, args, kwargs, cls=None):
        tag = args[0] if args else kwargs.get('tag', NONE)
        att = raw('map')
        if len(args) > 1:
            att = self.data(args[1], st)
        elif 'attrib' in kwargs:
            att = self.data(kwargs['attrib'], st)
        if ty(att) in ('str', 'bytes', 'int', 'num', 'float', 'bool'):
            self.partial(st, raw('illtyped', C('attributes'), att), ('TypeError',))
            att = raw('map')
        for k, v in kwargs.items():
            if k not in ('tag', 'attrib'):
                att = map_put(att, C(k), v)
        return self.alloc(st, Obj('elem', {'tag': self.data(tag, st), 'text': NONE, 'attrib': att, 'ch': EMPTY, 'tail': NONE}, cls))

    def list_append(self, st, ref, v):
        o = st.heap[ref.a[0]].copy()
        o.f['seq'] = self.seq_append(o.f['seq'], v)
        st.heap[ref.a[0]] = o

    def as_seq(self, v, st):
        """sequence term for iteration-like uses"""
        if v.op == 'ref':
            o = self.obj(st, v)
            if o.kind in ('list', 'set', 'iter'):
                return o.f['seq']
            if o.kind == 'dict':
                ks = map_keys(o.f['m'])
                return gs(*[gi(TRUE, k) for k in ks]) if ks is not None else raw('keys', o.f['m'])
            if o.kind == 'elem':
                return o.f['ch']
        if v.op == 'range':
            a, b, k = v.a
            if all(x.op == 'c' for x in v.a):
                r = range(cv(a), cv(b), cv(k))
                if len(r) <= 4096:
                    return gs(*[gi(TRUE, C(i)) for i in r])
            segs = self.segments(v, st)
            _, g, trip, f, _ = segs[0]
            d = self.loopdepth
            return gs(raw('gl', TRUE, raw('cloop', d, trip), gs(gi(TRUE, f(raw('idx', d))))))
        if v.op in ('zip', 'enumerate'):
            segs = self.segments(v, st)
            out = EMPTY
            for s in segs:
                if s[0] == 'one':
                    out = gs(*(out.a + (gi(s[1], s[2]),)))
                else:
                    d = self.loopdepth
                    out = gs(*(out.a + (raw('gl', s[1], raw('cloop', d, s[2]), gs(gi(TRUE, s[3](raw('idx', d))))),)))
            return out
        return v

    # ------------------------------------------------------------ method calls on data / heap values
    def call_method(self, b, name, args, kwargs, st):
        if b.op == 'call' and b.a[0] == 'struct.Struct' and len(b.a) == 2 and b.a[1].op == 'c' and name in ('unpack', 'unpack_from'):
            return self.call_ext('struct.' + name, [b.a[1]] + args, kwargs, st)
        if b.op == 'ref':
            o = self.obj(st, b)
            r = None
            if o.kind == 'list':
                r = self.list_method(b, o, name, args, kwargs, st)
            elif o.kind == 'dict':
                r = self.dict_method(b, o, name, args, kwargs, st)
            elif o.kind == 'set':
                r = self.set_method(b, o, name, args, kwargs, st)
            elif o.kind == 'elem':
                r = self.elem_method(b, o, name, args, kwargs, st)
            elif o.kind == 'childinst':
                if name == 'validate':
                    t = o.f['t']
                    self.partial(st, t, None)
                    self.setf(st, b, 'v', TRUE)
                    self.log(st, 'LOG', raw('eff', 'child', t))
                    return b
                r = None
            if r is not None:
                return r
            t = raw('mcall', self.data(b, st), name, *[self.data(a, st) for a in args])
            self.note('method %s on %s' % (name, o.kind))
            if o.kind in ('list', 'dict', 'set', 'elem') and name not in READING:
                self.give_up('method %s on %s' % (name, o.kind))
            self.log(st, 'LOG', raw('eff', 'mcall', t))
            return t
        if b.op == 'ite' and (contains_ref(b) or b.a[1].op == 'c' or b.a[2].op == 'c'):
            return self.branch_values(b.a[0], lambda s1: self.call_method(b.a[1], name, args, kwargs, s1),
                                      lambda s2: self.call_method(b.a[2], name, args, kwargs, s2), st)
        if b.op == 'dictview':
            o = self.obj(st, b.a[0])
            if name == 'get':
                m = o.f['attrib']
                k = self.data(args[0], st)
                dflt = args[1] if len(args) > 1 else NONE
                return ite(map_has(m, k), map_get(m, k), dflt)
        dargs = [self.data(a, st) for a in args]
        if kwargs:
            # normalise decode/encode keyword arguments
            order = {'decode': ('encoding', 'errors'), 'encode': ('encoding', 'errors')}.get(name)
            if order:
                for i, k in enumerate(order):
                    if k in kwargs and len(dargs) == i:
                        dargs.append(self.data(kwargs[k], st))
            elif name == 'format':
                pass
            else:
                dargs += [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
        if name == 'format' and ty(b) == 'str' and b.op == 'c' and not kwargs:
            r = self.str_format(cv(b), dargs)
            if r is not None:
                return r
        if b.op == 'c' and all(a.op == 'c' for a in dargs) and isinstance(cv(b), (str, bytes, int)) and name in PURE_METHODS:
            try:
                v = getattr(cv(b), name)(*[cv(a) for a in dargs])
                if isinstance(v, (str, bytes, int, bool, float)) or v is None:
                    return C(v)
                if isinstance(v, (list, tuple)):
                    return self.new_list(st, gs(*[gi(TRUE, C(x)) for x in v]))
            except Exception:
                pass
        if name == 'append' and b.op in ('attr', 'mcall', 'index', 'outk', 'call'):
            self.log(st, 'LOG', raw('eff', 'append', self.data(b, st), dargs[0]))
            return NONE
        t = raw('mcall', self.data(b, st), name, *dargs)
        if name not in PURE_METHODS:
            self.log(st, 'LOG', raw('eff', 'mcall', t))
            self.partial(st, t, None)
        elif name in ('index',):
            self.partial(st, t, ('ValueError',))
        elif name in ('decode', 'encode'):
            self.partial(st, t, ('UnicodeDecodeError',) if name == 'decode' else ('UnicodeEncodeError',))
        return t

    def str_format(self, s, args):
        import string
        out = C('')
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    out = cat(out, C(lit))
                if field is None:
                    continue
                if field == '':
                    a = args[auto]
                    auto += 1
                elif field.isdigit():
                    a = args[int(field)]
                else:
                    return None
                if conv == 'r':
                    a = raw('call', 'repr', a)
                if spec and '{' in spec:
                    return None
                out = cat(out, self.fmt_one(a, C(spec or '')))
        except Exception:
            return None
        return out

    def list_method(self, b, o, name, args, kwargs, st):
        seq = o.f['seq']
        if name == 'append':
            self.list_append(st, b, args[0])
            if b.a[0] in self.global_lists():
                self.log(st, 'LOG', raw('eff', 'global.append', C(self.global_lists()[b.a[0]]), self.data(args[0], st)))
            return NONE
        if name == 'extend':
            s = self.as_seq(args[0], st)
            self.setf(st, b, 'seq', self.seq_extend(seq, s))
            if b.a[0] in self.global_lists():
                self.log(st, 'LOG', raw('eff', 'global.extend', C(self.global_lists()[b.a[0]]), self.data(s, st)))
            return NONE
        if name == 'count':
            x = self.data(args[0], st)
            k = gs_known(seq)
            if k is not None and len(k) < 64:
                n = ZERO
                for y in k:
                    n = add(n, ite(eq(x, self.data(y, st)), C(1), ZERO))
                return n
            return raw('count', self.resolve(seq, st.heap), x)
        if name == 'index':
            x = self.data(args[0], st)
            t = raw('indexof', self.resolve(seq, st.heap), x)
            self.partial(st, t, ('ValueError',))
            return t
        if name == 'insert' and is_const(args[0], 0):
            self.setf(st, b, 'seq', gs(*((gi(TRUE, args[1]),) + self._gs(seq).a)))
            return NONE
        if name == 'copy':
            return self.new_list(st, seq)
        if name == 'clear':
            self.setf(st, b, 'seq', EMPTY)
            return NONE
        if name == 'pop':
            k = gs_known(seq)
            i = cv(args[0]) if args and args[0].op == 'c' else (-1 if not args else None)
            if k and i is not None and -len(k) <= i < len(k):
                v = k.pop(i)
                self.setf(st, b, 'seq', gs(*[gi(TRUE, x) for x in k]))
                return v
            kk = C(-1) if i is None else C(i)
            t = raw('index', self.resolve(seq, st.heap), kk)
            self.partial(st, t, ('IndexError',))
            if i == -1:
                self.setf(st, b, 'seq', gs(raw('gx', TRUE, slice_(seq, ZERO, C(-1)))))
            elif i == 0:
                self.setf(st, b, 'seq', gs(raw('gx', TRUE, slice_(seq, C(1), NONE))))
            else:
                self.list_opaque(b, st)
            return t
        if name == 'sort':
            more = [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
            self.setf(st, b, 'seq', gs(raw('gx', TRUE, raw('call', 'sorted', self.resolve(seq, st.heap), *more))))
            return NONE
        if name == 'reverse':
            self.setf(st, b, 'seq', gs(raw('gx', TRUE, raw('call', 'reversed', self.resolve(seq, st.heap)))))
            return NONE
        if name == 'remove' and gs_known(seq) is None:
            t = raw('call', 'list.remove', self.resolve(seq, st.heap), self.data(args[0], st))
            self.partial(st, raw('indexof', self.resolve(seq, st.heap), self.data(args[0], st)), ('ValueError',))
            self.setf(st, b, 'seq', gs(raw('gx', TRUE, t)))
            return NONE
        if name in ('remove', 'insert'):
            self.note('list.' + name)
            self.list_opaque(b, st)
            return NONE
        return None

    _gl = None

    def global_lists(self):
        if self._gl is None:
            m = {}
            for mod, ref in self.modobj.items():
                for k, v in self.st0.heap[ref.a[0]].f.items():
                    if v.op == 'ref':
                        m[v.a[0]] = mod + '.' + k
            for key, info in self.classes.items():
                o = self.st0.heap.get(info['ns'].a[0])
                if o is not None:
                    for k, v in o.f.items():
                        if v.op == 'ref':
                            m[v.a[0]] = key + '.' + k
            self._gl = m
        return self._gl

    def dict_method(self, b, o, name, args, kwargs, st):
        m = o.f['m']
        if name == 'get':
            k = self.data(args[0], st)
            dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            has = map_has(m, k)
            if has is FALSE:
                return dflt
            return ite(has, map_get(m, k), dflt)
        if name == 'keys':
            ks = map_keys(m)
            return gs(*[gi(TRUE, k) for k in ks]) if ks is not None else raw('keys', m)
        if name == 'values':
            if m.op == 'map':
                return gs(*[gi(TRUE, v) for k, v in m.a])
            return raw('values', m)
        if name == 'items':
            if m.op == 'map':
                return gs(*[gi(TRUE, raw('tuple', k, v)) for k, v in m.a])
            return raw('items', m)
        if name == 'update':
            if args:
                x = self.data(args[0], st)
                if x.op == 'map':
                    for k, v in x.a:
                        m = map_put(m, k, v)
                else:
                    m = raw('mupdate', m, x)
            for k, v in kwargs.items():
                m = map_put(m, C(k), v)
            self.setf(st, b, 'm', m)
            return NONE
        if name == 'setdefault':
            k = self.data(args[0], st)
            has = map_has(m, k)
            dv = args[1] if len(args) > 1 else NONE
            if has is TRUE:
                return map_get(m, k)
            self.setf(st, b, 'm', map_merge(has, m, map_put(m, k, dv)))
            return ite(has, map_get(m, k), dv) if has is not FALSE else dv
        if name == 'copy':
            return self.alloc(st, Obj('dict', {'m': m}))
        if name == 'pop':
            k = self.data(args[0], st)
            r = map_get(m, k)
            self.setf(st, b, 'm', raw('mdel', m, k))
            return r if r is not UNBOUND else raw('mget', m, k)
        return None

    def set_method(self, b, o, name, args, kwargs, st):
        if name == 'add':
            self.setf(st, b, 'seq', self.set_add(o.f['seq'], args[0], st))
            return NONE
        if name == 'update' and len(args) == 1:
            self.setf(st, b, 'seq', self.distinct(self.seq_extend(o.f['seq'], self.as_seq(args[0], st)), st))
            return NONE
        if name == 'copy':
            return self.alloc(st, Obj('set', {'seq': o.f['seq']}))
        if name == 'clear':
            self.setf(st, b, 'seq', EMPTY)
            return NONE
        return None

    def set_add(self, s, v, st):
        """the members of a set, in the order they were first added, after adding v"""
        c = contains(self.data(v, st), self.resolve(s, st.heap))
        if c is TRUE:
            return s
        if s.op != 'gs':
            s = gs(raw('gx', TRUE, s))
        return gs(*(s.a + (gi(Not(c), v),)))

    def distinct(self, s, st):
        k = gs_known(s)
        if k is None or len(k) > 1 and any(x.op != 'c' for x in k):
            return raw('distinct', self.resolve(s, st.heap))
        r = EMPTY
        for x in k:
            r = self.set_add(r, x, st)
        return r

    def elem_method(self, b, o, name, args, kwargs, st):
        if name == 'append':
            e = o.copy()
            e.f['ch'] = self.seq_append(o.f['ch'], args[0])
            st.heap[b.a[0]] = e
            return NONE
        if name == 'extend':
            e = o.copy()
            e.f['ch'] = self.seq_extend(o.f['ch'], self.as_seq(args[0], st))
            st.heap[b.a[0]] = e
            return NONE
        if name == 'set':
            e = o.copy()
            e.f['attrib'] = map_put(o.f['attrib'], self.data(args[0], st), self.data(args[1], st))
            st.heap[b.a[0]] = e
            return NONE
        if name == 'get':
            k = self.data(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            has = map_has(o.f['attrib'], k)
            return ite(has, map_get(o.f['attrib'], k), d)
        if name in ('find', 'findall', 'findtext', 'iter', 'itertext', 'iterfind'):
            p = self.data(args[0], st) if args else NONE
            r = self.find_local(b, o, name, p, st)
            if r is not None:
                return r
            return raw('mcall', self.data(b, st), name, *([p] if args else []))
        if name == 'insert' and is_const(args[0], 0):
            e = o.copy()
            e.f['ch'] = gs(*((gi(TRUE, args[1]),) + self._gs(o.f['ch']).a))
            st.heap[b.a[0]] = e
            return NONE
        if name in ('clear', 'remove', 'insert'):
            self.note('element.' + name)
            e = o.copy()
            e.f['ch'] = gs(raw('gx', TRUE, self.opaque('element.' + name)))
            st.heap[b.a[0]] = e
            return NONE
        return None

    def find_local(self, b, o, name, p, st):
        """find over children that are all statically known elements"""
        if p.op != 'c' or not isinstance(cv(p), str) or name not in ('find', 'findall'):
            return None
        path = cv(p)
        deep = False
        if path.startswith('.//'):
            deep = True
            path = path[3:]
        elif path.startswith('./'):
            path = path[2:]
        if '/' in path or '*' in path or '[' in path or '{' in path:
            return None
        hits = []

        def scan(ref, sure=True):
            oo = st.heap[ref.a[0]]
            if oo.f['ch'].op != 'gs':
                return False
            for it in oo.f['ch'].a:
                if it.op != 'gi':
                    return False
                v = it.a[1]
                if v.op != 'ref' or self.obj(st, v).kind != 'elem' or self.obj(st, v).f['tag'].op != 'c':
                    return False
                here = sure and it.a[0] is TRUE
                if cv(self.obj(st, v).f['tag']) == path:
                    if not here:
                        return False
                    hits.append(v)
                if deep and not scan(v, here):
                    return False
            return True
        if not scan(b):
            return None
        if name == 'find':
            return hits[0] if hits else NONE
        return self.new_list(st, gs(*[gi(TRUE, h) for h in hits]))

    # ------------------------------------------------------------ external operations
    def call_ext(self, name, args, kwargs, st):
        if name == 'struct.unpack' and args[0].op == 'c' and len(args) == 2:
            t = raw('unpack', args[0], self.data(args[1], st))
            self.partial(st, t, ('struct.error',) if ty(t.a[1]) == 'bytes' else ('struct.error', 'TypeError'))
            try:
                import struct
                n = len(struct.unpack(cv(args[0]), b'\0' * struct.calcsize(cv(args[0]))))
                if n == 1 and len(cv(args[0])) == 2 and cv(args[0])[0] in '>!' and cv(args[0])[1] in 'BHILQbhilq' and \
                        ty(t.a[1]) == 'bytes':
                    return raw('tuple', big_endian(t.a[1], cv(args[0])[1] in 'bhilq'))
                return raw('tuple', *[raw('unpackidx', args[0], t.a[1], i) for i in range(n)])
            except Exception:
                return t
        if name == 'struct.unpack_from' and args[0].op == 'c':
            t = raw('call', name, *[self.data(a, st) for a in args])
            self.partial(st, t, ('struct.error',))
            return t
        if name == 'struct.Struct' and len(args) == 1 and args[0].op == 'c' and not kwargs:
            try:
                import struct
                struct.calcsize(cv(args[0]))
                return raw('call', name, args[0])
            except Exception:
                pass
        if name in ('xml.etree.ElementTree.SubElement',):
            parent = args[0]
            if parent.op == 'ite':
                c, x, y = parent.a
                return self.branch_values(c, lambda s1: self.call_ext(name, [x] + args[1:], kwargs, s1),
                                          lambda s2: self.call_ext(name, [y] + args[1:], kwargs, s2), st)
            el = self.new_elem(st, args[1:], kwargs, None)
            if parent.op == 'ref' and self.obj(st, parent).kind == 'elem':
                o = st.heap[parent.a[0]].copy()
                o.f['ch'] = self.seq_append(o.f['ch'], el)
                st.heap[parent.a[0]] = o
            else:
                self.log(st, 'LOG', raw('eff', 'append', self.data(parent, st), el))
            return el
        if name == 'xml.etree.ElementTree.Element':
            return self.new_elem(st, args, kwargs, None)
        if name == 'functools.partial':
            return raw('partialfn', args[0], tuple(args[1:]))
        if name in ('sys.exit', 'os._exit', 'os.abort'):
            self.log(st, 'LOG', raw('eff', name, *[self.data(a, st) for a in args]))
            out = Out('exc', TRUE, st, raw('raise', 'SystemExit'), ('SystemExit',))
            self.aborts = self.aborts + [out]
            return ABORT
        if name in ('os.path.join', 'os.path.split', 'os.path.splitext', 'os.path.basename', 'os.path.dirname') \
                and all(a.op == 'c' for a in args) and not kwargs:
            try:
                v = getattr(os.path, name.split('.')[-1])(*[cv(a) for a in args])
                if isinstance(v, tuple):
                    return raw('tuple', *[C(x) for x in v])
                return C(v)
            except Exception:
                pass
        if name == 'math.ceil' and args[0].op == 'c':
            import math
            return C(math.ceil(cv(args[0])))
        if name == 'uuid.UUID':
            dargs = [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
            if args:
                dargs = [self.data(a, st) for a in args] + dargs
            t = raw('call', name, *dargs)
            self.partial(st, t, ('ValueError', 'TypeError'))
            return t
        if name == 'int.from_bytes':
            da = [self.data(a, st) for a in args]
            dk = dict((k, self.data(v, st)) for k, v in kwargs.items())
            order = da[1] if len(da) > 1 else dk.get('byteorder', C('big'))
            x = da[0] if da else dk.get('bytes')
            signed = dk.get('signed', FALSE)
            if order.op == 'c' and cv(order) == 'big' and x is not None and ty(x) == 'bytes' and signed in (TRUE, FALSE) and \
                    len(da) <= 2 and set(dk) <= {'byteorder', 'signed', 'bytes'}:
                return big_endian(x, signed is TRUE)
            t = raw('call', name, *([self.data(a, st) for a in args] + [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]))
            return t
        dargs = [self.data(a, st) for a in args] + [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
        t = raw('call', name, *dargs)
        pure = name in PURE_EXT or name.startswith(PURE_EXT_PREFIX)
        if not pure:
            self.log(st, 'LOG', raw('eff', name, *dargs))
        if name not in TOTAL_EXT:
            self.partial(st, t, EXT_RAISES.get(name))
        if name in ('os.path.split', 'os.path.splitext'):
            return raw('tuple', index(t, ZERO), index(t, C(1)))
        return t

    def call_builtin(self, name, args, kwargs, st):
        d = [self.data(a, st) for a in args]
        if name == 'len':
            return length(self.as_seq(args[0], st) if args[0].op in ('ref', 'range', 'zip', 'enumerate') else d[0])
        if name == 'range':
            a = [ZERO, d[0], C(1)] if len(d) == 1 else ([d[0], d[1], C(1)] if len(d) == 2 else d)
            if any(self.nonint(x) for x in a):
                self.partial(st, raw('call', 'range', *a), ('TypeError',))
            return raw('range', *a)
        if name == 'enumerate':
            start = d[1] if len(d) > 1 else kwargs.get('start', ZERO)
            return raw('enumerate', self.as_seq(args[0], st), start)
        if name == 'zip':
            return raw('zip', *[self.as_seq(a, st) for a in args])
        if name in ('list', 'tuple', 'sorted', 'reversed', 'set', 'frozenset', 'iter'):
            if not args:
                if name == 'list':
                    return self.new_list(st, EMPTY)
                if name == 'tuple':
                    return raw('tuple')
                if name in ('set', 'frozenset'):
                    return self.alloc(st, Obj('set', {'seq': EMPTY}))
            s = self.as_seq(args[0], st)
            if name in ('list', 'iter'):
                return self.new_list(st, self.as_list_seq(s))
            if name == 'tuple':
                k = gs_known(s)
                return raw('tuple', *k) if k is not None else s
            if name in ('set', 'frozenset'):
                return self.alloc(st, Obj('set', {'seq': self.distinct(self.as_list_seq(s), st)}))
            if name == 'reversed':
                k = gs_known(s)
                if k is not None:
                    return self.new_list(st, gs(*[gi(TRUE, x) for x in reversed(k)]))
            if name == 'sorted' and not kwargs:
                k = gs_known(s)
                if k is not None and all(x.op == 'c' for x in k):
                    try:
                        return self.new_list(st, gs(*[gi(TRUE, C(x)) for x in sorted(cv(y) for y in k)]))
                    except Exception:
                        pass
            extra = [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
            return self.new_list(st, gs(raw('gx', TRUE, raw('call', name, self.resolve(s, st.heap), *extra))))
        if name == 'dict':
            m = raw('map')
            if args:
                x = d[0]
                if x.op == 'map':
                    m = x
                else:
                    k = gs_known(x)
                    if k is not None and all(gs_known(p) is not None and len(gs_known(p)) == 2 for p in k):
                        for p in k:
                            kk, vv = gs_known(p)
                            m = map_put(m, kk, vv)
                    else:
                        m = raw('mapof', x)
            for k, v in kwargs.items():
                m = map_put(m, C(k), v)
            return self.alloc(st, Obj('dict', {'m': m}))
        if name in ('any', 'all'):
            s = self.as_seq(args[0], st)
            return self.quant(name, s, st)
        if name == 'sum':
            s = self.as_seq(args[0], st)
            start = d[1] if len(d) > 1 else kwargs.get('start', ZERO)
            if s.op == 'gs' and all(x.op == 'gi' for x in s.a):
                n = start
                for x in s.a:
                    n = add(n, ite(x.a[0], self.data(x.a[1], st), ZERO))
                return n
            return raw('call', 'sum', self.resolve(s, st.heap), start)
        if name == 'map' and len(args) == 2:
            f = args[0]
            out = EMPTY
            old = dict(st.heap)
            pend = [len(c) for c in self.collectors]
            for seg in self.segments(self.as_seq(args[1], st), st):
                if seg[0] == 'one':
                    v = self.call(f, [seg[2]], {}, st)
                    out = gs(*(out.a + (gi(seg[1], v),)))
                else:
                    dd = self.loopdepth
                    self.loopdepth += 1
                    v = self.call(f, [seg[3](raw('idx', dd))], {}, st)
                    self.loopdepth -= 1
                    out = gs(*(out.a + (raw('gl', seg[1], raw('cloop', dd, seg[2]), gs(gi(TRUE, self.data(v, st)))),)))
            if self.changed(old, st):
                st.heap = old
                for c, k in zip(self.collectors, pend):
                    del c[k:]
                nm = lambda x: ast.Name(id=x, ctx=ast.Load())
                return self.comp_loop([ast.comprehension(target=ast.Name(id='$x', ctx=ast.Store()), iter=nm('$s'), ifs=[], is_async=0)],
                                      ast.Call(func=nm('$f'), args=[nm('$x')], keywords=[]), st, {'$f': f, '$s': args[1]})
            return self.new_list(st, out)
        if name == 'filter' and len(args) == 2:
            f = args[0]
            out = EMPTY
            old = dict(st.heap)
            for seg in self.segments(self.as_seq(args[1], st), st):
                if seg[0] == 'one':
                    c = self.truthy(self.call(f, [seg[2]], {}, st) if not is_const(f, None) else seg[2], st)
                    out = gs(*(out.a + (gi(And(seg[1], c), seg[2]),)))
                else:
                    dd = self.loopdepth
                    self.loopdepth += 1
                    x = seg[3](raw('idx', dd))
                    c = self.truthy(self.call(f, [x], {}, st) if not is_const(f, None) else x, st)
                    self.loopdepth -= 1
                    out = gs(*(out.a + (raw('gl', seg[1], raw('cloop', dd, seg[2]), gs(gi(c, x))),)))
            if self.changed(old, st):
                self.give_up('effects in filter')
            return self.new_list(st, out)
        if name == 'next':
            s = self.as_seq(args[0], st)
            k = gs_known(s)
            if args[0].op == 'ref' and self.obj(st, args[0]).kind == 'list':        # an iterator moves on
                self.setf(st, args[0], 'seq', gs(*s.a[1:]) if k else self._gs(slice_(self.resolve(s, st.heap), C(1), NONE, NONE)))
            if k:
                return k[0]
            rs = self.resolve(s, st.heap)
            if len(args) > 1:
                return raw('firstor', rs, d[1])
            t = raw('index', rs, ZERO)
            self.partial(st, t, ('StopIteration',))
            return t
        if name == 'getattr':
            nm = d[1]
            if nm.op == 'c':
                if len(args) > 2:
                    b = args[0]
                    if b.op == 'ref' and self.obj(st, b).kind == 'inst':
                        o = self.obj(st, b)
                        if cv(nm) not in o.f and self.class_attr(o.cls, cv(nm), st) is None:
                            return args[2]
                    return self.getattr_(b, cv(nm), st)
                return self.getattr_(args[0], cv(nm), st)
            b = args[0]
            if nm.op == 'ite' and all(x.op == 'c' for x in (nm.a[1], nm.a[2])):
                return self.branch_values(nm.a[0], lambda s1: self.call_builtin(name, [b, nm.a[1]] + args[2:], kwargs, s1),
                                          lambda s2: self.call_builtin(name, [b, nm.a[2]] + args[2:], kwargs, s2), st)
            t = raw('getattr', d[0], nm)
            self.partial(st, t, ('AttributeError',))
            return t
        if name == 'setattr':
            if d[1].op == 'c':
                self.setattr_(args[0], cv(d[1]), args[2], st)
            else:
                self.give_up('setattr')
            return NONE
        if name == 'hasattr':
            if d[1].op == 'c' and args[0].op == 'ref':
                o = self.obj(st, args[0])
                if o.kind == 'inst':
                    return C(cv(d[1]) in o.f or self.class_attr(o.cls, cv(d[1]), st) is not None)
            return raw('call', 'hasattr', *d)
        if name == 'isinstance':
            return self.isinst(d[0], args[1], st)
        if name == 'callable':
            return raw('call', 'callable', d[0])
        if name == 'type' and len(d) == 1:
            k = ty(d[0])
            if k in BUILTIN_TYPES and k != 'num':
                return raw('bi', k)
            if args[0].op == 'ref' and self.obj(st, args[0]).kind == 'inst':
                return raw('cls', self.obj(st, args[0]).cls)
            return raw('call', 'type', d[0])
        if name == 'print':
            dest = 'sys.stdout'
            if 'file' in kwargs:
                f = kwargs['file']
                dest = f.a[0] if f.op == 'ext' else 'file?'
            extra = [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items()) if k != 'file']
            self.log(st, 'LOG', raw('eff', 'print:' + dest, *(d + extra)))
            return NONE
        if name == 'open':
            dargs = list(d) + [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
            t = raw('call', 'open', *dargs)
            self.log(st, 'LOG', raw('eff', 'open', *dargs))
            self.partial(st, t, None)
            return t
        if name in ('exit', 'quit'):
            return self.call_ext('sys.exit', args, kwargs, st)
        if name == 'str' and len(d) == 1 and not kwargs:
            return self.strof(d[0])
        if name == 'format':
            return self.fmt_one(d[0], d[1] if len(d) > 1 else C(''))
        if name == 'str' and args and ty(d[0]) == 'bytes' and (len(args) > 1 or kwargs):
            return self.call_method(args[0], 'decode', args[1:], kwargs, st)
        if name == 'divmod' and len(d) == 2 and not kwargs:
            return raw('tuple', self.binop(ast.FloorDiv(), d[0], d[1], st), self.binop(ast.Mod(), d[0], d[1], st))
        if name in ('int', 'float', 'bool', 'str', 'bytes', 'abs', 'round', 'min', 'max', 'ord', 'chr', 'hex', 'bin',
                    'oct', 'divmod', 'pow', 'repr', 'hash', 'bytearray', 'memoryview', 'ascii', 'object', 'id'):
            if name == 'bool':
                return self.truthy(args[0], st) if args else FALSE
            if name == 'int' and len(d) == 1 and ty(d[0]) == 'int':
                return d[0]
            if name == 'pow' and len(d) == 2:
                return arith('pow', d[0], d[1])
            if name in ('min', 'max') and len(d) == 1:
                k = gs_known(d[0])
                if k is not None and len(k) >= 1:
                    d = k
            if name in ('min', 'max') and len(d) == 2 and not kwargs:
                d = sorted(d, key=lambda x: x.dg)
            if name == 'bytes' and len(d) == 1 and ty(d[0]) == 'bytes':
                return d[0]
            extra = [raw('kw', k, self.data(v, st)) for k, v in sorted(kwargs.items())]
            if all(x.op == 'c' for x in d) and not extra:
                try:
                    return C(getattr(__import__('builtins'), name)(*[cv(x) for x in d]))
                except Exception:
                    pass
            t = raw('call', name, *(d + extra))
            if name == 'int' and hex_of(t) is not None:
                self.partial(st, t, ('ValueError',))
                return big_endian(hex_of(t))
            if name in ('int', 'float') and (len(d) > 1 or ty(d[0]) not in ('int', 'num', 'float', 'bool')):
                self.partial(st, t, ('ValueError', 'TypeError'))
            elif name == 'str' and (len(d) > 1 or extra) or name in ('ord', 'chr', 'hash', 'bytearray', 'memoryview') \
                    or name in ('min', 'max') and len(d) == 1 or name == 'bytes' and d or name == 'pow' and len(d) > 2:
                self.partial(st, t, None)
            return t
        if name == 'slice':
            return raw('sliceobj', *d)
        if name in ('eval', 'exec', 'compile', '__import__', 'input', 'globals', 'locals', 'vars'):
            self.note('builtin ' + name)
            self.log(st, 'LOG', raw('eff', name, *d))
        t = raw('call', name, *d)
        return t

    def nonint(self, x):
        return ty(x) not in ('int',) and not (x.op == 'c' and isinstance(cv(x), int))

    def as_list_seq(self, s):
        if s.op == 'gs':
            return s
        k = gs_known(s)
        if k is not None:
            return gs(*[gi(TRUE, x) for x in k])
        return gs(raw('gx', TRUE, s))

    def quant(self, name, s, st):
        if s.op == 'gs' and all(x.op == 'gi' for x in s.a):
            if name == 'any':
                return Or(*[And(x.a[0], self.truthy(x.a[1], st)) for x in s.a])
            return And(*[Or(Not(x.a[0]), self.truthy(x.a[1], st)) for x in s.a])
        s = self.resolve(s, st.heap)
        if name == 'any':
            return raw('any', s)
        # all(x) == not any(not x)
        if s.op == 'gs':
            def flip(items):
                out = []
                for it in items:
                    if it.op == 'gi':
                        out.append(gi(it.a[0], Not(truth(it.a[1]))))
                    elif it.op == 'gl':
                        out.append(raw('gl', it.a[0], it.a[1], gs(*flip(it.a[2].a))))
                    else:
                        return None
                return out
            try:
                f = flip(s.a)
                if f is not None:
                    return Not(raw('any', gs(*f)))
            except TypeError:
                pass
        return raw('all', s)

    def isinst(self, x, t, st):
        names = []
        ts = t.a if t.op == 'tuple' else (t,)
        for y in ts:
            if y.op == 'bi':
                names.append(y.a[0])
            elif y.op in ('exc', 'ext', 'cls'):
                names.append(y.a[0])
            elif y.op in ('excval', 'c') or ty(y) in ('str', 'bytes', 'int', 'num', 'float', 'bool'):
                r = raw('illtyped', C('isinstance'), x, y)      # no type
                self.partial(st, r, ('TypeError',))
                return r
            else:
                return raw('isinst', x, ('?',))
        k = ty(x)
        if k in BUILTIN_TYPES:
            if k in names or (k == 'bool' and 'int' in names):
                return TRUE
            return FALSE
        if k == 'none':
            return FALSE
        return raw('isinst', x, tuple(sorted(names)))


TOTAL_EXT = {'os.path.join', 'os.path.basename', 'os.path.abspath', 'os.path.isfile', 'os.path.isdir', 'os.path.isabs',
             'os.path.split', 'os.path.splitext', 'os.path.exists', 'os.path.dirname', 'os.walk', 'glob.glob',
             'sys.stderr.write', 'sys.stdout.write', 'binascii.hexlify', 'unicodedata.category', 'math.ceil',
             'argparse.ArgumentParser', 'codecs.getwriter', 'time.ctime', 're.search', 're.match', 're.compile',
             'os.path.normpath', 'os.path.expanduser', 're.sub'}
EXT_RAISES = {'os.path.getsize': ('OSError',), 'os.path.getmtime': ('OSError',), 'int.from_bytes': ('TypeError',)}


class _Abort(object):
    op = 'abort'
    a = ()


ABORT = _Abort()


class _NSVars(object):
    """module / class namespace presented as a variable mapping"""

    def __init__(self, interp, st, ref):
        self.i, self.st, self.ref = interp, st, ref
        self.parent = None

    def rebind(self, st):
        n = _NSVars(self.i, st, self.ref)
        n.parent = self.parent
        return n

    def get(self, k, d=None):
        v = self.st.heap[self.ref.a[0]].f.get(k)
        if v is None and self.parent is not None:
            return self.parent.get(k, d)
        return d if v is None else v

    def flat(self):
        r = dict(self.parent.flat()) if isinstance(self.parent, _NSVars) else {}
        r.update(self.st.heap[self.ref.a[0]].f)
        return r

    def __getitem__(self, k):
        return self.st.heap[self.ref.a[0]].f[k]

    def __setitem__(self, k, v):
        o = self.st.heap[self.ref.a[0]].copy()
        o.f[k] = v
        self.st.heap[self.ref.a[0]] = o

    def __contains__(self, k):
        return k in self.st.heap[self.ref.a[0]].f

    def pop(self, k, d=None):
        o = self.st.heap[self.ref.a[0]].copy()
        o.f.pop(k, None)
        self.st.heap[self.ref.a[0]] = o

    def items(self):
        return self.st.heap[self.ref.a[0]].f.items()

    def __iter__(self):
        return iter(self.st.heap[self.ref.a[0]].f)


def contains_ref(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        if x.op == 'ref':
            return True
        seen.add(x)
        stack.extend(x.a)
    return False


def big_endian(x, signed=False):
    return raw('call', 'int.from_bytes', x, C('big'), *([raw('kw', 'signed', TRUE)] if signed else []))


def hex_of(t):
    """x when t is the number written as the hexadecimal digits of the bytes x"""
    if t.op == 'call' and t.a[0] == 'int' and len(t.a) == 3 and t.a[2].op == 'c' and cv(t.a[2]) == 16:
        h = t.a[1]
        if h.op == 'call' and h.a[0] in ('binascii.hexlify', 'binascii.b2a_hex') and len(h.a) == 2 and ty(h.a[1]) == 'bytes':
            return h.a[1]
        if h.op == 'mcall' and h.a[1] == 'hex' and len(h.a) == 2 and ty(h.a[0]) == 'bytes':
            return h.a[0]
    return None


def mk_raises(term):
    if hex_of(term) is not None:
        return eq(length(hex_of(term)), C(0))
    if term.op in ('noattr', 'badcall') or (term.op == 'bound' and term.a[0] is UNBOUND) or \
            (term.op == 'attr' and term.a[0] is NONE):
        return TRUE
    if term.op == 'index' and term.a[0].op == 'call' and term.a[0].a[0] == 'unicodedata.category' and \
            term.a[1].op == 'c' and cv(term.a[1]) in (0, 1, -1, -2):
        return FALSE
    if term.op == 'index' and term.a[0].op == 'gs' and term.a[1].op == 'c' and type(cv(term.a[1])) is int:
        k = cv(term.a[1])
        return le(length(term.a[0]), C(k if k >= 0 else -k - 1))
    if term.op == 'indexof' and term.a[0].op == 'gs':
        return Not(contains(term.a[1], term.a[0]))
    if term.op == 'mget' and len(term.a) == 2:
        return Not(raw('in', term.a[1], term.a[0]))
    if term.op == 'unpack' and ty(term.a[1]) == 'bytes':
        try:
            import struct
            return Not(eq(length(term.a[1]), C(struct.calcsize(cv(term.a[0])))))
        except Exception:
            pass
    if term.op == 'attr' and term.a[0].op == 'mcall' and term.a[0].a[1] == 'find' and term.a[1] in ELEMENT_ATTRS:
        return Is(term.a[0], NONE)
    return raw('raises', term)


# attributes every element has (extended with what the program adds to the class)
ELEMENT_ATTRS = {'text', 'tag', 'tail', 'attrib', 'append', 'extend', 'insert', 'remove', 'find', 'findall', 'findtext',
                 'iter', 'iterfind', 'itertext', 'get', 'set', 'items', 'keys', 'clear', 'makeelement'}


def drop_unbound(t):
    if t.op == 'ite':
        a, b = drop_unbound(t.a[1]), drop_unbound(t.a[2])
        if a is UNBOUND:
            return b
        if b is UNBOUND:
            return a
        return ite(t.a[0], a, b)
    return t


def local_names(fn):
    if isinstance(fn, ast.Lambda):
        return set()
    out = set()
    glob = set()
    for n in _own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    # names stored only inside comprehensions are not locals of fn
    comp = set()
    for n in _own_nodes(fn):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        comp.add(x.id)
    stores = {}
    for n in _own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    ncomp = {}
    for n in _own_nodes(fn):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        ncomp[x.id] = ncomp.get(x.id, 0) + 1
    for k in comp:
        if stores.get(k, 0) == ncomp.get(k, 0):
            out.discard(k)
    return out - glob


def sub_num(a, b):
    """a - b when a is linear in b with coefficient one, else None"""
    if a is None or a is UNBOUND or a.op not in ('sum',) and a is not b:
        return None
    d = sub(a, b)
    if contains_any(d, {b}):
        return None
    return d


# ------------------------------------------------------------------ maps
def map_put(m, k, v):
    if m.op == 'map' and k.op == 'c':
        ents = list(m.a)
        for i, (kk, vv) in enumerate(ents):
            if kk is k:
                ents[i] = (k, v)
                return raw('map', *ents)
        return raw('map', *(ents + [(k, v)]))
    return raw('mput', m, k, v)


def map_get(m, k):
    if m.op == 'map':
        for kk, vv in m.a:
            if kk is k:
                return vv
        if k.op == 'c' and all(kk.op == 'c' for kk, _ in m.a):
            for kk, vv in m.a:
                if cv(kk) == cv(k):
                    return vv
            return UNBOUND
        if k.op == 'ite' and (k.a[1].op == 'c' or k.a[2].op == 'c'):
            x, y = map_get(m, k.a[1]), map_get(m, k.a[2])
            if x is not UNBOUND and y is not UNBOUND:
                return ite(k.a[0], x, y)
    if m.op == 'mput' and m.a[1] is k:
        return m.a[2]
    if m.op == 'ite':
        x, y = map_get(m.a[1], k), map_get(m.a[2], k)
        if x is not UNBOUND and y is not UNBOUND:
            return ite(m.a[0], x, y)
    return raw('mget', m, k)


def map_has(m, k):
    if m.op == 'map':
        return Or(inset(k, [kk for kk, _ in m.a if kk.op == 'c']), *[eq(k, kk) for kk, _ in m.a if kk.op != 'c'])
    if m.op == 'ite':
        return ite(m.a[0], map_has(m.a[1], k), map_has(m.a[2], k))
    return raw('in', k, m)


def map_keys(m):
    if m.op == 'map':
        return [k for k, _ in m.a]
    return None


def truth_map(m):
    if m.op == 'map':
        return C(bool(m.a))
    if m.op == 'ite':
        return ite(m.a[0], truth_map(m.a[1]), truth_map(m.a[2]))
    return Not(inset(raw('len', m), [ZERO]))


def map_merge(c, a, b):
    if a is b:
        return a
    if a.op == 'map' and b.op == 'map' and [k for k, _ in a.a] == [k for k, _ in b.a]:
        return raw('map', *[(k, v if v is w else ite(c, v, w)) for (k, v), (_, w) in zip(a.a, b.a)])
    return ite(c, a, b)
