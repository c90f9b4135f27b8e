#!/usr/bin/env python3
"""refactor.py [transform...] [-p C01,C02]: apply behaviour-preserving rewrites to a scratch copy of the source and run the
checks on it; every check must stay quiet.  -t: also run the stable tests on the rewritten copy."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}


def transform(f):
    T[f.__name__] = f
    return f


class Map(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn

    def generic_visit(self, n):
        super().generic_visit(n)
        r = self.fn(n)
        return n if r is None else r


def each(tree, fn):
    return ast.fix_missing_locations(Map(fn).visit(tree))


def stmt(src):
    return ast.parse(src).body


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


@transform
def unparsed(t):
    return t


@transform
def condvar(t):
    k = [0]

    def f(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                n.value.func.attr == 'testFor' and len(n.value.args) == 2:
            k[0] += 1
            v = 'outcome%d' % k[0]
            a = ast.Assign([name(v, ast.Store())], n.value.args[1])
            n.value.args[1] = name(v)
            return [a, n]
    return each(t, f)


@transform
def flip(t):
    def f(n):
        if isinstance(n, ast.If) and n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return each(t, f)


@transform
def chain(t):
    """a <= x <= b  ->  a <= x and x <= b"""
    def f(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 2 and isinstance(n.comparators[0], ast.Name):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, n.ops[:1], n.comparators[:1]),
                                          ast.Compare(copy.deepcopy(n.comparators[0]), n.ops[1:], n.comparators[1:])])
    return each(t, f)


@transform
def forwhile(t):
    k = [0]

    def f(n):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') == 'range' and \
                len(n.iter.args) <= 2 and isinstance(n.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            k[0] += 1
            a = n.iter.args
            lo = a[0] if len(a) == 2 else ast.Constant(0)
            hi = a[-1]
            i, e = 'pos%d' % k[0], 'end%d' % k[0]
            return [ast.Assign([name(i, ast.Store())], lo), ast.Assign([name(e, ast.Store())], hi),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [ast.Assign([ast.Name(n.target.id, ast.Store())], name(i))] + n.body +
                              [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    return each(t, f)


@transform
def plain_assign(t):
    def f(n):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
    return each(t, f)


@transform
def record_helper(t):
    def f(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('testFor', 'addCharacteristic'):
            n.func.attr = {'testFor': '_record', 'addCharacteristic': '_report'}[n.func.attr]
            return n
        if isinstance(n, ast.ClassDef) and n.name == 'BoxValidator':
            n.body += stmt('def _record(self, what, outcome):\n    """Record."""\n    return self.testFor(what, outcome)\n'
                           'def _report(self, key, value):\n    self.addCharacteristic(charValue=value, characteristic=key)\n')
            return n
    return each(t, f)


@transform
def membership(t):
    """x in [a, b] -> x == a or x == b; not in -> !="""
    def f(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, (ast.Name, ast.Attribute)):
            neg = isinstance(n.ops[0], ast.NotIn)
            return ast.BoolOp(ast.And() if neg else ast.Or(),
                              [ast.Compare(copy.deepcopy(n.left), [ast.NotEq() if neg else ast.Eq()], [e]) for e in n.comparators[0].elts])
    return each(t, f)


@transform
def member_set(t):
    def f(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            n.comparators = [ast.Set(n.comparators[0].elts)]
            return n
    return each(t, f)


@transform
def alias_contents(t):
    def f(n):
        if isinstance(n, ast.FunctionDef) and n.name.startswith(('validate_', '_getBox', '_getMarker')) :
            if any(isinstance(x, ast.Attribute) and x.attr == 'boxContents' and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                return
            if any(isinstance(x, ast.Name) and x.id == 'contents_' for x in ast.walk(n)):
                return
            n2 = each(n, lambda x: name('contents_') if isinstance(x, ast.Attribute) and x.attr == 'boxContents' and
                      getattr(x.value, 'id', '') == 'self' else None)
            d = 1 if ast.get_docstring(n2) else 0
            n2.body.insert(d, stmt('contents_ = self.boxContents')[0])
            return n2
    return each(t, f)


@transform
def noop(t):
    def f(n):
        if isinstance(n, ast.FunctionDef):
            d = 1 if ast.get_docstring(n) else 0
            n.body[d:d] = stmt('_unused = None\nif False:\n    _unused = 1\n')
            n.body.insert(len(n.body) - 1, stmt('pass')[0])
            return n
    return each(t, f)


@transform
def delegate(t):
    """move every validator body to another method"""
    def f(n):
        if isinstance(n, ast.ClassDef) and n.name == 'BoxValidator':
            new = []
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name.startswith('validate_'):
                    w = copy.deepcopy(m)
                    w.name = '_check_' + m.name[9:]
                    new.append(w)
                    m.body = stmt('return self.%s()' % w.name)
            n.body += new
            return n
    return each(t, f)


@transform
def early_return(t):
    """trailing  if c: A   ->  if not c: return;  A   in validators"""
    def f(n):
        if isinstance(n, ast.FunctionDef) and n.name.startswith('validate_') and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            last = n.body.pop()
            n.body += [ast.If(ast.UnaryOp(ast.Not(), last.test), stmt('def f():\n return')[0].body, [])] + last.body
            return n
    return each(t, f)


@transform
def conv_helper(t):
    def f(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', '') == 'bc' and \
                n.func.attr.startswith('bytesTo') and len(n.args) == 1 and isinstance(n.args[0], ast.Subscript) and \
                isinstance(n.args[0].slice, ast.Slice) and isinstance(n.args[0].value, ast.Attribute) and n.args[0].value.attr == 'boxContents':
            s = n.args[0].slice
            return ast.Call(ast.Attribute(name('self'), '_field', ast.Load()), [ast.Constant(n.func.attr), s.lower or ast.Constant(None),
                                                                                 s.upper or ast.Constant(None)], [])
        if isinstance(n, ast.ClassDef) and n.name == 'BoxValidator':
            n.body += stmt('def _field(self, kind, lo, hi):\n    raw = self.boxContents[lo:hi]\n    return getattr(bc, kind)(raw)\n')
            return n
    return each(t, f)


@transform
def yoda(t):
    def f(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
            return ast.Compare(n.comparators[0], [o()], [n.left])
    return each(t, f)


@transform
def while_true(t):
    def f(n):
        if isinstance(n, ast.While) and not n.orelse:
            n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
            n.test = ast.Constant(True)
            return n
    return each(t, f)


@transform
def fstrings(t):
    """'a' + str(x) + 'b' -> f-string, for sums with a string constant whose other parts are str() calls"""
    def parts(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = parts(n.left), parts(n.right)
            return None if a is None or b is None else a + b
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return [n]
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'str' and len(n.args) == 1:
            return [ast.FormattedValue(n.args[0], -1, None)]
        return None

    def f(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            p = parts(n)
            if p and any(isinstance(x, ast.Constant) for x in p) and any(isinstance(x, ast.FormattedValue) for x in p):
                return ast.JoinedStr(p)
    return each(t, f)


@transform
def ternary(t):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    def f(n):
        if isinstance(n, ast.If) and len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and \
                isinstance(n.orelse[0], ast.Assign) and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
    return each(t, f)


@transform
def swap_independent(t):
    """x = <expr of self.boxContents>; move runs of addCharacteristic after the testFor that follows"""
    def call(s, a):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'attr', '') == a

    def f(n):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                i = 0
                while i + 1 < len(b):
                    if call(b[i], 'addCharacteristic') and call(b[i + 1], 'testFor'):
                        b[i], b[i + 1] = b[i + 1], b[i]
                        i += 1
                    i += 1
        return None
    return each(t, f)


@transform
def nested_else(t):
    """append: items in verdict-free functions: if/elif/else with return -> sequential ifs"""
    def f(n):
        if isinstance(n, ast.If) and n.orelse and isinstance(n.body[-1], ast.Return):
            o = n.orelse
            n.orelse = []
            return [n] + o
    return each(t, f)


@transform
def local_function(t):
    """tests recorded through a local closure"""
    def f(n):
        if isinstance(n, ast.FunctionDef) and n.name.startswith('validate_'):
            each(n, lambda x: name('check') if isinstance(x, ast.Attribute) and x.attr == 'testFor' else None)
            d = 1 if ast.get_docstring(n) else 0
            n.body[d:d] = stmt('def check(what, outcome):\n    self.testFor(what, outcome)\n')
            return n
    return each(t, f)


@transform
def bound_method(t):
    def f(n):
        if isinstance(n, ast.FunctionDef) and n.name.startswith('validate_'):
            each(n, lambda x: name('add') if isinstance(x, ast.Attribute) and x.attr == 'addCharacteristic' else None)
            d = 1 if ast.get_docstring(n) else 0
            n.body[d:d] = stmt('add = self.addCharacteristic')
            return n
    return each(t, f)


@transform
def split_half(t):
    """second half of long validators in a helper that gets the locals as parameters"""
    def assigned(b):
        out = []
        for s in b:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                    out.append(x.id)
        return out

    def used(b):
        return set(x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))

    def f(n):
        if isinstance(n, ast.ClassDef) and n.name == 'BoxValidator':
            new = []
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name.startswith('validate_') and len(m.body) > 8 and \
                        not any(isinstance(x, ast.Return) for x in ast.walk(m)):
                    k = len(m.body) // 2
                    a, b = m.body[:k], m.body[k:]
                    # names assigned on some path only stay where they are
                    top = [x.id for s in a if isinstance(s, ast.Assign) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                    need = [v for v in assigned(a) if v in used(b)]
                    if any(v not in top for v in need):
                        continue
                    w = stmt('def _rest_%s(self%s):\n    pass' % (m.name[9:], ''.join(', ' + v for v in need)))[0]
                    w.body = b
                    m.body = a + stmt('self._rest_%s(%s)' % (m.name[9:], ', '.join(need)))
                    new.append(w)
            n.body += new
            return n
    return each(t, f)


def run(tr, props, tests):
    w = tempfile.mkdtemp(prefix='refactor.')
    bad = 0
    try:
        r = os.path.join(w, 'repo')
        if tests:
            shutil.copytree('/repo', r, symlinks=True)
        else:
            os.makedirs(r)
            for d in ('jpylyzer', 'xsd'):
                shutil.copytree('/repo/' + d, os.path.join(r, d))
        for fn in os.listdir(os.path.join(r, 'jpylyzer')):
            if fn.endswith('.py'):
                p = os.path.join(r, 'jpylyzer', fn)
                src = open(p).read()
                t = T[tr](ast.parse(src))
                open(p, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
        if tests:
            x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print('%-18s tests rc=%d %s' % (tr, x.returncode, x.stdout.decode().splitlines()[-1]))
        for p in props:
            t0 = time.time()
            x = subprocess.run([sys.executable, os.path.join(ROOT, 'checks', 'check.py'), p, 'quick'], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = x.stdout.decode().splitlines()
            if x.returncode != 0:
                bad += 1
                print('%-18s %-4s rc=%d %5.1f s ALARM\n    %s' % (tr, p, x.returncode, time.time() - t0, '\n    '.join(l[:300] for l in out[-8:])))
            elif time.time() - t0 > 10 or 'not_extracted' in out[-1]:
                print('%-18s %-4s quiet %5.1f s %s' % (tr, p, time.time() - t0, out[-1][:200]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(w)
    print('%-18s %s' % (tr, 'quiet' if not bad else '%d ALARMS' % bad))
    sys.stdout.flush()
    return bad


def main():
    a = sys.argv[1:]
    props = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    tests = '-t' in a
    a = [x for x in a if x != '-t']
    if '-p' in a:
        i = a.index('-p')
        props = a[i + 1].split(',')
        del a[i:i + 2]
    sys.exit(1 if sum(run(x, props, tests) for x in (a or T)) else 0)


if __name__ == '__main__':
    main()
