#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-n COUNT] [-s SEED] [-f file.py] [-j JOBS]: sample small changes of the program, keep those the stable
tests do not notice, and record which properties' checks report them (tools/detect.py)."""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['boxvalidator.py', 'jpylyzer.py', 'mix.py', 'etpatch.py', 'byteconv.py', 'shared.py', 'config.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq, ast.GtE],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.Div: [ast.Mult, ast.FloorDiv], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Mult]}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        b = getattr(n, 'body', None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            out.add(id(b[0].value))
    return out


def sites(src):
    """[(description, new source)] as thunks"""
    tree = ast.parse(src)
    docs = docstrings(tree)
    nodes = list(ast.walk(tree))
    index = dict((id(n), i) for i, n in enumerate(nodes))
    out = []

    def at(n, what, f):
        def go():
            t = copy.deepcopy(tree)
            f(list(ast.walk(t))[index[id(n)]], t)
            return ast.unparse(ast.fix_missing_locations(t))
        out.append(('%d %s' % (n.lineno, what), go))

    def put(**kw):
        def f(n, t):
            for k, v in kw.items():
                setattr(n, k, v() if callable(v) else v)
        return f
    funcs = [n for n in nodes if isinstance(n, ast.FunctionDef)]
    local = {}
    for fn in funcs:
        ns = sorted(set(x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) |
                    set(a.arg for a in fn.args.args if a.arg != 'self'))
        for x in ast.walk(fn):
            local[id(x)] = ns
    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    def f(m, t, i=i, alt=alt):
                        m.ops[i] = alt()
                    at(n, '%s to %s' % (type(op).__name__, alt.__name__), f)
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in BIN.get(type(n.op), []):
                at(n, '%s to %s' % (type(n.op).__name__, alt.__name__), put(op=alt))
        elif isinstance(n, ast.BoolOp):
            at(n, 'and/or', put(op=ast.Or if isinstance(n.op, ast.And) else ast.And))
            for i in range(len(n.values)):
                def f(m, t, i=i):
                    del m.values[i]
                at(n, 'drop operand %d' % i, f)
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                at(n, 'flip %s' % v, put(value=not v))
            elif isinstance(v, int):
                at(n, '%d + 1' % v, put(value=v + 1))
                at(n, '%d - 1' % v, put(value=v - 1))
                if v > 8:
                    at(n, '%d // 2' % v, put(value=v // 2))
            elif isinstance(v, float):
                at(n, '%r + 1' % v, put(value=v + 1))
            elif isinstance(v, bytes) and v:
                at(n, 'last byte of %r' % v, put(value=v[:-1] + bytes([v[-1] ^ 1])))
            elif isinstance(v, str) and v and hasattr(n, 'lineno'):
                at(n, 'text %r' % v[:20], put(value=v[:-1] + ('x' if v[-1] != 'x' else 'y')))
        elif isinstance(n, ast.If):
            at(n, 'negate if', lambda m, t: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            at(n, 'if always', lambda m, t: setattr(m, 'test', ast.Constant(True)))
            at(n, 'if never', lambda m, t: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.Break):
            pass
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(m, t):
                m.op, m.operand = ast.Not(), ast.UnaryOp(ast.Not(), m.operand)
            at(n, 'drop not', f)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local.get(id(n), ()):
            o = [x for x in local[id(n)] if x != n.id]
            if o:
                x = random.choice(o)
                near = [y for y in o if y[:3] == n.id[:3] or y[-3:] == n.id[-3:]]
                if near:
                    x = random.choice(near)
                at(n, '%s for %s' % (x, n.id), put(id=x))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            def f(m, t):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            at(n, 'swap arguments', f)
        elif isinstance(n, ast.ExceptHandler):
            at(n, 'handler for KeyError only', put(type=lambda: ast.Name('KeyError', ast.Load())))
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                def f(m, t, i=i):
                    del m.keywords[i]
                at(n, 'drop keyword %s' % n.keywords[i].arg, f)
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Break, ast.Continue, ast.Return, ast.Delete)) and \
                        not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def f(m, t, i=i, field=field):
                        getattr(m, field)[i] = ast.Pass()
                    at2(out, tree, index, n, s, f)
                if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and \
                        isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def f(m, t, i=i, field=field):
                        x = getattr(m, field)
                        x[i], x[i + 1] = x[i + 1], x[i]
                    at2(out, tree, index, n, s, f, 'swap with next: ')
    return out


def at2(out, tree, index, n, s, f, what='delete: '):
    def go():
        t = copy.deepcopy(tree)
        f(list(ast.walk(t))[index[id(n)]], t)
        return ast.unparse(ast.fix_missing_locations(t))
    out.append(('%d %s%s' % (s.lineno, what, ast.unparse(s)[:60]), go))


def main():
    args = sys.argv[1:]
    path = args.pop(0)

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default
    n, seed, jobs = int(opt('-n', '100')), int(opt('-s', '1')), int(opt('-j', '8'))
    files = opt('-f', ','.join(FILES)).split(',')
    random.seed(seed)
    cand = []
    for f in files:
        src = open('/repo/jpylyzer/' + f).read()
        cand += [(f, d, go) for d, go in sites(src)]
    print('%d sites' % len(cand))
    # by statement text, so that no kind of change dominates
    random.shuffle(cand)
    cand = cand[:n]

    def one(c):
        f, d, go = c
        w = tempfile.mkdtemp(prefix='mut.')
        try:
            r = os.path.join(w, 'repo')
            shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
            try:
                t = go()
                compile(t, f, 'exec')
            except Exception:
                return dict(file=f, what=d, status='not a program')
            open(os.path.join(r, 'jpylyzer', f), 'w').write(t)
            try:
                x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, timeout=120,
                                   env=dict(os.environ, PYTHONPATH=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                m = re.search(r'(\d+) passed', x.stdout.decode())
            except subprocess.TimeoutExpired:
                m = None
            if not m or int(m.group(1)) < 175:
                return dict(file=f, what=d, status='tests fail')
            try:
                x = subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'detect.py'), '20'], timeout=900,
                                   env=dict(os.environ, VERIF_REPO=r, VERIF_WORKERS='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                res = json.loads(x.stdout.decode().strip().splitlines()[-1])
            except Exception as e:
                return dict(file=f, what=d, status='detect failed', error=str(e)[:300] + x.stderr.decode()[-300:])
            return dict(res, file=f, what=d, status='caught' if res['props'] else 'quiet')
        finally:
            shutil.rmtree(w)
    with open(path, 'w') as o, ThreadPoolExecutor(jobs) as ex:
        for res in ex.map(one, cand):
            o.write(json.dumps(res) + '\n')
            o.flush()


if __name__ == "__main__":
    main()
