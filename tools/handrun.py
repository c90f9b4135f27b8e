#!/usr/bin/env python3
"""handrun.py DEFS [-p C01,C02] [-t] [id...]: run all checks on hand-written changes that keep the behaviour (or, with expected
violations, break it), in scratch copies.  DEFS is a Python file with EDITS = {id: [(file, old, new) or (file, function of the text), ...]}; -t runs the tests."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
defs = runpy.run_path(args.pop(0))['EDITS']
props = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
tests = '-t' in args
if tests:
    args.remove('-t')
if '-p' in args:
    i = args.index('-p')
    props = args[i + 1].split(',')
    del args[i:i + 2]
for name in args or list(defs):
    w = tempfile.mkdtemp(prefix='handrun.')
    try:
        r = os.path.join(w, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        for edit in defs[name]:
            f = edit[0]
            p = os.path.join(r, 'jpylyzer', f)
            s = open(p).read()
            if callable(edit[1]):
                t = edit[1](s)
                if t == s:
                    sys.exit('%s: edit changed nothing in %s' % (name, f))
                compile(t, f, 'exec')
                open(p, 'w').write(t)
                continue
            old, new = edit[1:]
            if s.count(old) < 1:
                sys.exit('%s: text not found in %s: %r' % (name, f, old[:80]))
            open(p, 'w').write(s.replace(old, new))
        if tests:
            x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r,
                               env=dict(os.environ, PYTHONPATH=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print('%-30s tests: %s' % (name, x.stdout.decode().strip().splitlines()[-1]))

        slow = {}

        def one(p):
            t = time.time()
            x = subprocess.run([sys.executable, os.path.join(ROOT, 'checks', 'check.py'), p, 'quick'], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            slow[p] = time.time() - t
            return p, x.returncode, x.stdout.decode()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, props))
        bad = [(p, rc, o) for p, rc, o in res if rc != 0]
        un = [p for p, rc, o in res if 'not_extracted' in o]
        und = [p for p, rc, o in res if 'undecided' in o]
        print('%-30s %s%s%s' % (name, 'quiet' if not bad else 'ALARM ' + ','.join(p for p, _, _ in bad),
                                '  not extracted: ' + ','.join(un) if un else '', '  undecided: ' + ','.join(und) if und else ''))
        print('       slowest: ' + ', '.join('%s %.0f s' % (p, t) for p, t in sorted(slow.items(), key=lambda x: -x[1])[:4] if t > 30))
        for p, rc, o in bad:
            print('     %s rc=%d %s' % (p, rc, '\n     '.join(l[:330] for l in o.splitlines()[:2])))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)
