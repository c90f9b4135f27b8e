#!/usr/bin/env python3
"""handdetect.py DEFS [-b seconds] [id...]: tools/detect.py on hand-written edits (see handrun.py), eight at a time."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
mod = runpy.run_path(args.pop(0))
defs, expect = mod['EDITS'], mod.get('EXPECT', {})
budget = '60'
if '-b' in args:
    i = args.index('-b')
    budget = args[i + 1]
    del args[i:i + 2]


def one(name):
    w = tempfile.mkdtemp(prefix='handdet.')
    try:
        r = os.path.join(w, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        for edit in defs[name]:
            p = os.path.join(r, 'jpylyzer', edit[0])
            s = open(p).read()
            if callable(edit[1]):
                t = edit[1](s)
            else:
                t = s.replace(edit[1], edit[2])
            if t == s:
                return name, None, 'edit changed nothing in ' + edit[0], 0
            compile(t, edit[0], 'exec')
            open(p, 'w').write(t)
        x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, timeout=120,
                           env=dict(os.environ, PYTHONPATH=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        m = re.search(r'(\d+) passed', x.stdout.decode())
        t0 = time.time()
        x = subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'detect.py'), budget], timeout=3000,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_WORKERS='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            return name, json.loads(x.stdout.decode().strip().splitlines()[-1]), m.group(1) if m else '0', time.time() - t0
        except Exception:
            return name, None, x.stderr.decode()[-500:], 0
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(8) as ex:
    for name, d, passed, t in ex.map(one, args or list(defs)):
        if d is None:
            print('%-28s FAILED %s' % (name, passed))
        else:
            e = expect.get(name)
            note = '' if e is None or e in d['props'] else 'MISSED %s ' % e
            print('%-28s %s%s %3.0f s passed=%s open=%s errors=%s' % (name, note, 'ALARM ' + ','.join(sorted(d['props'])) if d['props'] else 'quiet', t,
                                                                   passed, d['open'], d['errors'][:2]))
            for p, what in sorted(d['props'].items()):
                print('     %s %s' % (p, what))
        sys.stdout.flush()
