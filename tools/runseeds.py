#!/usr/bin/env python3
"""runseeds.py [-a] [id...]: run the checks against the planted bugs, in scratch copies (-a: every check, not only its own)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(SEEDED))
props = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
caught = 0
for i in ids:
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    w = tempfile.mkdtemp(prefix='runseed.')
    try:
        r = os.path.join(w, 'repo')
        os.makedirs(r)
        for d in ('jpylyzer', 'xsd'):
            shutil.copytree('/repo/' + d, os.path.join(r, d))
        subprocess.check_call(['patch', '-s', '-p1', '-i', os.path.join(SEEDED, i, 'patch.diff')], cwd=r)
        hits = []
        for p in (props if every else [meta['property']]):
            t = time.time()
            x = subprocess.run([sys.executable, os.path.join(ROOT, 'checks', 'check.py'), p, 'quick'], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = x.stdout.decode()
            hit = x.returncode == 1 and 'VIOLATION property=%s ' % p in out
            if hit:
                hits.append(p)
            if x.returncode not in (0, 1) or not every:
                print('%-28s %-4s rc=%d %5.1f s %s' % (i, p, x.returncode, time.time() - t, 'caught' if hit else 'MISSED'))
                print('   ', '\n    '.join(l[:300] for l in out.splitlines()[:3 if hit else 40]))
        if every:
            print('%-28s %-4s %s %s' % (i, meta['property'], 'caught' if meta['property'] in hits else 'MISSED', hits))
        caught += meta['property'] in hits
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)
print('%d of %d' % (caught, len(ids)))
