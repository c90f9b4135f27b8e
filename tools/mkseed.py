#!/usr/bin/env python3
"""mkseed.py DEFS [id...]: build planted bugs from definitions, confirming each in a scratch copy.

DEFS is a Python file with SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'seeded')
PARTS = os.path.join(ROOT, 'tools', 'mkjp2.py')


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in seeds:
        if only and s['id'] not in only:
            continue
        w = tempfile.mkdtemp(prefix='seed.')
        try:
            r = os.path.join(w, 'repo')
            shutil.copytree('/repo', r, symlinks=True)
            d = os.path.join(w, s['id'])
            os.makedirs(d)
            shutil.copy(PARTS, os.path.join(d, 'mkjp2.py'))
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write('"""Exits 0 if the property holds for the inputs below."""\nimport os\nimport sys\n'
                        'sys.dont_write_bytecode = True\n'
                        'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
                        'from mkjp2 import *    # noqa\n\n' + s['demo'].strip() + '\n')
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            a = sh(['bash', os.path.join(d, 'demo.sh')], r)
            for f, old, new in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout
            b = sh(['bash', os.path.join(d, 'demo.sh')], r)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            pf = os.path.join(w, 'p.diff')
            open(pf, 'wb').write(diff)
            subprocess.check_call(['git', '-C', '/repo', 'apply', pf])
            try:
                sh(['bash', '/opt/vp/test.sh', os.path.join(w, 'o.json')], '/repo')
            finally:
                subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
            o = json.load(open(os.path.join(w, 'o.json')))
            broken = sorted(base - set(o['passed']))
            last = '%d of %d' % (len(base) - len(broken), len(base))
            t = a
            ok = a.returncode == 0 and b.returncode != 0 and not broken
            print('%-28s %-4s unchanged=%d planted=%d tests=%s %s' % (s['id'], s['property'], a.returncode, b.returncode, last,
                                                                 'OK' if ok else 'REJECTED'))
            if a.returncode:
                print(a.stdout.decode()[-600:])
            if not b.returncode or b'Traceback' in b.stdout and b'AssertionError' not in b.stdout:
                print(b.stdout.decode()[-600:])
            if ok:
                o = os.path.join(OUT, s['id'])
                if os.path.isdir(o):
                    shutil.rmtree(o)
                shutil.copytree(d, o)
                open(os.path.join(o, 'patch.diff'), 'wb').write(diff)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                          open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(w)


main()
