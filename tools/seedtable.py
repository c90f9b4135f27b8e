#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | check | breaks | needs |', '|---|---|---|---|']
for n in sorted(os.listdir(ROOT + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (ROOT, n)))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\(`tools/runseeds.py`\):\n\n).*?(?=## Mutation runs)', lambda m: m.group(1) + '\n'.join(rows) + '\n\n', s, flags=re.S)
open(p, 'w').write(s)
