"""Verdict, evidence and known findings of one check run."""
import hashlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.jsonl')


class Run(object):
    def __init__(self, prop, tier, level='other'):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {}
        self.assume = []
        self.bad = []           # (key, description, details)
        self.notes = []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, what, **details):
        """key: the construct at fault (stable); what: one line"""
        self.bad.append((key, what, details))

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == self.prop and d.get('status') == 'known':
                        out[d['key']] = d
        return out

    def finish(self):
        known = self.known()
        new = []
        for key, what, d in self.bad:
            if key in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[key]['what']))
            else:
                new.append((key, what, d))
        code = 0
        if new:
            code = 1
            rd = os.path.join(ROOT, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s.json' % (self.prop, hashlib.sha1(new[0][0].encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump([dict(key=k, what=w, **d) for k, w, d in new[:20]], f, indent=1, default=repr)
            for k, w, d in new[:10]:
                print('  %s' % w)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        for n in self.notes:
            print('  note: %s' % n)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
                  coverage=self.cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s %s: %s in %.1f s; %s' % (self.prop, self.tier, 'violated' if code else 'holds on everything analysed',
                                           time.time() - self.t0,
                                           ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int))))
        sys.stdout.flush()
        return code
