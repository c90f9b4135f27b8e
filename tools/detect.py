#!/usr/bin/env python3
"""detect.py [seconds]: one pass over VERIF_REPO; prints as JSON which properties' checks would report something, and how far
the graphs are congruent.  (For mutation runs; the checks themselves are checks/check.py.)"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import units as U                                           # noqa: E402
from sa import history, known, topprops, unitcheck                  # noqa: E402
from sa.decide import UnitState, run_regions                        # noqa: E402
from sa.options import interference                                 # noqa: E402
from sa.props import UNIT_PROPS, wanted                             # noqa: E402
from sa.report import Run                                           # noqa: E402
from sa.topcheck import Unit, differences, scenarios                # noqa: E402


class Quiet(Run):
    def finish(self):
        k = self.known()
        return [w for key, w, d in self.bad if key not in k]


def main(budget):
    out = {'open': [], 'props': {}, 'errors': []}

    def hit(p, what):
        out['props'].setdefault(p, str(what)[:160])
    ss = [UnitState(k) for k in U.ALLKEYS]
    for s in ss:
        if s.error:
            out['errors'].append('%s: %s' % (s.name, s.error))
    op = {}
    need = set()
    for p in UNIT_PROPS:
        op[p] = set(s.key for s in unitcheck.open_units(Quiet(p, 'quick'), p, [s for s in ss if s.key in UNIT_PROPS[p][0]]))
        need |= op[p]
    out['open'] += [s.name for s in ss if s.key in need]
    recs = []
    if need:
        for r in run_regions([s.key for s in ss if s.key in need], budget, False, None):
            recs += r['recs']
            if r['error']:
                out['errors'].append(r['error'][0][-200:])
    for p in UNIT_PROPS:
        for r in recs:
            if r['unit'] in op[p] and wanted(p, r):
                hit(p, unitcheck.describe(r))
                break
    out['recs'] = len(recs)
    iv = [s.key for s in ss if s.code is not None and interference(s.code)[0]]
    if iv:
        out['open'].append('options')
        for r in run_regions(iv, budget, False, lambda r: r['kind'] == 'option', 'options'):
            for x in r['recs']:
                if x['kind'] == 'option':
                    hit('C02', x['got'])
    tables = [(p, d) for t in (topprops.PROPS, topprops.EXTRA, topprops.REQUIRED) for p, d in t.items()]
    for name in ('checkOneFile', 'main', 'human', 'mix', 'defaults'):
        u = Unit(name)
        if u.error:
            out['errors'].append('%s: %s' % (name, u.error))
            continue
        if not u.open:
            continue
        out['open'].append(name)
        mine = [(p, d) for p, d in tables if name in d['units'] and any(d['units'][name](f) for f in u.open)]
        for desc, play, info in scenarios(name, False):
            try:
                a, b = play('code'), play('spec')
            except Exception as e:
                out['errors'].append('%s: %s' % (name, e))
                continue
            ds = differences(name, a, b, info)
            if ds is None:
                continue
            if ds:
                out['recs'] += 1
            for p, d in mine:
                if p in out['props']:
                    continue
                if 'judge' in d and a.unknown:
                    bad = []
                elif 'judge' in d:
                    bad = list(d['judge'](name, a, b, info))
                else:
                    bad = [x for x in ds if d['pick'](name, x[0], info, a, b)]
                if bad:
                    hit(p, bad[0])
    for p, f in (('C17', topprops.never_exit), ('C21', topprops.validators_quiet), ('C22', topprops.opens_readonly),
                 ('C17', known.deep_reports), ('C18', known.endless_numbers), ('C23', lambda r: history.check(r, False))):
        r = Quiet(p, 'quick')
        try:
            f(r)
        except Exception as e:
            out['errors'].append('%s %s' % (p, e))
        for w in r.finish():
            hit(p, w)
    print(json.dumps(out))


main(float(sys.argv[1]) if len(sys.argv) > 1 else 20.0)
