#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import unitcheck            # noqa: E402
from sa.props import UNIT_PROPS     # noqa: E402
from sa import history                # noqa: E402
from sa import topprops               # noqa: E402
from sa import known                # noqa: E402
from sa.report import Run           # noqa: E402

QUICK = float(os.environ.get('VERIF_BUDGET', '240'))
THOROUGH = float(os.environ.get('VERIF_BUDGET', '2400'))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    deep = tier == 'thorough'
    run = Run(prop, tier)
    budget = THOROUGH if deep else QUICK
    if prop not in UNIT_PROPS and prop not in topprops.PROPS and prop not in topprops.REQUIRED and prop not in ('C02', 'C23'):
        sys.exit('unknown property ' + prop)
    try:
        decide(run, prop, budget, deep)
    except Exception as e:
        # a construct the analysis does not cover: nothing is concluded from it
        run.count('analysis_incomplete')
        run.notes.append('analysis stopped at %s: %s (%s)' % (type(e).__name__, str(e)[:200],
                                                              traceback.format_exc().splitlines()[-3].strip()))
    return run.finish()


def decide(run, prop, budget, deep):
    if prop == 'C02':
        unitcheck.check_options(run, budget, deep, deep)
        topprops.extra(run, deep)
    elif prop in UNIT_PROPS:
        unitcheck.check(run, budget, deep, deep)
        topprops.extra(run, deep)
    elif prop == 'C23':
        history.check(run, deep)
    elif prop in topprops.PROPS or prop in topprops.REQUIRED:
        topprops.check(run, deep)
    if prop in ('C17', 'C20'):
        known.deep_reports(run)
    if prop == 'C18':
        known.endless_numbers(run)


if __name__ == '__main__':
    sys.exit(main())
