"""Checks of the properties decided on the validators (boxes, marker segments)."""
from . import units as U
from .decide import UnitState, run_regions, sorted_obl, unit_name
from .options import interference
from .props import UNIT_PROPS, wanted
from .raises import discharged

ASSUME = [
    'the reference rules in spec/ref.py state the intended behaviour (ISO/IEC 15444-1/-15 as documented in doc/)',
    'the summary semantics of Python and of the library functions used (struct, ElementTree, re, codecs) in sa/interp.py',
    'a nested validator behaves as the reference says; it is itself one of the units analysed',
]


def states(run, keys):
    out = []
    for k in keys:
        s = UnitState(k)
        run.count('units')
        if s.error:
            run.count('units_not_extracted')
            run.notes.append('%s: %s' % (s.name, s.error))
            run.cov.setdefault('not_extracted', []).append('%s: %s' % (s.name, s.error))
        out.append(s)
    return out


def describe(rec):
    u = unit_name(rec['unit'])
    if rec['kind'] == 'crash':
        return '%s: %s (%s)' % (u, rec['got'], rec['region'])
    if rec['kind'] == 'long':
        return '%s: %s (%s)' % (u, rec['got'], rec['region'])
    return '%s: %s "%s" is %s where it must be %s (%s)' % (
        u, rec['field'], rec['tag'], str(rec['got'])[:200], str(rec['want'])[:200], rec['region'][:400])


def place(key):
    """source position of the validator"""
    try:
        m = U.code_model()
        n = unit_name(key).replace('(codestream)', '')
        f = m.I.program_function('boxvalidator', 'BoxValidator', 'validate_' + n)
        return f
    except Exception:
        return ''


def open_units(run, prop, ss):
    """units with an undischarged obligation that matters to the property"""
    units, sel = UNIT_PROPS[prop]
    opened = []
    for s in ss:
        if s.code is None:
            continue
        if prop == 'C18':
            obs = sorted_obl(s.code)
            run.count('raise_obligations', len(obs))
            left = []
            rs = set(id(x) for x in s.raise_open)
            for x in obs:
                why = discharged(x[0][0], x[0][1])
                if why:
                    run.count('discharged')
                    run.cov.setdefault('discharged_by', {}).setdefault(why, 0)
                    run.cov['discharged_by'][why] += 1
                elif x not in s.raise_open:
                    run.count('same_operation_under_same_guard_as_reference')
                else:
                    left.append(x)
            if left or any(o.kind == 'exc' for o in s.code.outs):
                run.count('obligations_open', len(left))
                opened.append(s)
        elif prop == 'C16':
            run.count('obligations', len(s.ok) + len(s.open))
            run.count('congruent', len(s.ok))
            if s.open or s.raise_open_new():
                opened.append(s)
        else:
            mine = [o for o in s.ok + s.open if prop in ('C01', 'C15') and (o[0] == 'tests' or o[0] == 'isValid') or
                    sel(s.key, o)]
            bad = [o for o in mine if o in s.open]
            run.count('obligations', len(mine))
            run.count('congruent', len(mine) - len(bad))
            if bad:
                opened.append(s)
                run.cov.setdefault('not_congruent', []).extend('%s: %s %s' % ((s.name,) + o) for o in bad[:20])
    return opened


def check(run, budget, deep=False, everything=False):
    prop = run.prop
    units, sel = UNIT_PROPS[prop]
    run.cov['explanation'] = (
        'Source of /repo/jpylyzer is parsed and every validator is summarised into guarded value graphs (tests, properties, '
        'warnings, verdict, next offset, what may raise). An obligation is one reported field of one validator; it is discharged '
        'when its graph is the same normal form as that of the reference rule. Validators with an open obligation (thorough: all) '
        'are compared on a representative of each region their guards induce. ')
    run.assume.extend(ASSUME)
    ss = states(run, units)
    opened = open_units(run, prop, ss)
    if everything:
        opened = [s for s in ss if s.code is not None]
    compare(run, opened, budget, deep, lambda r: wanted(prop, r))


def compare(run, opened, budget, deep, want, mode=None):
    run.cov.setdefault('regions', 0)
    run.cov.setdefault('regions_decided', 0)
    run.count('units_compared_by_region', len(opened))
    if not opened:
        return
    for r in run_regions([s.key for s in opened], budget, deep, want, mode):
        run.cov['regions'] += r['regions']
        run.cov['regions_decided'] += r['decided']
        if not r['finished']:
            run.count('units_with_regions_left')
        if r['error']:
            run.notes.append('%s: %s' % (unit_name(r['key']), r['error'][0][-300:]))
            run.count('units_not_evaluated')
        if r['undecided']:
            run.cov.setdefault('undecided', {})[unit_name(r['key'])] = r['undecided']
        seen = set()
        for x in r['recs']:
            if want(x):
                k = '%s/%s/%s/%s' % (unit_name(x['unit']), x['kind'], x['field'], x['tag'])
                if k not in seen:
                    seen.add(k)
                    run.violation(k, describe(x), record=dict((a, b) for a, b in x.items() if a != 'unit'),
                                  unit=unit_name(x['unit']))


def check_options(run, budget, deep=False, everything=False):
    """C02"""
    run.cov['explanation'] = (
        'Each value graph of each validator is specialised to the 8 combinations of the reporting options; equal means that the '
        'verdict-relevant parts are the same normal form in all of them. ')
    run.assume.extend(ASSUME)
    ss = states(run, U.ALLKEYS)
    opened = []
    for s in ss:
        if s.code is None:
            continue
        bad, n = interference(s.code)
        run.count('graphs_compared_over_8_option_combinations', n)
        run.count('equal', n - len(bad))
        if bad or everything:
            opened.append(s)
    compare(run, opened, budget, deep, lambda r: r['kind'] == 'option', 'options')
