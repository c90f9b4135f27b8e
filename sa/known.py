"""Rules about the program that need no reference: defects of a kind that the reference program shares."""
from . import canon as K
from . import top
from . import units as U
from .decide import expand, flat, unit_name
from .terms import T, _lin, cv, walk

LOOPS = ('loop', 'cloop', 'iloop')
DIGITS = 14000      # bits of a number whose decimal text Python still makes (4300 digits)


def deep_reports(run):
    """C17, C20: turning a report into text recurses with the depth of the XML found in the file; when that fails inside the
    loop over files and nothing handles it, the run ends in the middle of the document"""
    try:
        s = top.extract('code', 'main')
    except Exception:
        return
    for ctx, ob in expand(flat(s.obl)):
        t = ob.a[0]
        if t.op == 'call' and t.a[0] == 'xml.etree.ElementTree.tostring' and any(c.op in LOOPS for c in ctx):
            run.count('serialisations_in_file_loop')
            if any(x.op == 'call' and x.a[0] == 'cut:checkOneFile' for x in walk(t)):
                run.violation('main/tostring in the file loop', '%s.py:%s: %s serialises a report of any depth inside the loop over files; '
                              'a RecursionError is handled nowhere' % tuple(ob.a[2:5]))
                return


def endless_numbers(run):
    """C18: a number that grows with the number of entries cannot always be turned into text"""
    for k in U.ALLKEYS:
        try:
            s = U.code_model().unit(k)
        except Exception:
            continue
        run.count('units_searched_for_unbounded_numbers')
        t = s.f['characteristics']
        if t.op != 'elem':
            continue
        for ctx, e in flat(t.a[3]):
            if not isinstance(e, T) or e.op != 'elem' or not isinstance(e.a[1], T):
                continue
            counts = dict((x.a[0], x.a[1]) for c in list(ctx) + [e.a[1]] for x in walk(c) if x.op in ('cloop', 'loop'))
            for x in walk(e.a[1]):
                if x.op == 'pow' and x.a[0].op == 'c' and grows(x.a[1], counts):
                    tag = e.a[0] if isinstance(e.a[0], str) else cv(e.a[0]) if e.a[0].op == 'c' else '?'
                    run.violation('%s/%s has no bound' % (unit_name(k), tag),
                                  '%s: property "%s" is a number without bound, which str() refuses' % (unit_name(k), tag))
                    break


def grows(e, counts):
    """does the exponent grow with the number of iterations"""
    for x, k in _lin(e)[1].items():
        if x.op == 'idx' and k > 0 and x.a[0] in counts and isinstance(counts[x.a[0]], T):
            hi = K.bounds(counts[x.a[0]])[1]
            if hi is None or hi * k > DIGITS:
                return True
    return False
