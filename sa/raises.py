"""Discharging raise obligations: an operation that can raise never does so where it is reached."""
from .terms import T, TRUE, FALSE, NONE, And, Not, assume, implied, cv, walk
from .interp import UNBOUND, mk_raises


def drop(t, gs_, n=0):
    """t with the branches the guards exclude removed"""
    for g in gs_:
        t = assume(t, g, True, conds=True)
    return t


def discharged(ctx, term):
    """name of the rule that shows the obligation cannot fail, or None"""
    guards = [c for c in ctx if c.op not in ('loop', 'cloop', 'iloop')]
    loops = [c for c in ctx if c.op in ('loop', 'cloop', 'iloop')]
    if term.op == 'child':
        return 'nested validator (has its own obligations)'
    if FALSE in guards or And(*guards) is FALSE:
        return 'unreachable'
    r = mk_raises(term)
    if r is FALSE:
        return 'never raises'
    if r is not TRUE:
        if any(implied(r, g, True) is False for g in guards) or And(*(guards + [r])) is FALSE:
            return 'excluded by guard'
    if term.op == 'bound':
        t = drop(term.a[0], guards)
        for x in leaves(t):
            if x is UNBOUND:
                break
        else:
            return 'bound on every path'
    if term.op == 'index' and term.a[1].op == 'idx':
        for l in loops:
            if l.op == 'cloop' and l.a[0] == term.a[1].a[0] and l.a[1].op == 'len' and l.a[1].a[0] is term.a[0]:
                return 'index below length'
    return None


def leaves(t):
    if t.op == 'ite':
        for x in leaves(t.a[1]):
            yield x
        for x in leaves(t.a[2]):
            yield x
    else:
        yield t
