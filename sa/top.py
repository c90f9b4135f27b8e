"""Summaries of the program around the validators: command line, discovery, one report per file, text conversion, MIX.

Same extraction as for the validators; effects (writes, opens, exits) are sequences of guarded items, so each observable
(standard output, standard error, exit, files opened, calls of the per-file analysis) is a value graph of its own.
"""
import os
from .terms import C, atom, raw, cv, EMPTY, gs, gi, T
from .interp import Program, Interp, State, Obj
from .units import repo_program, SPEC, Summary

CODE = dict(
    checkOneFile=('jpylyzer', 'checkOneFile', ('makeHumanReadable', 'generateMix')),
    defaults=('jpylyzer', 'checkOneFile', ('makeHumanReadable', 'generateMix')),
    main=('jpylyzer', 'main', ('checkOneFile',)),
    human=('etpatch', 'Element.makeHumanReadable', ()),
    mix=('mix', 'Mix.generateMix', ()),
)
REF = dict(
    checkOneFile=('top', 'checkOneFile', ('makeHumanReadable', 'generateMix')),
    defaults=('top', 'checkOneFile', ('makeHumanReadable', 'generateMix')),
    main=('top', 'main', ('checkOneFile',)),
    human=('top', 'makeHumanReadable', ()),
    mix=('top', 'generateMix', ()),
)
UNITS = tuple(CODE)


def A(n, t=None):
    return atom(n, t)


def arguments(unit, tag=''):
    if tag:
        return [A(x.a[0] + tag, x.a[1]) for x in arguments(unit)]
    if unit == 'checkOneFile':
        return [A('path', 'str'), A('fmt', 'str'), A('verbose', 'bool'), A('pm', 'bool'), A('nullxml', 'bool'), A('mix', 'int')]
    if unit == 'defaults':
        return [A('path', 'str')]
    if unit == 'human':
        return [A('E'), A('table')]
    if unit == 'mix':
        return [A('mix', 'int'), A('E')]
    return []


_models = {}


def model(which):
    if which not in _models:
        if which == 'code':
            I = Interp(repo_program())
            I.child_class = 'BoxValidator'
        else:
            I = Interp(Program({'top': os.path.join(SPEC, 'top.py')}))
            I.child_class = 'Ref'
        _models[which] = (I, {})
    return _models[which]


def extract(which, unit):
    I, cache = model(which)
    if unit in cache:
        if isinstance(cache[unit], Exception):
            raise cache[unit]
        return cache[unit]
    try:
        cache[unit] = _extract(I, (CODE if which == 'code' else REF)[unit], unit, which)
    except Exception as e:
        cache[unit] = e
        raise
    return cache[unit]


def again(unit, tag='', heap=None, havoc=None):
    """the source's unit once more: with renamed inputs, from a state left by an earlier call"""
    I, _ = model('code')
    return _extract(I, CODE[unit], unit, 'code', tag, heap, havoc)


def _extract(I, spec, unit, which, tag='', heap=None, havoc=None):
    mod, fn, cuts = spec
    I.collectors = [[]]
    I.try_stack = []
    I.eguard = []
    I.inline_stack = []
    I.loopdepth = 0
    I.unsupported = []
    I.curmod = mod
    I.cuts = set(cuts)
    I.cut_children = True
    I.havoc = havoc
    st = State({}, dict(I.st0.heap if heap is None else heap))
    for w in ('LOG', 'OBL'):
        st.heap[w] = Obj('log', {'seq': EMPTY})
    args = arguments(unit, tag)
    if '.' in fn:
        cls, meth = fn.split('.')
        f = I.global_lookup(mod, cls, st)
        if unit == 'mix':
            o = I.call(f, args[:1], {}, st)
            f = I.getattr_(o, meth, st)
            args = args[1:]
        else:
            m = I.class_attr(f.a[0], meth, st)
            f = m
    else:
        f = I.global_lookup(mod, fn, st)
    s = Summary()
    s.unit = unit
    s.name = fn
    r = I.call(f, args, {}, st)
    memo = {}
    s.aborts = r is None or r.op == 'abort'
    s.res = None if s.aborts else I.resolve(r, st.heap, memo=memo)
    s.log = I.resolve(st.heap['LOG'].f['seq'], st.heap, memo=memo)
    s.obl = I.resolve(st.heap['OBL'].f['seq'], st.heap, memo=memo)
    s.outs = [x for c in I.collectors for x in c]
    s.outlogs = [I.resolve(o.st.heap['LOG'].f['seq'], o.st.heap) for o in s.outs]
    s.unsupported = sorted(set(str(x) for x in I.unsupported))
    s.heap = st.heap
    return s
