"""Shared analysis for the side-effect properties (C04, C05, C22)."""
from .. import effects
from ..api import API
from ..clients import is_coll, is_record
from ..interp import T, show, subterms
from ..model import Cls

SKIP_MODULES = ('metaknowledge.bin.', 'metaknowledge.progressBar', 'metaknowledge.constants')
# documented in-place operations: the object they are called on is the one they change
INPLACE_SELF = {'add', 'discard', 'remove', 'clear', 'pop', 'split', '__ior__', '__iand__', '__isub__', '__ixor__', 'dropNonJournals',
                'dropBadEntries', 'discardID', 'removeID', '__init__', '_loadFromCache', '__setitem__', '__delitem__', 'update', '__setstate__',
                'popitem', 'setdefault', '__del__'}
# documented as changing the graph they are given
INPLACE_ARG = {'dropEdges': {0}, 'dropNodesByDegree': {0}, 'dropNodesByCount': {0}, 'mergeGraphs': {0}, 'diffusionAddCountsFromSource': {0},
               'writeTnetFile': {0}, 'addToNetwork': {0}, 'expandRecs': {0}, 'makeTable': {0}}
# values a record or citation remembers once computed
MEMO = {('ExtendedRecord', '_computedFields'), ('Citation', '_hash')}


def entries(ctx, quick_only=None):
    m = ctx.model
    out = []
    for fid in sorted(API):
        f = m.funcs.get(fid)
        if f is None or any(fid.startswith(x) for x in SKIP_MODULES):
            continue
        cs = [f.cls]
        if f.cls is not None and ctx.thorough:
            cs = [c for c in m.subclasses(f.cls) if m.method(c, f.name) is f or m.prop(c, f.name) is f]
        for c in cs or [f.cls]:
            out.append((f, c))
    return out


def analyse(ctx):
    """[(fn, selfcls, [(term, owner, how, where, value)], why-undecided)]"""
    m = ctx.model
    res = []
    for f, c in entries(ctx):
        muts, why = effects.run(m, f, c)
        if why:
            cl = effects.Client()
            cl.max_states = 3
            muts2, why = effects.run(m, f, c, budget=600000, client=cl)
            muts = muts + muts2 if why else muts2
        ctx.saw(f)
        rows, seen = [], set()
        for t, how, where, e, fn, v in muts:
            how = how if isinstance(how, str) else str(how)
            if (t, how, where) in seen:
                continue
            seen.add((t, how, where))
            for a, o in effects.owners(t):
                rows.append((a, o, how, where, v, fn))
        res.append((f, c, rows, why))
        ctx.count('functions interpreted')
        ctx.count('in-place changes classified', len(rows))
    return res


def params(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        names.append(a.vararg.arg)
    if a.kwarg:
        names.append(a.kwarg.arg)
    return names


def is_memo(m, f, c, t, how):
    """self._computedFields[...] = ..., citation._hash = ..."""
    classes = {k.name for k in m.mro(c) if isinstance(k, Cls)} if c is not None else set()
    for x in subterms(t):
        if x[0] == 'at' and any(x[2] == a for cl, a in MEMO):
            return True
    return how.startswith('attr:') and any(how[5:] == a and cl in classes for cl, a in MEMO)


def keeps_value(t, how, v):
    """self.x = copy.copy(self.x): the value stays equal"""
    if not how.startswith('attr:') or v is None or not isinstance(v, tuple):
        return False
    at = T('at', t, how[5:])
    if v == at:
        return True
    return v[0] == 'r' and str(v[1][0]).endswith('cp')
