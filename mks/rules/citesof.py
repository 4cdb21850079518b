"""C20, getCitations of a record: with a field, exactly the citations that have
the field and one of the values in it; without, all of them. Used by c20."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, NONE, T, TRUE, alts, is_c, show, subterms
from .c15 import origins
from .c23 import last, worlds

FIELD, VALUES = T('p', 'field'), T('p', 'values')
STRS = {'str', 'Hashable'}


def cites(t):
    """is a term the citations of the record itself"""
    return t is not None and any(x in (C('citations'), C('CR')) for x in subterms(t)) and T('p', 'self') in subterms(t)


class Client(Base):
    exact_conds = True
    max_states = 200
    progress = False

    def __init__(self, top):
        self.top, self.its, self.ends = top, {}, []

    def inline(self, eng, fn, st):
        return fn is self.top or fn.mod is self.top.mod and fn.name != '_pandasPrep' and not (fn.cls is not None and fn.name in ('get', '__getitem__', '__contains__'))

    def on_handler(self, eng, st, h, exc):
        st.facts['no field'] = True

    def join_fact(self, k, a, b):
        if k == 'no field':
            return a and b or None
        return Base.join_fact(self, k, a, b)

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        s = eng.site(node)
        if phase == 'enter':
            self.its[s] = it
            st.facts['took', s] = frozenset({0})
            st.facts.pop('no field', None)
            return
        comp = not isinstance(node, (ast.For, ast.While))
        if phase in ('iter-end', 'break') or phase == 'exit' and comp:
            self.ends.append((s, phase, st.facts.get(('took', s)), dict(st.conds), st.facts.get('no field'), eng.where(node)))
            st.facts.pop('no field', None)

    def on_add(self, eng, st, r, v, node):
        if v[0] == 'el' and st.loops:
            for l in reversed(st.loops):
                s = l if l in self.its else l[:-1] if isinstance(l, tuple) and l[:-1] in self.its else None
                if s is not None and cites(self.its[s]):
                    n = st.facts.get(('took', s)) or frozenset({0})
                    st.facts['took', s] = frozenset(min(x + 1, 2) for x in n)
                    return


def value_of(t):
    """the value a citation has in the field"""
    return any(x[0] == 'call' and x[1] == T('x', 'getattr') or x[0] == 'call' and x[1][0] == 'meth' and x[1][2] in ('__getattribute__', 'get') for x in subterms(t)) and FIELD in subterms(t)


def about(t):
    return VALUES in subterms(t) or t[0] in ('r', 'tup', 'j')


def wanted(w):
    """(should a citation be taken: True, False or None, what is wrong with the test)"""
    none = w.get(T('cmp', 'is', VALUES, NONE))
    hit, wrong = None, None
    for c, v in w.items():
        if c[0] == 'cmp' and c[1] in ('in', '==') and value_of(c[2]):
            if c[1] == 'in' or hit is None:
                hit = v
            if c[1] == 'in' and c[3] == VALUES and not many(w):
                wrong = 'a single text is looked through as if it were a list of values'
        if c[0] == 'cmp' and c[1] == 'in' and value_of(c[2]) and c[3][0] == 'call' and c[3][1] in (T('x', 'str'), T('x', 'repr')):
            wrong = 'the value is looked for in the text of the values'
        if c[0] == 'cmp' and c[1] in ('in', '==') and VALUES in c[2:] and any(x[0] == 'el' for x in subterms(c)) and not value_of(c):
            wrong = 'what is compared with the values is not what the citation has in the field'
        if c[0] == 'call' and c[1] == T('x', 'hasattr') and v is False:
            return False, None
    if none is True:
        return True, None
    if hit is not None:
        return hit, wrong
    return None, wrong


def many(w):
    """is it known that the values are not one text"""
    tests = [(c[1] if c[0] == 'truth' else c, v) for c, v in w.items()]
    tests = [(c, v) for c, v in tests if c[0] == 'call' and VALUES in subterms(c) and c[1] == T('x', 'isinstance') and len(c[2]) == 2]
    for c, v in tests:
        ks = c[2][1]
        names = {last(y) for y in (ks[1:] if ks[0] == 'tup' else (ks,))}
        if v and not names <= {'Container', 'Iterable', 'Collection', 'Sequence', 'object', 'Sized', 'Hashable'} and 'str' not in names or not v and 'str' in names:
            return True
    return any(VALUES in subterms(c) and (c[0] == 'dnf' or c[0] == 'cmp' and c[1] != 'is' and not value_of(c)) for c in w)


def record(ctx):
    m = ctx.model
    k = m.cls('ExtendedRecord')
    f = k and m.method(k, 'getCitations')
    rule, name = 'selects', 'ExtendedRecord.getCitations'
    if f is None:
        ctx.undecided(rule, name, 'not there')
        return
    ctx.saw(f)
    cl = Client(f)
    eng = Engine(m, cl, 600000)
    try:
        rets, raises = eng.run(f, {}, k, {})
    except Budget:
        ctx.undecided(rule, name, 'too many paths')
        return
    seen = 0
    for s, phase, took, conds, missing, where in cl.ends:
        it = cl.its.get(s)
        src = [x for x in origins(eng, it)] if it is not None else []
        if not any(cites(x) for x, lost in src):
            continue
        if conds.get(T('cmp', 'is', FIELD, NONE)) is True:
            if phase != 'break' and took == frozenset({0}):
                ctx.ob(rule, name, False, 'a citation is left out although no field was asked for', where)
            continue
        for x, lost in src:
            if 'part' in lost:
                ctx.ob(rule, name, False, 'only a part of the citations is looked at', where)
        if phase == 'break':
            ctx.ob(rule, name, False, 'the search stops before the last citation', where)
            continue
        if took is None or len(took) > 1:
            ctx.undecided(rule, name, 'not known whether a citation is taken')
            continue
        for w in worlds(conds):
            if missing:
                ctx.ob(rule, name + ' without the field', took == frozenset({0}), 'a citation without the field is given', where)
                continue
            want, wrong = wanted(w)
            seen += 1
            if wrong and took != frozenset({0}):
                ctx.ob(rule, name, False, wrong, where)
            elif want is None:
                odd = any(c[0] == 'dnf' or value_of(c) or c[0] == 'call' for c in w)
                if odd:
                    ctx.undecided(rule, name, 'a test that is not followed')
                else:
                    ctx.ob(rule, name, took == frozenset({0}) and w.get(T('cmp', 'is', VALUES, NONE)) is None and w.get(T('truth', FIELD)) is False,
                           'a citation is {} without comparing its value'.format('taken' if took != frozenset({0}) else 'left out'), where)
            else:
                ctx.ob(rule, name, (took == frozenset({1})) == want and took != frozenset({2}),
                       'a citation is given twice' if took == frozenset({2}) else 'a citation with one of the values is left out' if want else 'a citation with another value is given', where)
    if not seen:
        ctx.undecided(rule, name, 'no selection recognised')
    for st, v in rets:
        if st.conds.get(T('cmp', 'is', FIELD, NONE)) is not True:
            continue
        for x in alts(v):
            if x[0] == 'call' and x[1][0] in ('f', 'x') and str(x[1][1]).split(':')[-1].split('.')[-1] == '_pandasPrep':
                x = x[2][0]
            for a in alts(x):
                for src, lost in origins(eng, a):
                    if not cites(src):
                        if src[0] == 'r':
                            continue
                        ctx.ob(rule, name + ' all', is_c(src) is False, 'gives {} when no field is asked for'.format(show(src)), f.where())
                    else:
                        ctx.ob(rule, name + ' all', not set(lost) & {'part', 'filter'}, 'only a part of the citations is given', f.where())
