"""C15, diffusion: the counts of diffusionCount and the counts put on a graph by
diffusionAddCountsFromSource. Used by c15."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms
from ..table import strip_calls, summands
from .c23 import worlds

TOTAL = C('TargetCount')


KNOWN = ('makeNodeID', 'diffusionGraph', 'diffusionCount', 'diffusionAddCountsFromSource')


def helper(fn, top):
    return fn.mod is top.mod and fn.cls is None and fn.name not in KNOWN


class Diff(Base):
    exact_conds = True
    max_states = 400
    handler_states = 100
    progress = False

    def __init__(self, top):
        self.top, self.bodies = top, None
        self.its, self.ends, self.incs, self.stores, self.again, self.breaks = {}, [], [], [], [], []

    def inline(self, eng, fn, st):
        return fn is self.top or helper(fn, self.top)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name.replace(':', '.').split('.')[-1] == self.top.name and st.cur is not None:
            self.again.append((tuple(args), dict(kw), eng.where(node)))

    def join_fact(self, k, a, b):
        if k == 'handled':
            return a or b
        return Base.join_fact(self, k, a, b)

    def on_handler(self, eng, st, h, exc):
        st.facts['handled'] = True
        body = self.body_of(h)
        for k, v in list(st.facts.items()):
            if isinstance(k, tuple) and k[0] == 'n':
                n0 = st.facts.get(('n0', k[1], k[2]))
                if n0 is not None and n0[1] in body:        # what failed was not counted
                    v = n0[0]
                st.facts[k] = frozenset({min(v)})

    def body_of(self, h):
        if self.bodies is None:
            self.bodies = {}
            for n in ast.walk(self.top.node):
                if isinstance(n, ast.Try):
                    lines = {id(x) for b in n.body for x in ast.walk(b)}
                    for x in n.handlers:
                        self.bodies[id(x)] = lines
        return self.bodies.get(id(h), ())

    def on_loop(self, eng, st, node, phase, it):
        site = eng.site(node)
        if phase == 'enter':
            self.its[site] = it
            for kind in ('total', 'extra', 'store'):
                st.facts['n', site, kind] = frozenset({0})
                st.facts.pop(('n0', site, kind), None)
            st.facts.pop('handled', None)
            for s in st.loops[:-1]:
                st.facts['in', s] = st.facts.get(('in', s), frozenset()) | {site}
            st.facts['in', site] = frozenset()
        elif phase in ('iter-end', 'break'):
            n = {k: st.facts.get(('n', site, k)) for k in ('total', 'extra', 'store')}
            self.ends.append((site, phase, n, st.facts.get(('in', site), frozenset()), dict(st.conds), st.facts.get('handled'), eng.where(node)))
            st.facts.pop('handled', None)

    def count(self, st, kind, node):
        if not st.loops:
            return
        s = st.loops[-1]
        n = st.facts.get(('n', s, kind))
        last = st.facts.get(('n0', s, kind))
        if last is not None and last[1] == id(node):
            return          # the same change, of another object it may be
        if n is not None:
            st.facts['n0', s, kind] = (n, id(node))
            st.facts['n', s, kind] = frozenset(min(x + 1, 2) for x in n)

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how == 'update' and st.loops:
            self.count(st, 'store', node)
        if how != 'item' or not value or not st.loops:
            return
        from .c15 import reads, with_default
        key, v = value
        ss = summands(v)
        old = [x for x in ss if reads(x[1], t, key)]
        rest = [x for x in ss if x not in old]
        where = eng.where(node)
        dflt = with_default(v, key) if not rest else None
        if len(old) == 1 and rest:
            amount = rest[0][1] if len(rest) == 1 and old[0][0] == 1 and rest[0][0] == 1 else None
            mode = 'inc'
        elif is_c(v) and isinstance(v[2], int):
            amount, mode = v, 'set'
        else:
            self.stores.append((st.loops[-1], t, key, v, dict(st.conds), where, st.copy()))
            self.count(st, 'store', node)
            return
        kind = self.kind(eng, t, key)
        self.incs.append((st.loops, kind, mode, amount, t, key, dict(st.conds), st.facts.get('handled'), where))
        self.count(st, kind, node)

    def kind(self, eng, t, key):
        if key == TOTAL:
            return 'total'
        if any(x == T('p', 'extraValue') or x == T('p', 'extraMapping') for x in self.deep(eng, key)):
            return 'extra'
        return 'total'

    def deep(self, eng, t, d=0):
        out = set(subterms(t))
        if d < 4:
            for x in list(out):
                for how, b, node in eng.made.get(x, ()):
                    out |= self.deep(eng, b, d + 1)
        return out


def about(it, p):
    return it is not None and T('p', p) in subterms(it)


def diffusion(ctx):
    ctx.rule('C15.diffusion', 'every citation of a source by a target counts once, under every value of the source and for every extra value of the target')
    m = ctx.model
    f = m.funcs.get('metaknowledge.diffusion:diffusionCount')
    if f is None:
        ctx.undecided('C15.diffusion', 'diffusionCount', 'not there')
        return
    ctx.saw(f)
    cl = Diff(f)
    eng = Engine(m, cl, 3000000)
    try:
        rets, raises = eng.run(f)
    except Budget:
        ctx.undecided('C15.diffusion', 'diffusionCount', 'too many paths')
        return
    judge(ctx, cl, eng)


def named(it, p):
    return it is not None and strip_calls(it, ('list', 'tuple', 'set', 'sorted', 'iter')) == T('p', p)


def no_value(conds):
    """the record has no value (makeNodeID gave nothing) whichever way the conditions hold"""
    def lacking(w):
        for c, v in w.items():
            x = c[1] if c[0] == 'truth' else c[2] if c[0] == 'cmp' and c[1] == 'is' and c[3] == NONE else c
            if c[0] == 'dnf' or v == (c[0] == 'cmp') and 'makeNodeID' in show_names(x):
                return True
        return False
    return all(lacking(w) for w in worlds(conds))


def show_names(t):
    return {x[1][1].split(':')[-1].split('.')[-1] for x in subterms(t) if x[0] == 'call' and x[1][0] in ('f', 'x') and isinstance(x[1][1], str)}


def not_cited(conds, handled, key=None):
    """nothing is known under the citation (or the key)"""
    if handled:
        return True

    def lacking(w):
        for c, v in w.items():
            if c[0] == 'dnf':
                return True
            if c[0] == 'cmp' and c[1] == 'in' and v is False and (c[2] == key if key is not None else cited(c[2])):
                return True
            x = c[2] if c[0] == 'cmp' and c[1] == 'is' and c[3] == NONE and v is True else c[1] if c[0] == 'truth' and v is False else c if c[0] in ('call', 'it') and v is False else None
            if x is not None and (any(y == key for y in subterms(x)) if key is not None else cited(x)):
                return True
        return False
    return all(lacking(w) for w in worlds(conds))


def cited(t):
    return any(x[0] == 'el' and any(y == C('citations') or y == C('CR') for y in subterms(x)) for x in subterms(t))


def judge(ctx, cl, eng):
    from .c15 import origins
    rule, name = 'C15.diffusion', 'diffusionCount'
    tot = {i[0][-1] for i in cl.incs if i[1] == 'total'}
    ext = {i[0][-1] for i in cl.incs if i[1] == 'extra'}
    ext = {s for s in ext if any(x in (T('p', 'extraValue'), T('p', 'extraMapping')) for x in cl.deep(eng, cl.its.get(s, NONE)))}
    if not tot:
        ctx.undecided(rule, name, 'no counting recognised')
        return
    stores = {}
    for s, t, key, v, conds, where, st in cl.stores:
        if 'createCitation' in str(key):
            stores.setdefault(s, []).append((t, key, v, conds, where))
    # what is gone through
    for s in tot | ext | set(stores):
        it = cl.its.get(s)
        for src, lost in origins(eng, it) if it is not None else ():
            for l in lost:
                w = {'part': 'only a part', 'filter': 'only a part', 'dedup': 'each value only once'}[l]
                ctx.ob(rule, name + ' all of it', False, 'of {} {} is counted'.format(show(src)[:60], w), next((e[6] for e in cl.ends if e[0] == s), ''))
    for site, phase, n, inside, conds, handled, where in cl.ends:
        it = cl.its.get(site)
        if phase == 'break':
            if site in tot | ext | set(stores) or named(it, 'source') or named(it, 'target'):
                ctx.ob(rule, name + ' to the end', False, 'counting stops before the last of ' + show(it)[:60], where)
            continue
        if site in tot:
            k = n['total']
            if k is None or len(k) > 1:
                ctx.undecided(rule, name + ' once', 'not known how often a citation counts')
            elif k == frozenset({0}):
                ok = bool(inside & tot) or not_cited(conds, handled)
                ctx.ob(rule, name + ' once', ok, 'a citation of a source is not counted', where)
            else:
                ctx.ob(rule, name + ' once', k == frozenset({1}) and not inside & tot, 'a citation counts more than once', where)
        if site in ext:
            k = n['extra']
            if k is None or len(k) > 1:
                ctx.undecided(rule, name + ' extra', 'not known how often an extra value counts')
            else:
                ctx.ob(rule, name + ' extra', k == frozenset({1}), 'an extra value of the target counts {}'.format('more than once' if k == frozenset({2}) else 'not at all'), where)
        if named(it, 'target'):
            ctx.ob(rule, name + ' targets', bool(inside & tot) or n['total'] != frozenset({0}) or any(v is False or c[0] == 'dnf' or c[1] == 'is' for c, v in conds.items() if 'itations' in str(c) or "'CR'" in str(c)), 'the citations of a target are not gone through', where)
        if named(it, 'source') and stores:
            ctx.ob(rule, name + ' sources', n['store'] != frozenset({0}) or bool(inside & set(stores)) or no_value(conds), 'a source that has a value is left out', where)
    for loops, kind, mode, amount, t, key, conds, handled, where in cl.incs:
        if kind == 'total' and loops[-1] in ext:
            ctx.ob(rule, name + ' once', False, 'a citation counts once for every extra value', where)
        what = 'a citation' if kind == 'total' else 'an extra value'
        if amount is None or not is_c(amount):
            ctx.undecided(rule, name + ' one', 'the step is not a number')
            continue
        ctx.ob(rule, name + ' one', amount == C(1), '{} counts {}'.format(what, amount[2]), where)
        if mode == 'set':
            ctx.ob(rule, name + ' reset', not_cited(conds, handled, key), 'a count that is there is set to 1', where)
    for s, l in stores.items():
        for t, key, v, conds, where in l:
            every = any(x[0] == 'kw' and x[1] == 'multiCite' and x[2] == C(True) for x in subterms(key))
            want = conds.get(T('truth', T('p', 'useAllAuthors')))
            if want is None:
                ctx.undecided(rule, name + ' authors', 'not known whether all authors are wanted')
            else:
                ctx.ob(rule, name + ' authors', every == want, 'with useAllAuthors {} a source is known by its citation under {}'.format(want, 'every author' if every else 'the first author'), where)
    for args, kw, where in cl.again:
        a = [args[i] if len(args) > i else kw.get(p) for i, p in enumerate(('source', 'target'))]
        ctx.ob(rule, name + ' local', all(x == T('p', 'source') for x in a), 'the local counts are those of {} in {}'.format(*[show(x) if x else '?' for x in a]), where)


class Put(Base):
    exact_conds = True
    progress = False

    def __init__(self, top):
        self.top, self.puts, self.ends, self.its = top, [], [], {}

    def inline(self, eng, fn, st):
        return fn is self.top or helper(fn, self.top)

    def on_loop(self, eng, st, node, phase, it):
        s = eng.site(node)
        if phase == 'enter':
            self.its[s] = it
            st.facts['put', s] = False
        else:
            self.ends.append((s, phase, st.facts.get(('put', s)), eng.where(node)))

    def join_fact(self, k, a, b):
        if isinstance(k, tuple) and k[0] == 'put':
            return bool(a and b)
        return Base.join_fact(self, k, a, b)

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how == 'item' and value and value[0] == T('p', 'diffusionLabel') and st.loops:
            self.puts.append((st.loops, value[1], eng.where(node)))
            for s in st.loops:
                st.facts['put', s] = True


def labels(ctx):
    from .c17 import graph_part
    rule, name = 'C15.diffusion', 'diffusionAddCountsFromSource'
    f = ctx.model.funcs.get('metaknowledge.diffusion:' + name)
    if f is None:
        return
    ctx.saw(f)
    cl = Put(f)
    eng = Engine(ctx.model, cl, 1500000)
    try:
        eng.run(f)
    except Budget:
        ctx.undecided(rule, name, 'too many paths')
        return
    if not cl.puts:
        ctx.undecided(rule, name, 'no label recognised')
        return
    outer = {l[0] for l, v, w in cl.puts}
    for s, phase, put, where in cl.ends:
        if s in outer and graph_part(cl.its.get(s) or NONE) == 'nodes':
            if phase == 'break':
                ctx.ob(rule, name + ' every node', False, 'the labelling stops before the last node', where)
            elif phase == 'iter-end':
                ctx.ob(rule, name + ' every node', bool(put), 'a node is left without its count', where)
    for l, v, where in cl.puts:
        for a in alts(v):
            if is_c(a):
                ctx.ob(rule, name + ' nothing counted', a == C(0), 'a node without a count gets {}'.format(show(a)), where)
            elif a[0] == 'call' and a[1][0] == 'meth' and a[1][2] == 'get':
                d = a[2][1] if len(a[2]) > 1 else NONE
                ctx.ob(rule, name + ' nothing counted', d == C(0) or not is_c(d), 'a node without a count gets {}'.format(show(d)), where)
