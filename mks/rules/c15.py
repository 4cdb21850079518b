"""C15: counts and weights are what was counted - every visit of an element
or pair changes its counter by exactly one, from nothing to 1 or from n to n + 1."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms
from ..table import summands, strip_calls

GRAPH_ATTRS = {'count': ('nodeCount', 'count'), 'weight': ('edgeWeight', 'weighted')}
RECORDS = {'source', 'target', 'RecCollect'}

from .c23 import worlds
from .diffuse import diffusion, labels


def cell_of(t, key):
    """('node', graph, (n,), attr) / ('edge', graph, (a, b[, k]), attr) / ('dict', container, (key,), None)"""
    if is_c(key) and key[2] in GRAPH_ATTRS and t[0] == 'it':
        b, k = t[1], t[2]
        if b[0] == 'at' and b[2] == 'nodes' or b[0] == 'at' and b[2] == '_node':
            return 'node', b[1], (k,), key[2]
        if b[0] == 'at' and b[2] == 'edges':
            return 'edge', b[1], k[1:] if k[0] == 'tup' else (k,), key[2]
        path = [k]
        while b[0] == 'it':
            path.append(b[2])
            b = b[1]
        if b[0] == 'at' and b[2] == 'adj':
            b = b[1]
        return 'edge', b, tuple(reversed(path)), key[2]
    if is_c(key) and key[2] == 'count' and t[0] == 'r':
        return 'init', t, (key,), 'count'
    if is_c(key) and key[2] in GRAPH_ATTRS and t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'get_edge_data':
        return 'edge', t[1][1], tuple(t[2]), key[2]
    return 'dict', t, (key,), None


def reads(x, t, key):
    """is x the old value of the cell?"""
    for a in alts(x):
        if a[0] == 'it' and a[2] == key:
            return True
        if a[0] == 'call' and a[1][0] == 'meth' and a[1][2] == 'get' and a[2] and a[2][0] == key:
            return True
    return False


class Client(Base):
    max_states = 900
    exact_conds = True
    handler_states = 300
    progress = False
    opaque_funcs = ('networkCitation', 'addToNetwork', 'expandRecs', 'filterCites', 'makeID', 'normalizeToTag', 'createCitation', 'diffusionCount', 'getInvestigators', 'getInstitutions')

    def __init__(self, top):
        self.iters, self.events, self.its, self.breaks = [], [], {}, {}
        self.top, self.tries = top, None

    def inline(self, eng, fn, st):
        if fn.name in self.opaque_funcs and fn is not self.top:
            return False
        if fn.cls is not None and any(k.name == 'Record' for k in eng.m.mro(fn.cls) if hasattr(k, 'methods')):
            return False
        return Base.inline(self, eng, fn, st)

    def join_fact(self, k, a, b):
        if k == 'new':
            return (a or frozenset()) & (b or frozenset())
        if k == 'ev':
            return (('LOST',),)
        return Base.join_fact(self, k, a, b)

    def on_handler(self, eng, st, handler, exc):
        # the counter read in the try body was not there (for cells whose key has several origins)
        st.facts['handled'] = True
        if exc in ('KeyError', 'LookupError', 'ANY', 'Exception'):
            st.facts['missing'] = self.tried(eng, handler)

    def tried(self, eng, handler):
        if self.tries is None:
            self.tries = {}
            for m in eng.m.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Try):
                        ks = tuple((s.slice.value, names_of(s)) for b in n.body for s in ast.walk(b) if isinstance(s, ast.Subscript)
                                   and isinstance(s.slice, ast.Constant) and isinstance(s.slice.value, str))
                        for h in n.handlers:
                            self.tries[id(h)] = ks
        return self.tries.get(id(handler), ())

    def leave(self, st, n):
        st.facts['ev'] = tuple(e for e in st.facts.get('ev', ()) if e[0] == 'LOST' or len(e[1]) < n)
        st.facts.pop('missing', None)
        st.facts.pop('new', None)
        st.facts.pop('handled', None)

    def log(self, st, ev):
        st.facts['ev'] = st.facts.get('ev', ()) + (ev,)

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how not in ('item',) or not value:
            return
        key, v = value
        c = cell_of(t, key)
        ss = summands(v)
        old = [x for x in ss if reads(x[1], t, key)]
        rest = [x for x in ss if x not in old]
        if len(old) == 1 and old[0][0] == 1 and rest:
            mode, amount = 'inc', number(rest)
        elif len(ss) == 1 and old and old[0][0] == 1 and v[0] == 'it':
            mode, amount = 'inc', C(0)
        elif len(ss) == 1 and old and len(old) == 1:
            a = with_default(v, key)
            mode, amount = ('inc', a) if a is not None else ('other', v)
        elif is_c(v) and isinstance(v[2], int) and not isinstance(v[2], bool):
            mode, amount = 'set', v
        else:
            inner = one_slot(eng, st, v)
            if inner is not None:
                mode, amount = 'set', inner
            elif c[0] == 'dict':
                return
            else:
                mode, amount = 'other', v
        if mode == 'inc' and amount is None:
            mode, amount = 'other', v
        self.add(eng, st, node, c, mode, amount, t, key)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'for:':
            ex = eng.exact_elems(st, recv) if recv is not None else None
            if isinstance(node, ast.For) and (ex is None or not ex or len(ex) > self.unroll):
                self.log(st, ('visit', st.loops, st.loops + (eng.site(node),)))
            return
        if name in ('add_node', 'add_edge') and recv is not None:
            for attr in GRAPH_ATTRS:
                v = kw.get(attr)
                if name == 'add_node':
                    c = ('node', recv, tuple(args[:1]), attr)
                else:
                    ks = tuple(args[:2]) + ((kw['key'],) if 'key' in kw else tuple(args[2:3]))
                    c = ('edge', recv, ks, attr)
                if v is None:
                    if absent(eng, st, c, None, None):
                        st.facts['new'] = st.facts.get('new', frozenset()) | {c[:3]}
                    if (name == 'add_node') == (attr == 'count') and '**' not in kw:
                        self.log(st, ('touch', st.loops, c, eng.where(node)))
                    continue
                self.add(eng, st, node, c, 'set' if is_c(v) else 'other', v, None, None)

    def add(self, eng, st, node, c, mode, amount, t, key):
        ab = None
        if mode == 'set':
            ab = absent(eng, st, c, t, key) or c[:3] in st.facts.get('new', ()) or c[0] == 'dict' and key[0] == 'el' and over_records(key[1]) or any(
                a == c[3] and names <= names_of(node) for a, names in st.facts.get('missing', ()))
            if ab and amount == C(0):
                st.facts['new'] = st.facts.get('new', frozenset()) | {c[:3]}
        root = c[1]
        while root[0] in ('it', 'at') and c[0] == 'dict':
            root = root[1]
        ev = ('ev', st.loops, (c[0], root if c[0] == 'dict' else None, c[3]), c[1:3], mode, amount, ab, eng.where(node))
        self.events.append((ev, dict(st.conds), self.chain(eng, st)))
        self.log(st, ev)

    def chain(self, eng, st):
        return tuple((s, tuple(self.its.get(s, ()))) for s in st.loops)

    def on_loop(self, eng, st, node, phase, it):
        site = eng.site(node)
        if phase == 'enter':
            if it is not None:
                l = self.its.setdefault(site, [])
                if it not in l:
                    l.append(it)
            ev = st.facts.get('ev', ())
            n = len(st.loops)
            st.facts['ev'] = tuple(e for e in ev if e[0] == 'LOST' or e[1][:n] != st.loops)
        elif phase == 'iter-end':
            self.iters.append((st.loops, st.facts.get('ev', ()), dict(st.conds), eng.where(node), it))
            self.leave(st, len(st.loops))
        elif phase == 'break':
            self.breaks.setdefault(site, eng.where(node))
            self.leave(st, st.loops.index(site) + 1 if site in st.loops else len(st.loops))


def names_of(node):
    return frozenset(y.id for y in ast.walk(node) if isinstance(y, ast.Name))


def number(rest):
    """the term a sum of the given summands stands for"""
    if all(is_c(y) and isinstance(y[2], (int, float)) for _, y in rest):
        return C(sum(x * y[2] for x, y in rest))
    if len(rest) == 1 and rest[0][0] == 1:
        return rest[0][1]
    return None


def with_default(v, key):
    return None


def one_slot(eng, st, v):
    """a dictionary made on the spot with one number in it"""
    o = eng.obj(st, v)
    if o is not None and o.kind == 'dict' and o.exact and len(o.slots) == 1:
        x = list(o.slots.values())[0]
        if is_c(x) and isinstance(x[2], int) and not isinstance(x[2], bool):
            return x
    return None


def absent(eng, st, c, t, key):
    """does the path say that the counter does not exist yet?"""
    kind, g, ks, attr = c
    o = eng.obj(st, g)
    if kind == 'dict' and o is not None and o.kind == 'dict' and o.exact and not o.slots:
        return True
    gt = o.slots.get('gtype') if o is not None and o.kind == 'graph' else None
    und = gt is not None and 'Di' not in gt[2]
    multi = gt is not None and gt[2].startswith('Multi')
    chain = set()
    b = T('it', t, key) if t is not None else None
    while b is not None and b[0] in ('it', 'at'):
        chain.add(b)
        b = b[1]

    def says(a, v):
        if a[0] == 'dnf':
            return v and all(any(says(x[1], x[2][2]) for x in c[1:]) for c in a[1:])
        if v:
            return False
        if a[0] == 'call':
            a = T('truth', a)
        if a[0] == 'cmp' and a[1] == 'in':
            x, y = a[2], a[3]
            if T('it', y, x) in chain:
                return True
            if t is not None and x == key and y == t:
                return True
            if kind == 'dict':
                if x == key and (y == t or strip_calls(y, ('list', 'set', 'tuple', 'sorted')) == t or y[0] == 'dview' and y[2] == t):
                    return True
                return False
            if kind == 'node':
                if x == ks[0] and part(y, g) in ('nodes', 'graph'):
                    return True
                return False
            if is_c(x) and x[2] == attr and y[0] == 'it':
                d = cell_of(y, x)
                if d[0] == 'edge' and d[1] == g and same(d[2], ks, und):
                    return True
            if x[0] == 'tup' and part(y, g) == 'edges' and same(x[1:], ks, und):
                return True
            if y[0] == 'it' and (y[1] == g or y[1][0] == 'at' and y[1][1] == g and y[1][2] in ('adj', '_adj')) and same((y[2], x), ks, und):
                return True
            if y[0] == 'it' and y[1][0] == 'it' and y[1][1] == g and len(ks) == 3 and same((y[1][2], y[2]), ks[:2], und) and x == ks[2]:
                return True
            if y[0] == 'call' and y[1][0] == 'meth' and y[1][1] == g and y[1][2] in ('neighbors', 'successors') and same((y[2][0], x), ks, und):
                return True
            if x in ks[:2] and part(y, g) in ('nodes', 'graph'):
                return True
        elif a[0] == 'truth' and a[1][0] == 'call' and a[1][1][0] == 'meth' and a[1][1][1] == g:
            f, args = a[1][1][2], a[1][2]
            kw = {x[1]: x[2] for x in args if x[0] == 'kw'}
            args = tuple(x for x in args if x[0] != 'kw')
            if f == 'has_node' and kind == 'node' and args and args[0] == ks[0]:
                return True
            if f == 'has_edge' and kind == 'edge':
                xs = tuple(args) + ((kw['key'],) if 'key' in kw else ())
                if same(xs, ks, und) or len(xs) == 2 and same(xs, ks[:2], und):
                    return True
        return False
    return any(says(a, v) for a, v in st.conds.items())


def part(y, g):
    if y == g:
        return 'graph'
    if y[0] == 'at' and y[1] == g:
        return y[2]
    if y[0] == 'call' and y[1][0] == 'meth' and y[1][1] == g:
        return y[1][2]
    return None


def same(a, b, und):
    a, b = tuple(a), tuple(b)
    if a == b or und and len(a) >= 2 and len(a) == len(b) and (a[1], a[0]) + a[2:] == b:
        return True
    return len(a) == 2 and len(b) == 3 and same(a, b[:2], und)


def over_records(it):
    it = it[1] if it is not None and it[0] == 'enum' else it
    if it is None:
        return False
    it = strip_calls(it, ('list', 'tuple', 'set', 'sorted', 'iter'))
    return it == T('p', 'self') or it[0] == 'at' and it[1] == T('p', 'self') and it[2] == '_collection' or it[0] == 'p' and it[1] in RECORDS


def underlying(eng, it):
    """the lists an iterable runs over, each with the first index: (list, start) ; start None when partial in a way not understood"""
    if it[0] == 'enum':
        return underlying(eng, it[1])
    if it in eng.slices:
        return sorted(eng.slices[it], key=str)
    if it[0] == 'it' and it[2][0] == 'slice':
        return [(it[1], it[2])]
    if it[0] == 'range':
        return [(it, None)]
    return [(it, C(0))]


LOSING = {'set': 'dedup', 'frozenset': 'dedup', 'dict.fromkeys': 'dedup', 'collections.OrderedDict.fromkeys': 'dedup', 'collections.Counter': 'dedup',
          'numpy.unique': 'dedup', 'itertools.islice': 'part', 'itertools.takewhile': 'part', 'itertools.dropwhile': 'part', 'random.sample': 'part'}


def origins(eng, it, lost=(), seen=()):
    """where the elements of an iterable come from: {(source, what was lost on the way)}"""
    if it in seen:
        return set()
    seen = seen + (it,)
    if it[0] == 'enum':
        return origins(eng, it[1], lost, seen)
    if it[0] == 'j':
        return {x for a in it[1] for x in origins(eng, a, lost, seen)}
    if it[0] == 'it' and it[2][0] == 'slice':
        return origins(eng, it[1], lost + (() if all(x == NONE for x in it[2][1:]) else ('part',)), seen)
    if it[0] == 'call' and it[1][0] == 'x' and it[2]:
        return origins(eng, it[2][0], lost + ((LOSING[it[1][1]],) if it[1][1] in LOSING else ()), seen)
    if it in eng.slices:
        return {x for b, k in eng.slices[it] for x in origins(eng, b, lost + (() if all(y == NONE for y in k[1:]) or any(y[0] in ('idx', 'el') for y in subterms(k)) else ('part',)), seen)}
    if it in eng.made:
        return {x for how, b, node in eng.made[it] for x in origins(eng, b, lost + ((how,) if how == 'dedup' or how == 'filter' and picky(node) else ()), seen)}
    return {(it, lost)}


BUILTINS = {'len', 'str', 'isinstance', 'int', 'float', 'bool', 'list'}


def picky(node):
    """does a comprehension leave values out for what they look like (not for what the caller or another collection says)"""
    if not isinstance(node, (ast.ListComp, ast.GeneratorExp)):
        return False
    own = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    for g in node.generators:
        for c in g.ifs:
            if isinstance(c, ast.Name) or isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot)):
                continue
            if {n.id for n in ast.walk(c) if isinstance(n, ast.Name)} <= own | BUILTINS:
                return True
    return False


def literals(conds):
    for a, v in conds.items():
        if a[0] == 'dnf' and v:
            for c in a[1:]:
                for x in c[1:]:
                    if x[0] == 'lit':
                        yield x[1], x[2] == T('c', 'bool', True)
        else:
            yield a, v


def single(conds):
    """a list whose length the conditions test, each of them true of a list of one element"""
    ok = {}
    for a, v in conds.items():
        if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == T('x', 'len') and a[1][2]:
            ok.setdefault(a[1][2][0], []).append(v is True)
        elif a[0] == 'cmp' and a[1] in ('<', '<=', '==', '>', '>='):
            for x, y, turn in ((a[2], a[3], False), (a[3], a[2], True)):
                if x[0] == 'call' and x[1] == T('x', 'len') and x[2] and is_c(y) and isinstance(y[2], int):
                    l, r = (y[2], 1) if turn else (1, y[2])
                    ok.setdefault(x[2][0], []).append({'<': l < r, '<=': l <= r, '==': l == r, '>': l > r, '>=': l >= r}[a[1]] == v)
    return next((x for x in ok if all(ok[x]) and conds.get(T('truth', x)) is not False), None)


class Rule:
    def __init__(self, ctx, fn, cls, skips=(), label=None):
        self.ctx, self.fn, self.cls, self.skips = ctx, fn, cls, skips
        self.label = label or fn.qual

    def run(self):
        ctx, fn = self.ctx, self.fn
        cl = self.cl = Client(fn)
        eng = self.eng = Engine(ctx.model, cl, 1500000)
        try:
            eng.run(fn, selfcls=self.cls)
        except Budget:
            ctx.undecided('C15.step', self.label, 'too many paths')
            return
        ctx.saw(fn)
        ctx.count('counter updates', len({e[0][7] for e in cl.events}))
        self.params = {x.arg for x in fn.node.args.args + fn.node.args.kwonlyargs}
        # containers updated by one statement are one counter
        rep, by = {}, {}
        def find(k):
            while k in rep:
                k = rep[k]
            return k
        for e in cl.events:
            if e[0][2][0] == 'dict':
                a, b = find(e[0][2]), find(by.setdefault(e[0][7], e[0][2]))
                if a != b:
                    rep[a] = b
        cl.events = [(e[0][:2] + (find(e[0][2]),) + e[0][3:],) + e[1:] for e in cl.events]
        cl.iters = [(i[0], tuple(e[:2] + (find(e[2]),) + e[3:] if e[0] == 'ev' else e for e in i[1])) + i[2:] for i in cl.iters]
        counted = {e[0][2] for e in cl.events if e[0][4] == 'inc' and is_c(e[0][5])}
        self.ignored = {e[0][2] for e in cl.events if e[0][2][0] == 'dict' and e[0][2] not in counted}
        self.roots = {self.root(e[0][3][0]) for e in cl.events}
        cl.events = [e for e in cl.events if e[0][2] not in self.ignored]
        self.passed_over()
        self.steps()
        self.once()
        self.pairs()
        self.every()

    def gate(self, kind, conds):
        """True / False / None: is this counter wanted"""
        if kind[2] is None:
            return True
        g = [p for p in GRAPH_ATTRS[kind[2]] if p in self.params]
        if not g:
            return True
        for p in g:
            v = conds.get(T('truth', T('p', p)))
            if v is None:
                return None
            return v
        return None

    def steps(self):
        seen = set()
        for ev, conds, chain in self.cl.events:
            _, loops, kind, (g, ks), mode, amount, ab, where = ev
            what = word(kind, ks)
            ok, msg = True, ''
            if mode == 'inc':
                ok = amount == C(1) or amount == C(1.0)
                msg = '{} goes up by {} where one occurrence is met'.format(what, show(amount))
            elif mode == 'set' and amount == C(0):
                if kind[2] is None or self.gate(kind, conds) is not False:
                    continue
            elif mode == 'set':
                ok = is_c(amount) and amount[2] == 1
                msg = '{} starts at {} where one occurrence is met'.format(what, show(amount))
                if ok and not ab and kind[0] != 'init':
                    ok, msg = False, '{} is set to 1 although nothing says it is not there yet'.format(what)
            else:
                if kind[2] is None:
                    continue
                ok, msg = False, '{} is set to {}'.format(what, show(amount)[:80])
            if ok and kind[2] is not None and self.gate(kind, conds) is False:
                ok, msg = False, '{} is kept although {} is off'.format(what, '/'.join(p for p in GRAPH_ATTRS[kind[2]] if p in self.params))
            k = (kind[0], kind[2], where, ok, msg)
            if k in seen:
                continue
            seen.add(k)
            self.ctx.ob('C15.step', '{}: {} at {}'.format(self.label, what, where.split(' in ')[0].split(':')[-1]) if ok else '{}: {}'.format(self.label, what), ok, msg, where)

    @staticmethod
    def root(t):
        while t[0] in ('it', 'at'):
            t = t[1]
        return t

    def passed_over(self):
        """no record is skipped for what was counted already"""
        cl = self.cl
        for L in sorted({i[0] for i in cl.iters if any(over_records(x) for x in cl.its.get(i[0][-1], []))}, key=str):
            bad = None
            for loops, evs, conds, where, it in cl.iters:
                if loops != L or any(e[0] in ('ev', 'LOST') or e[0] == 'visit' and e[1] == L for e in evs):
                    continue
                a = next((a for a, v in literals(conds) if v and (a[0] == 'cmp' and a[1] == 'in' and (a[3] in self.roots or a[3][0] == 'r' and a[3][1][0] in ('dict', 'set') and a[3][1][-1:] == ((),) and any(x[0] == 'el' and over_records(x[1]) for x in subterms(a[2]))) or a[0] == 'truth' and a[1][0] == 'call'
                          and a[1][1][0] == 'meth' and a[1][1][2] in ('has_node', 'has_edge', '__contains__') and a[1][1][1] in self.roots)), None)
                if a is not None and not ((a[0] == 'cmp' and a[3] in self.roots or a[0] == 'truth') and any(self.gate((0, 0, x), conds) is False for x in ('count', 'weight'))):
                    bad = ('a record is passed over because {}'.format(show(a)[:80]), where)
                x = next((single(w) for w in worlds(conds) if self.gate((0, 0, 'count'), w) in (True, None if not any(c[0] == 'dnf' for c in conds) and any(p in self.params for p in GRAPH_ATTRS['count']) else True) and single(w) is not None), None)
                if x is not None:
                    bad = bad or ('a record with one value ({}) is passed over'.format(show(x)[:80]), where)
            self.ctx.ob('C15.once', '{}: records in loop {}'.format(self.label, depth_key(L)), bad is None, bad[0] if bad else '', bad[1] if bad else '')

    def once(self):
        """every iteration that visits an element counts it exactly once"""
        cl, ctx = self.cl, self.ctx
        where_of = {}
        for loops, evs, conds, where, it in cl.iters:
            for e in evs:
                if e[0] == 'ev' and e[2][0] != 'init' and e[2] not in self.ignored:
                    where_of.setdefault(e[2], set()).add(e[1])
        lost = any(e[0] == 'LOST' for _, evs, _, _, _ in cl.iters for e in evs)
        for kind, prefixes in sorted(where_of.items(), key=str):
            for L in sorted({p[:i] for p in prefixes for i in range(1, len(p) + 1)}, key=str):
                its = cl.its.get(L[-1], [])
                records = any(over_records(i) for i in its) or not its
                paths = [(evs, conds, where) for loops, evs, conds, where, it in cl.iters if loops == L]
                bad = None
                for evs, conds, where in paths:
                    if any(e[0] == 'LOST' for e in evs):
                        continue
                    mine = [e for e in evs if e[0] == 'ev' and e[2] == kind and e[1] == L and e[5] != C(0)]
                    below = {e[2] for e in evs if e[0] == 'visit' and e[1] == L and any(p[:len(e[2])] == e[2] for p in prefixes)}
                    touched = [e for e in evs if e[0] == 'touch' and e[1] == L and e[2][0] == kind[0] and e[2][3] == kind[2]]
                    g = self.gate(kind, conds)
                    what = word(kind, ())
                    kept = [e for e in evs if e[0] == 'ev' and e[2] == kind and e[1] == L]
                    if kept and g is False:
                        bad = ('{} is kept although {} is off'.format(what, '/'.join(p for p in GRAPH_ATTRS[kind[2]] if p in self.params)), kept[0][7])
                        break
                    keys = {}
                    for e in mine:
                        keys.setdefault(e[3], []).append(e)
                    twice = [v for v in keys.values() if len(v) > 1]
                    if twice:
                        bad = ('one visit counts {} twice'.format(what), twice[0][1][7])
                        break
                    for e in touched:
                        c = e[2]
                        if g is True and not any(m[3] == c[1:3] for m in evs if m[0] == 'ev' and m[2] == kind):
                            bad = ('an element is added without its {}'.format(kind[2]), e[3])
                    if records or bad:
                        continue
                    if kind[0] == 'dict' and any(a[0] == 'truth' and a[1][0] == 'p' and not v for a, v in conds.items()):
                        continue
                    if g is False or any(skip(conds) for skip in self.skips):
                        continue
                    n = len(keys) + len(below)
                    if n == 0 and not (g is None and any(self.gate(kind, c2) is None for _, c2, _ in paths if _ is not None) and False):
                        bad = ('an iteration passes without counting {}{}'.format(what, reason(conds)), where)
                    elif n > 1 and kind[0] != 'dict':
                        bad = ('one iteration counts {} {} times'.format(what, n), where)
                if bad is None and lost:
                    ctx.undecided('C15.once', '{}: {} in loop {}'.format(self.label, word(kind, ()), len(L)), 'too many paths')
                    continue
                ctx.ob('C15.once', '{}: {} in loop {}'.format(self.label, word(kind, ()), depth_key(L)), bad is None, bad[0] if bad else '', bad[1] if bad else '')

    def every(self):
        """what is counted is every value of the field, however often it is there"""
        cl, ctx, eng = self.cl, self.ctx, self.eng
        words = {'dedup': 'what a record names twice is counted once', 'part': 'only a part of the values of a record is counted',
                 'filter': 'some values of a record are left out'}
        done = {}
        for ev, conds, chain in cl.events:
            for s, ii in chain:
                for i in ii:
                    if any(isinstance(k, tuple) and k[0] == 'slice' and b in [y for z, jj in chain if z != s for j in jj for x, _ in underlying(eng, j) for y in [x] + [c[2][0] for c in subterms(j) if j[0] == 'range' and c[0] == 'call' and c[1] == T('x', 'len') and c[2]]] for b, k in underlying(eng, i)):
                        continue          # the partners of an element: see pairs
                    for src, lost in origins(eng, i):
                        bad = next((x for x in lost if x != 'own'), None)
                        if over_records(src) and bad == 'dedup':
                            bad = None    # records are in a collection once
                        key = '{}: {} in loop {}'.format(self.label, show(src)[:50], depth_key((s,)))
                        if bad or key not in done:
                            done[key] = (bad, ev[7])
        for key, (bad, where) in sorted(done.items()):
            ctx.ob('C15.every', key, bad is None, words.get(bad, ''), where)

    def pairs(self):
        """pairs taken from one list: each once"""
        cl, ctx, eng = self.cl, self.ctx, self.eng
        done = set()
        for ev, conds, chain in cl.events:
            _, loops, kind, (g, ks), mode, amount, ab, where = ev
            if kind[0] != 'edge' or loops in done:
                continue
            done.add(loops)
            bad, und = None, None
            its = [(s, i) for s, ii in chain for i in ii]
            lists = []
            for n, (s, i) in enumerate(its):
                if s in cl.breaks and not over_records(i):
                    bad = 'the loop over {} can stop early'.format(show(i)[:60])
                outer = [x for z, _ in its[:n] for j in cl.its.get(z, ()) for x, _ in underlying(eng, j)]
                for b, k in underlying(eng, i):
                    if isinstance(k, tuple) and k[0] == 'slice':
                        if b not in outer:
                            und = und or 'slice of another list'
                            continue
                        want = T('slice', T('bin', '+', T('idx', b), C(1)), NONE, NONE)
                        if k != want and k != T('slice', T('bin', '+', C(1), T('idx', b)), NONE, NONE):
                            bad = 'the partners of an element are taken from {} of the list, not from all that follow it'.format(show(k)[:60])
                    elif b in lists and i[0] != 'range' and b[0] in ('r', 'call'):
                        bad = 'both elements of a pair run over the whole list, so each pair is met twice and each element with itself'
                    lists.append(b)
            key = '{}: pairs at {}'.format(self.label, depth_key(loops))
            if bad is None and und:
                ctx.undecided('C15.pairs', key, und)
            else:
                ctx.ob('C15.pairs', key, bad is None, bad or '', where)


def depth_key(L):
    return '/'.join(str(s[0]) for s in L)


def word(kind, ks):
    if kind[0] == 'dict':
        return 'the count kept in ' + show(kind[1])[:40]
    return 'the {} of {}'.format(kind[2], 'an edge' if kind[0] == 'edge' else 'a node')


def reason(conds):
    r = [('' if v else 'not ') + show(a)[:70] for a, v in conds.items() if a[0] != 'truth' or a[1][0] != 'p']
    return ' (when {})'.format(' and '.join(r[-2:])) if r else ''


BUILDERS = [
    ('metaknowledge.mkCollection:CollectionWithIDs.networkMultiLevel', ()),
    ('metaknowledge.mkCollection:CollectionWithIDs.networkOneMode', ()),
    ('metaknowledge.mkCollection:CollectionWithIDs.networkTwoMode', ()),
    ('metaknowledge.mkCollection:CollectionWithIDs.networkMultiMode', ()),
    ('metaknowledge.recordCollection:RecordCollection.networkCoAuthor', ()),
    ('metaknowledge.recordCollection:RecordCollection.networkBibCoupling', ()),
    ('metaknowledge.recordCollection:addToNetwork', ()),
    ('metaknowledge.grantCollection:GrantCollection.networkCoInvestigator', ()),
    ('metaknowledge.diffusion:diffusionGraph', ()),
    ('metaknowledge.mkCollection:CollectionWithIDs.cooccurrenceCounts', ()),
    ('metaknowledge.mkCollection:CollectionWithIDs.rankedSeries', ('limitTo',)),
    ('metaknowledge.mkCollection:CollectionWithIDs.timeSeries', ('limitTo',)),
    ('metaknowledge.recordCollection:RecordCollection.localCiteStats', ('none',)),
    ('metaknowledge.recordCollection:RecordCollection.rpys', ('year',)),
]


def skip_param(p):
    return lambda conds: any(T('p', p) in subterms(a) for a in conds if not (a == T('truth', T('p', p)) and not conds[a]))


def skip_lacking(conds):
    """the record has no value for what is counted"""
    for a, v in conds.items():
        x = a[2] if a[0] == 'cmp' and a[1] == 'is' and a[3] == NONE and v else (a[1] if a[0] == 'truth' else a) if not v else None
        if x is not None and x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'get':
            return True
    return False


def skip_none(conds):
    return any(a[0] == 'cmp' and a[1] == 'is' and a[3] == NONE and v for a, v in conds.items())


def skip_year(conds):
    """the year of the citation is not one that is counted"""
    return any(a[0] == 'hasattr' and a[2:3] in (('year',), (C('year'),)) for a in conds) or any(x[0] == 'at' and x[2] == 'year' or x in (C('year'), T('p', 'minYear'), T('p', 'maxYear')) for a in conds for x in subterms(a))


class Calls(Client):
    """the citation networks leave the counting to one helper"""

    def __init__(self, top, helper):
        Client.__init__(self, top)
        self.helper, self.calls, self.per = helper, [], []

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == self.helper.name and recv is None:
            ps = [x.arg for x in self.helper.node.args.args]
            got = dict(zip(ps, args))
            got.update({k: v for k, v in kw.items() if k in ps})
            self.calls.append((dict(st.conds), st.loops, got, eng.where(node)))
            st.facts['ev'] = st.facts.get('ev', ()) + (('ev', st.loops, eng.site(node)),)

    def on_mutate(self, eng, st, node, t, how, value=None):
        pass

    def on_loop(self, eng, st, node, phase, it):
        n = len(st.loops)
        if phase == 'enter':
            st.facts['ev'] = tuple(e for e in st.facts.get('ev', ()) if e[0] == 'LOST' or e[1][:n] != st.loops)
        elif phase == 'iter-end':
            st.facts.pop("handled", None)
            self.per.append((st.loops, it, st.facts.get('ev', ()), dict(st.conds), eng.where(node)))
            self.leave(st, n)


def passed(ctx, fn, cls, helper):
    cl = Calls(fn, helper)
    eng = Engine(ctx.model, cl, 1500000)
    try:
        eng.run(fn, selfcls=cls)
    except Budget:
        ctx.undecided('C15.passed', fn.qual, 'too many paths')
        return
    ctx.saw(fn)
    own = {x.arg for x in fn.node.args.args + fn.node.args.kwonlyargs}
    for p in sorted(set('count weighted'.split()) & own & {x.arg for x in helper.node.args.args}):
        bad = [(got.get(p), w) for _, _, got, w in cl.calls if got.get(p) != T('p', p)]
        ctx.ob('C15.passed', '{}: {}'.format(fn.qual, p), not bad,
               'the occurrences of a record are counted with {} = {} instead of the {} asked for'.format(p, show(bad[0][0])[:60] if bad and bad[0][0] else 'its default', p) if bad else '', bad[0][1] if bad else '')
    bad = None
    for loops, it, evs, conds, where in cl.per:
        if not over_records(it) or any(e[0] == 'LOST' for e in evs):
            continue
        mine = [e for e in evs if e[1][:len(loops)] == loops]
        if len(mine) > 1 or any(len(e[1]) > len(loops) for e in mine):
            bad = ('the citations of one record are counted more than once', where)
    if bad is None and cl.calls and any(not loops for _, loops, _, _ in cl.calls):
        bad = ('citations are counted outside the loop over the records', cl.calls[0][3])
    ctx.ob('C15.passed', '{}: once per record'.format(fn.qual), bad is None, bad[0] if bad else '', bad[1] if bad else '')
    ctx.count('calls of the counting helper', len({c[3] for c in cl.calls}))


class Merge(Client):
    def __init__(self, top):
        Client.__init__(self, top)
        self.ops = []

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how == 'item' and value:
            self.ops.append(('set', t, value[0], value[1], dict(st.conds), st.loops, eng.where(node)))

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name in ('add_node', 'add_edge') and recv is not None:
            ev = st.facts.get('handled') or absent(eng, st, (name[4:], recv, tuple(args[:2 if name == 'add_edge' else 1]), None), None, None)
            self.ops.append((name, recv, tuple(args), dict(kw), ev, st.loops, eng.where(node)))


def merge(ctx, fn):
    """what both graphs have is added up, what only the second has is taken over as it is"""
    cl = Merge(fn)
    eng = Engine(ctx.model, cl, 800000)
    try:
        eng.run(fn)
    except Budget:
        ctx.undecided('C15.merge', fn.qual, 'too many paths')
        return
    ctx.saw(fn)
    ps = [x.arg for x in fn.node.args.args]
    if len(ps) < 4:
        ctx.undecided('C15.merge', fn.qual, 'other parameters')
        return
    tgt, add = T('p', ps[0]), T('p', ps[1])
    for o in cl.ops:
        where = o[-1]
        if o[0] == 'set':
            c = cell_of2(o[1], o[2])
            if c is None or c[1] != tgt:
                continue
            kind, _, ks, attr = c
            want = T('p', ps[2] if kind == 'node' else ps[3])
            ss = summands(o[3])
            old = [x for x in ss if x == (1, T('it', o[1], o[2]))]
            rest = [x for x in ss if x not in old]
            msg = None
            if attr != want:
                msg = 'the {} of both graphs are added up under {} instead of {}'.format('nodes' if kind == 'node' else 'edges', show(attr)[:40], show(want))
            elif len(old) != 1 or len(rest) != 1 or rest[0][0] != 1 or not (rest[0][1][0] == 'it' and rest[0][1][2] == want and about(rest[0][1][1], add)):
                msg = 'what both graphs have gets {} instead of the sum of both values'.format(show(o[3])[:80])
            ctx.ob('C15.merge', '{}: {} in both'.format(fn.qual, kind), msg is None, msg or '', where)
        else:
            kind = o[0][4:]
            if o[1] != tgt:
                continue
            kw = o[3]
            full = '**' in kw and about(kw['**'], add) or any(about(v, add) for k, v in kw.items() if k.startswith('?'))
            msg = None if full and not any(k for k in kw if k not in ('**',) and not k.startswith('?') and k != 'key') else '{} only the second graph has is taken over without its own attributes'.format('a node' if kind == 'node' else 'an edge')
            if msg is None and not o[4]:
                msg = '{} of the second graph replaces the one the first graph has'.format('a node' if kind == 'node' else 'an edge')
            ctx.ob('C15.merge', '{}: {} only in the second'.format(fn.qual, kind), msg is None, msg or '', where)


def cell_of2(t, key):
    if t[0] != 'it':
        return None
    b, k = t[1], t[2]
    if b[0] == 'at' and b[2] in ('nodes', 'edges'):
        return 'node' if b[2] == 'nodes' else 'edge', b[1], (k,), key
    while b[0] == 'it':
        b = b[1]
    return ('edge', b, (k,), key) if b[0] == 'p' else None


def about(t, g):
    return g in subterms(t)


def run(ctx):
    ctx.rule('C15.step', 'a counter goes from absent to 1 or from n to n + 1, and only when it is wanted')
    ctx.rule('C15.once', 'a visit of an element or pair counts it exactly once')
    ctx.rule('C15.every', 'every value of the field is counted, as often as it is there')
    ctx.rule('C15.pairs', 'pairs drawn from one list are drawn once each')
    ctx.rule('C15.passed', 'the citation networks count each record once, with the count and weighted they were asked for')
    ctx.rule('C15.merge', 'merging adds up the counters both graphs have and takes over the rest unchanged')
    diffusion(ctx)
    labels(ctx)
    n = 0
    rc = ctx.model.cls('RecordCollection')
    for fid, sk in BUILDERS:
        fn = ctx.model.funcs.get(fid)
        if fn is None:
            continue
        n += 1
        skips = [skip_lacking] + [skip_none if s == 'none' else skip_year if s == 'year' else skip_param(s) for s in sk]
        Rule(ctx, fn, None if fn.cls is None else ctx.model.cls('GrantCollection') if fn.cls.name == 'GrantCollection' else rc, skips).run()
    ctx.need('counting functions', n, 6)
    helper = ctx.model.funcs.get('metaknowledge.recordCollection:addToNetwork')
    for q in ('networkCoCitation', 'networkCitation'):
        fn = ctx.model.funcs.get('metaknowledge.recordCollection:RecordCollection.' + q)
        if fn is not None and helper is not None:
            passed(ctx, fn, rc, helper)
    fn = ctx.model.funcs.get('metaknowledge.graphHelpers:mergeGraphs')
    if fn is not None:
        merge(ctx, fn)
