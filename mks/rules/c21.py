"""C21: the tables the package hands out are rectangular: every row gives every
column exactly one value, columns are only changed together, and columns
that are chosen are not filled twice."""
import ast

from ..clients import Base
from ..interp import Budget, Engine, T, is_c, show, subterms
from ..interp import alts

NAMES = ('diffusionCount', 'rankedSeries', 'timeSeries', 'getCitations', '_pandasPrep', 'forBurst', 'forNLP', 'localCiteStats', 'makeDict', 'rpys', 'writeCSV', 'writeEdgeList', 'writeNodeAttributeFile')
ALONE = ('sort', 'reverse', 'pop', 'remove', 'clear', 'delitem', 'insert')
SHARED = ('append', 'item') + ALONE[:-1]
MANY = ('extend', 'insert', 'aug+', '__iadd__')


def ctx_of(e):
    return e[1] if e[0] == 'LOST' else e[0]


def is_index(eng, st, value):
    return isinstance(value, tuple) and len(value) == 2 and value[0][0] != 'slice'


def col(t):
    return t[0] == 'r' and t[1][0] in ('list', 'listc')


def cells(o):
    return [(k, x) for k, v in o.slots.items() for x in alts(v) if col(x)]


def tables(m):
    out = []
    for fid, f in sorted(m.funcs.items()):
        if 'tests' in fid or '.bin' in fid or '.contour' in fid or isinstance(f.node, ast.Lambda) or f.fid.split(':')[1].count('.') > (1 if f.cls is not None else 0):
            continue
        if f.name in NAMES:
            out.append(f)
            continue
        lists = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.ListComp)) for t in x.targets if isinstance(t, ast.Name)}

        def is_list(v):
            return isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Name) and v.id in lists
        n = 0
        for x in ast.walk(f.node):
            if isinstance(x, ast.Dict):
                n += sum(is_list(v) for v in x.values)
            elif isinstance(x, ast.DictComp) and isinstance(x.value, ast.List):
                n += 2
            elif isinstance(x, ast.Assign) and is_list(x.value) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) for t in x.targets):
                n += 1
            elif isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', None)) == 'writer':
                n += 2
        if n > 1:
            out.append(f)
    return out


class Once:
    """says each thing that is not decided once"""
    def __init__(self, ctx):
        self.ctx, self.said = ctx, set()

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def undecided(self, *a):
        if a not in self.said:
            self.said.add(a)
            self.ctx.undecided(*a)


class Client(Base):
    max_states = 900
    exact_conds = True
    handler_states = 300
    progress = False

    def __init__(self, top):
        self.top = top
        self.bad, self.und, self.many, self.led = {}, {}, set(), set()
        self.famloop, self.skips, self.hit = {}, {}, set()
        self.done, self.names, self.excl, self.grown = set(), {}, {}, {}

    def inline(self, eng, fn, st):
        if fn.cls is not None and any(k.name in ('Record', 'Grant') for k in eng.m.mro(fn.cls) if hasattr(k, 'methods')) and fn is not self.top:
            return False
        return Base.inline(self, eng, fn, st)

    def join_fact(self, k, a, b):
        if k == 'led':
            return (a or frozenset()) | (b or frozenset())
        if k == 'chg':
            return (a or frozenset()) | (b or frozenset())
        if k == 'ev':
            a, b = a or (), b or ()
            if a == b:
                return a
            out, rest = [], list(b)
            for e in a:
                if e in rest:
                    rest.remove(e)
                    out.append(e)
                elif e[0] == 'LOST' or e[1][0] == 'fam':
                    out.append(e)
                else:
                    out.append(('LOST', e[0]))
            for e in rest:
                out.append(e if e[0] == 'LOST' or e[1][0] == 'fam' else ('LOST', e[0]))
            return tuple(out)
        return Base.join_fact(self, k, a, b)

    def log(self, st, *ev):
        st.facts['ev'] = st.facts.get('ev', ()) + ev

    def on_add(self, eng, st, t, v, node):
        out = {a[3] for a, val in st.conds.items() if a[0] == 'cmp' and a[1] == 'in' and a[2] == v and val is False}
        for x in alts(t):
            self.excl.setdefault(x, []).append(out if isinstance(node, (ast.ListComp, ast.GeneratorExp)) else out | ({'new'} if x in out else set()))
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
            return
        for x in alts(t):
            if x[0] == 'r' and x[1][0] == 'list':
                self.log(st, (st.loops, x, eng.where(node), id(node)))

    def on_mutate(self, eng, st, node, t, how, value=None):
        for x in alts(t):
            if x[0] == 'it' and x[1][0] == 'r' and how == 'append':
                self.log(st, (st.loops, x, eng.where(node), id(node)))
            if col(x):
                if how in MANY:
                    src = value[0] if isinstance(value, tuple) and value and isinstance(value[0], tuple) and not isinstance(value[0], str) else value
                    o = eng.obj(st, src) if how != 'insert' and src is not None else None
                    if how != 'insert' and (o is None or o.seq is None or not o.exact):
                        self.many.add(x)
                    if how != 'insert' and src is not None and src[0] == 'r':
                        self.grown.setdefault(x, set()).add(src)
                    else:
                        self.grown.setdefault(x, set()).add(None)
                elif how not in SHARED or how == 'item' and value and not is_index(eng, st, value):
                    self.many.add(x)
                if how in ALONE:
                    st.facts['chg'] = st.facts.get('chg', frozenset()) | {(x, how, eng.where(node))}

    # rows
    def leave(self, st, n):
        st.facts['ev'] = tuple(e for e in st.facts.get('ev', ()) if len(ctx_of(e)) < n)

    def on_loop(self, eng, st, node, phase, it):
        if phase == 'enter':
            n = len(st.loops)
            st.facts['ev'] = tuple(e for e in st.facts.get('ev', ()) if ctx_of(e)[:n] != st.loops)
        elif phase == 'iter-end':
            self.row(eng, st, node, it)
        elif phase == 'break':
            site = eng.site(node)
            self.leave(st, st.loops.index(site) + 1 if site in st.loops else len(st.loops))

    def families(self, eng, st):
        """lists made for every element of something: (list, key)"""
        out = {}
        for o in st.heap.values():
            if o.kind == 'dict':
                for k, v in cells(o):
                    if any(x[0] in ('el', 'it') for x in subterms(k)):
                        out.setdefault(v, []).append(k)
        return out

    def dicts(self, st, c):
        """the tables a column is in"""
        if c[0] == 'it':
            return [c[1][1]]
        return [oid for oid, o in st.heap.items() if o.kind == 'dict' and c in [x for k, x in cells(o)]]

    def row(self, eng, st, node, it):
        ev = [e for e in st.facts.get('ev', ()) if e[0] != 'LOST' and e[0] == st.loops]
        lost = any(e[0] == 'LOST' and e[1] == st.loops for e in st.facts.get('ev', ()))
        n = len(st.loops)
        fam = self.families(eng, st)
        self.leave(st, n)
        counts, where = {}, {}
        for e in ev:
            self.hit.add(e[1])
            counts[e[1]] = counts.get(e[1], 0) + 1
            where.setdefault(e[1], e[2])
        if n > 1 and not lost and not any(e[1] in fam or e[1][0] == 'it' for e in ev):
            self.skips.setdefault(st.loops, []).append((eng.where(node), dict(st.conds), it))
        if not counts:
            return
        if lost:
            self.und.setdefault(eng.where(node), 'paths through the loop could not be told apart')
            return
        # one value for each column of a family: seen from outside as one value for the family
        groups = {}
        for e in ev:
            if len(e) > 3:
                groups.setdefault(e[3], []).append(e)
        dyn = {n: g for n, g in groups.items() if any(e[1] in fam or e[1][0] == 'it' for e in g)}
        inside = [e for g in dyn.values() for e in g]
        ev = [e for e in ev if e not in inside]
        counts = {}
        for e in ev:
            counts[e[1]] = counts.get(e[1], 0) + 1
        plain = dict(counts)
        if dyn:
            if [c for c in plain if c[0] != 'fam']:
                self.und.setdefault(eng.where(node), 'which columns are filled is not known')
            elif len(dyn) == 1:
                ds = {d for e in inside for d in self.dicts(st, e[1])}
                self.log(st, *[(st.loops[:-1], T('fam', d), eng.where(node)) for d in ds])
                self.famloop.setdefault(st.loops, set()).add(inside[0][2])
                part = fewer(eng, it)
                if part:
                    self.bad.setdefault(('row', inside[0][2]), 'a row gives values only for some of the columns: {}'.format(part))
                self.kept_apart(eng, st, node, it, ds)
            elif all(len(g) == 1 and g[0][1] in fam for g in dyn.values()) and len({e[1] for e in inside}) == 1:
                self.bad.setdefault(('row', inside[0][2]), 'a row gives a column {} values'.format(len(dyn)))
            else:
                self.und.setdefault(eng.where(node), 'which columns are filled is not known')
            return
        tabs = []
        for oid, o in st.heap.items():
            if o.kind != 'dict':
                continue
            mine = [v for k, v in cells(o) if v in plain] or T('fam', oid) in counts
            if len(o.slots) > 1 and mine:
                tabs.append((oid, o))
        seen = set()
        for oid, o in tabs:
            self.table(eng, st, node, oid, o, counts, where)
            seen |= {v for k, v in cells(o)}
        rest = frozenset((c, k) for c, k in plain.items() if c not in seen and c[0] == 'r')
        if rest:
            st.facts['led'] = st.facts.get('led', frozenset()) | {(eng.where(node), rest)}

    def kept_apart(self, eng, st, node, it, ds):
        """are the names gone through all different, and different from the columns of the table itself"""
        w = eng.where(node)
        self.names.setdefault((w, 'once'), set()).add(once(eng, st, it, self))
        for d in ds:
            o = st.heap.get(d)
            own = {k for k, v in o.slots.items() if not any(x[0] in ('el', 'it') for x in subterms(k))} if o is not None else set()
            if own:
                self.names.setdefault((w, 'apart'), set()).add(apart(eng, st, it, own, T('r', d)))

    def table(self, eng, st, node, oid, o, counts, where):
        want = {}
        for k, v in cells(o):
            want[v] = want.get(v, 0) + 1
        fam = self.families(eng, st)
        self.done.add(('table', eng.where(node), frozenset(want)))
        got = {}
        for v, n in want.items():
            if v in fam:
                got[v] = counts.get(T('fam', oid), 0)
            else:
                got[v] = counts.get(v, 0) / n
        if len(set(got.values())) > 1:
            names = {v: show(k) for k, v in cells(o)}
            lo, hi = min(got, key=lambda v: got[v]), max(got, key=lambda v: got[v])
            self.bad.setdefault(('row', eng.where(node)), (frozenset(want), 'a row gives {} {} and {} {} values'.format(names[lo], int(got[lo]), names[hi], int(got[hi]))))


def fewer(eng, it):
    """are the columns a row gives values for only some of those that were asked for?"""
    for x in subterms(it):
        if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'subDict':
            for a in list(x[2][:1]):
                for t in alts(a):
                    if any(how == 'filter' for how, src, n in eng.made.get(t, ())) and not any(how != 'filter' for how, src, n in eng.made[t]):
                        return 'the names are picked again for each record'
                    if t in eng.slices:
                        return 'only a part of the names is used'
    return None


def elements(eng, st, it):
    """what is known of each element of something: [(term, guards)], or None"""
    o = eng.obj(st, it)
    if o is None or o.kind not in ('list', 'tuple'):
        return None
    if o.exact and o.seq is not None:
        return [(x, frozenset()) for x in o.seq]
    if not o.bag:
        return None
    return list(o.bag)


def once(eng, st, it, c, depth=0):
    """True: no element comes twice; False: the caller can make one come twice; None: not known"""
    if it[0] == 'j':
        vs = {once(eng, st, x, c, depth) for x in alts(it)}
        return False if False in vs else None if None in vs else True
    if it[0] in ('dview', 'cont', 'sop', 'filt'):
        return True
    if it[0] == 'p':
        return False
    if it[0] == 'call' and it[1][0] == 'x' and it[1][1] in ('dict.fromkeys', 'set', 'frozenset', 'dict'):
        return True
    if it[0] == 'call' and it[1][0] == 'x' and it[1][1] in ('list', 'tuple', 'sorted', 'reversed', 'iter') and it[2]:
        return once(eng, st, it[2][0], c, depth + 1)
    o = eng.obj(st, it)
    if o is not None and o.kind in ('set', 'frozenset', 'dict'):
        return True
    if it[0] == 'r' and it in c.grown or any('new' in x for x in c.excl.get(it, ())):
        # put together bit by bit: each bit without what is there already
        res = set()
        for src in c.grown.get(it, ()):
            if src is None:
                return None
            res.add(bool(c.excl.get(src)) and all(it in x for x in c.excl[src]))
        for x in c.excl.get(it, ()):
            if it not in c.grown:
                res.add('new' in x)
        return False not in res
    els = elements(eng, st, it)
    if els is None or depth > 4:
        return None
    res = set()
    for v, guards in els:
        if any(a[0] == 'cmp' and a[1] == 'in' and a[2] == v and a[3] == it and val is False for a, val in guards):
            res.add(True)
        elif v[0] == 'el' and len(els) == 1:
            res.add(once(eng, st, v[1], c, depth + 1))
        else:
            res.add(None)
    if len(set(els)) == len(els) and all(is_c(v) for v, g in els):
        return True
    return False if False in res else None if None in res else True


def apart(eng, st, it, own, table):
    els = [x for y in alts(it) for x in (elements(eng, st, y) or [])] if it[0] == 'j' else elements(eng, st, it)
    if it[0] == 'p':
        els = [(T('el', it), frozenset())]
    if els is None:
        return None
    res = set()
    for v, guards in els:
        out = [a[3] for a, val in list(guards) + list(st.conds.items()) if a[0] == 'cmp' and a[1] == 'in' and val is False]
        if table in out:
            res.add(True)
            continue
        names = set()
        for x in out:
            o = eng.obj(st, x)
            if o is not None and o.seq is not None:
                names |= set(o.seq)
            elif o is not None and o.kind == 'dict':
                names |= set(o.slots)
            elif is_c(x) and isinstance(x[2], (tuple, list, set, frozenset)):
                names |= {('const', y) for y in x[2]}
        left = [k for k in own if k not in names and not (is_c(k) and ('const', k[2]) in names)]
        res.add(not left)
    return False if False in res else True


def judge(ctx, m, f):
    c = Client(f)
    eng = Engine(m, c, 400000)
    try:
        rets, raises = eng.run(f, {}, f.cls)
    except Budget:
        ctx.undecided('row', f.fid, 'too many paths')
        return
    ctx.saw(f)
    bad = {}
    for (r, w), msg in c.bad.items():
        if isinstance(msg, tuple):
            if msg[0] & c.many:
                ctx.undecided('row', f.fid + ' ' + w, 'a column is filled by several values at once')
                continue
            msg = msg[1]
        bad[w] = msg
    for site, ws in c.famloop.items():
        for w, conds, it in c.skips.get(site, ()):
            if any(y[0] == 'el' and y[1] != it and y not in subterms(it) for a in conds for y in subterms(a)) or not any(y[0] == 'el' and y[1] == it for a in conds for y in subterms(a)):
                bad.setdefault(w, 'a row can leave out a column that is chosen')
            else:
                ctx.undecided('row', f.fid + ' ' + w, 'some of the columns that are chosen are left out')
    ntab = 0
    for st, v in rets:
        for x in alts(v):
            o = eng.obj(st, x)
            if o is None or o.kind != 'dict' or len(cells(o)) < 2:
                continue
            ntab += 1
            cols = {y: k for k, y in cells(o)}
            filled = {y for w, rest in st.facts.get('led', ()) for y, n in rest} | c.hit
            for w, rest in st.facts.get('led', ()):
                d = dict(rest)
                if not any(y in d for y in cols):
                    continue
                if set(cols) & c.many:
                    ctx.undecided('row', f.fid + ' ' + w, 'a column is filled by several values at once')
                    continue
                if any(y not in filled and (eng.obj(st, y) is None or not eng.obj(st, y).exact or eng.obj(st, y).seq != ()) for y in cols):
                    ctx.undecided('row', f.fid + ' ' + w, 'a column is not filled row by row')
                    continue
                got = {y: d.get(y, 0) for y in cols}
                if len(set(got.values())) > 1:
                    lo, hi = min(got, key=lambda y: got[y]), max(got, key=lambda y: got[y])
                    bad.setdefault(w, 'a row gives {} {} and {} {} values'.format(show(cols[lo]), got[lo], show(cols[hi]), got[hi]))
            chg = {}
            for y, how, w in st.facts.get('chg', ()):
                if y in cols:
                    chg.setdefault(how, {})[y] = w
            for how, ys in chg.items():
                if set(ys) == set(cols) and how == 'reverse':
                    continue
                if set(ys) == set(cols) and how != 'sort':
                    ctx.undecided('together', f.fid, 'every column is changed in the same way')
                else:
                    ctx.ob('together', f.fid, False, 'one column of a table is changed without the others ({})'.format(how), next(iter(ys.values())))
    if not ntab:
        return c
    for w, why in c.und.items():
        ctx.undecided('row', f.fid + ' ' + w, why)
    rows = {d[1] for d in c.done if d[0] == 'table'}
    for w in sorted(rows | set(bad)):
        ctx.ob('row', f.fid + ' ' + w.split(':')[1].split(' ')[0], w not in bad, bad.get(w, ''), w)
    for (w, what), vs in sorted(c.names.items()):
        key = f.fid + ' ' + w.split(':')[1].split(' ')[0]
        if False not in vs and None in vs:
            ctx.undecided(what, key, 'where the names of the columns come from is not known')
        elif what == 'once':
            ctx.ob(what, key, False not in vs, 'a name that is given twice fills its column twice in a row', w)
        else:
            ctx.ob(what, key, False not in vs, 'a name that is given can be that of another column of the table, which is then filled twice in a row', w)
    ctx.count('tables', ntab)
    if ntab:
        ctx.ob('together', f.fid + ' all', True, '', f.where())
    return c


def run(ctx):
    ctx = Once(ctx)
    m = ctx.model
    ctx.rule('row', 'every row gives every column exactly one value')
    ctx.rule('together', 'columns are only changed together')
    ctx.rule('once', 'the names of columns that are chosen are used once each')
    ctx.rule('apart', 'the names of columns that are chosen are kept apart from the columns every table has')
    for f in tables(m):
        ctx.count('functions')
        judge(ctx, m, f)
