"""C11, files of graphs: every node and every edge of the graph is written on a row of its own, with what
belongs into the row. Used by c11."""
from ..clients import Base
from ..interp import Budget, C, Engine, T, alts, is_c, show, subterms
from ..table import order_atom, strip_calls
from .c17 import graph_part
from .c23 import worlds

G = T('p', 'grph')
ENDS = (C(0), C(1))


class Rows(Base):
    exact_conds = True
    max_states = 150

    def __init__(self, top, pieces):
        self.top, self.pieces = top, pieces
        self.loops, self.ends, self.rows, self.outside, self.inner = {}, [], [], [], set()
        self.part = set()

    def inline(self, eng, fn, st):
        return fn is self.top

    def on_loop(self, eng, st, node, phase, it):
        site = eng.site(node)
        if phase == 'enter':
            if it[0] == 'it' and it[2][0] == 'slice' and graph_part(it[1]):
                it = it[1]
                self.part.add(site)
            if graph_part(it) or it[0] == 'call' and it[1] == T('x', 'enumerate') and it[2] and graph_part(it[2][0]):
                self.loops[site] = graph_part(it) or graph_part(it[2][0])
                st.facts['rows', site] = frozenset({0})
        elif phase in ('iter-end', 'break') and site in self.loops:
            self.ends.append((site, phase, st.facts.get(('rows', site)), eng.where(node), dict(st.conds)))

    def on_call(self, eng, st, node, name, recv, args, kw):
        short = name.replace(':', '.').split('.')[-1]
        if short not in ('writerow', 'writerows', 'write', 'writelines') or not args:
            return
        mine = [s for s in st.loops if s in self.loops]
        if not mine:
            self.outside.append((short, args[0], eng.where(node)))
            return
        site = mine[-1]
        if st.loops[-1] != site or short in ('writerows', 'writelines'):
            self.inner.add(site)
        n = st.facts.get(('rows', site))
        if n is not None:
            st.facts['before', site] = n
            st.facts['rows', site] = frozenset(min(x + 1, 2) for x in n)
        self.rows.append((site, short, args[0], st.copy(), eng.where(node)))

    def on_handler(self, eng, st, h, exc):
        for k, v in list(st.facts.items()):
            if isinstance(k, tuple) and k[0] == 'rows':
                st.facts[k] = frozenset({min(st.facts.get(('before', k[1]), v))})       # what failed was not written

    def join_fact(self, k, a, b):
        return a | b if isinstance(a, frozenset) and isinstance(b, frozenset) else None


def ends_in(t):
    """the ends of the edge (or the node) a term is made of"""
    out = set()
    for x in subterms(t):
        if x[0] == 'it' and x[1][0] == 'el' and graph_part(x[1][1]):
            if x[2] in ENDS:
                out.add(x[2][2])
            elif x[2][0] == 'slice':
                out |= {0, 1}
    return out


def index_of(t):
    """the node whose number a piece of a tnet line is"""
    while t[0] == 'fmtv':
        t = t[1]
    t = strip_calls(t, ('str', 'int'))
    if t[0] == 'it' and t[1][0] == 'it' and t[1][1] in (T('at', G, 'nodes'), T('at', G, '_node'), T('at', G, 'node')) or t[0] == 'it' and t[1][0] == 'it' and t[1][1] == T('call', T('meth', G, 'nodes'), ()):
        return t[1][2], t[2]
    return None


def graph_rows(ctx, m, pieces):
    ctx.rule('rows', 'every node and every edge of the graph is written once, in a row of its own, with its ends in their own places')
    for name, part in (('writeEdgeList', 'edges'), ('writeNodeAttributeFile', 'nodes'), ('writeTnetFile', 'edges')):
        f = m.funcs.get('metaknowledge.graphHelpers:' + name)
        if f is None:
            ctx.undecided('rows', name, 'not there')
            continue
        ctx.saw(f)
        cl = Rows(f, pieces)
        eng = Engine(m, cl, max_steps=2000000)
        try:
            eng.run(f, {}, None, {})
        except Budget:
            ctx.undecided('rows', name, 'too many paths')
            continue
        used = {r[0] for r in cl.rows}
        if not used:
            ctx.undecided('rows', name, 'no row written in a loop over the graph')
            continue
        for site, phase, n, where, conds in cl.ends:
            if site not in used:
                continue
            if cl.loops[site] != part:
                ctx.ob('rows', name + ' part', False, 'the rows are written for the {} of the graph'.format(cl.loops[site]), where)
                continue
            if site in cl.part:
                ctx.ob('rows', name + ' all', False, 'only a part of the {} is gone through'.format(part), where)
            if phase == 'break':
                ctx.ob('rows', name + ' all', False, 'writing stops before the last of the {}'.format(part), where)
                continue
            if n is None or len(n) > 1 or site in cl.inner:
                if n == frozenset({0}) and site not in cl.inner:
                    pass
                else:
                    ctx.undecided('rows', name + ' one each', 'rows in an inner loop' if site in cl.inner else 'not known how many rows are written')
                    continue
            ctx.ob('rows', name + ' one each', n == frozenset({1}), 'for one of the {} {} is written'.format(part, 'nothing' if n == frozenset({0}) else 'more than one row'), where)
        for site, short, arg, st, where in cl.rows:
            if short == 'writerow':
                row(ctx, name, eng, st, arg, where)
            elif name == 'writeTnetFile':
                tnet(ctx, name, eng, st, arg, where, pieces)


def row(ctx, name, eng, st, arg, where):
    o = eng.obj(st, arg) if arg[0] == 'r' else None
    if o is None or o.kind != 'dict':
        return
    for col, want in (('Source', 0), ('Target', 1)) if name == 'writeEdgeList' else (('ID', 0),):
        v = o.slots.get(C(col))
        if v is None or not isinstance(v, tuple):
            continue
        for a in alts(v):
            e = ends_in(a)
            if a[0] == 'it' and a[1][0] == 'r':         # an element of a list made up on the way
                o2 = eng.obj(st, a[1])
                if o2 is not None:
                    e = set().union(*[ends_in(y) for y in [x for x in o2.seq or () if isinstance(x, tuple)] + [b[0] for b in o2.bag]] or [set()])
            if e:
                ctx.ob('rows', name + ' ' + col, want in e and len(e) == 1, 'the column {} holds {}'.format(col, show(a)[:80]), where)


def tnet(ctx, name, eng, st, arg, where, pieces):
    ps = pieces(eng, st, arg)
    for p in ps or ():
        ids = [index_of(x) for x in p if isinstance(x, tuple)]
        ids = [x for x in ids if x is not None]
        if len(ids) != 2:
            ctx.undecided('rows', name + ' line', 'line ' + show(arg)[:80])
            continue
        (a, ka), (b, kb) = ids
        ctx.ob('rows', name + ' numbers', ka == kb and a != b, 'the two nodes of a line are ' + show(a)[:60] + ' and ' + show(b)[:60], where)
        for w in worlds(st.conds) or ():
            sizes = [(c, v) for c, v in w.items() if c[0] == 'cmp' and any(x[0] == 'call' and x[1] == T('x', 'len') and x[2] and x[2][0][0] == 'r' for x in c[2:4]) and any(is_c(x) for x in c[2:4])]
            if sizes:
                def fits(n):
                    def num(x):
                        return x[2] if is_c(x) else n
                    return all(r is None or r == v for r, v in ((order_atom(c, num), v) for c, v in sizes))
                ctx.ob('rows', name + ' two modes', not any(fits(n) for n in (0, 1)), 'lines are written when there is only one mode', where)
            known = {c[2]: v for c, v in w.items() if c[0] == 'cmp' and c[1] == 'in' and c[2] in (a, b) and c[3][0] == 'r'}
            if not known:
                ctx.undecided('rows', name + ' modes', 'not known which node is of the source mode')
                continue
            ctx.ob('rows', name + ' modes', known.get(a, True) and not known.get(b, False), 'the first node of a line need not be of the first mode and the second of the other', where)
