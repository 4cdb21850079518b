"""C16: edges run in the documented direction and the graph is of the kind asked for."""
from ..clients import Base
from ..interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms
from .c15 import BUILDERS, cell_of

RCM = 'metaknowledge.recordCollection:'
MCM = 'metaknowledge.mkCollection:CollectionWithIDs.'
KINDS = [RCM + 'RecordCollection.networkCoAuthor', RCM + 'RecordCollection.networkCoCitation', RCM + 'RecordCollection.networkCitation',
         RCM + 'RecordCollection.networkBibCoupling', MCM + 'networkOneMode', MCM + 'networkTwoMode', MCM + 'networkMultiMode',
         MCM + 'networkMultiLevel', 'metaknowledge.diffusion:diffusionGraph', 'metaknowledge.graphHelpers:readGraph',
         'metaknowledge.grantCollection:GrantCollection.networkCoInvestigator', 'metaknowledge.grantCollection:GrantCollection.networkCoInvestigatorInstitution']
MULTI = ('edgeAttribute', 'labelEdgesBy')


class Client(Base):
    max_states = 900
    exact_conds = True
    handler_states = 300
    progress = False
    opaque_funcs = ('networkCitation', 'addToNetwork', 'expandRecs', 'filterCites', 'makeID', 'makeNodeTuple', 'normalizeToTag', 'createCitation', 'diffusionCount')

    def __init__(self, top):
        self.top, self.graphs, self.edges, self.calls, self.lost = top, [], [], [], []

    def inline(self, eng, fn, st):
        if fn.name in self.opaque_funcs and fn is not self.top:
            return False
        if fn.cls is not None and any(k.name == 'Record' for k in eng.m.mro(fn.cls) if hasattr(k, 'methods')):
            return False
        return Base.inline(self, eng, fn, st)

    def join_fact(self, k, a, b):
        if k == 'kept':
            return (a or frozenset()) | (b or frozenset())
        return Base.join_fact(self, k, a, b)

    def edge(self, eng, st, node, g, a, b, how):
        self.edges.append((g, a, b, dict(st.conds), how, eng.where(node), self.known(eng, st)))

    def known(self, eng, st):
        """what the path says about the parameters"""
        out = {}
        for x in self.params():
            p = T('p', x)
            if any(v and a[0] == 'cmp' and a[1] == 'is' and a[3] == NONE and a[2] != p and p in subterms(a[2]) for a, v in st.conds.items()):
                out[x] = None
                continue
            out[x] = eng.known(st, T('truth', p))
            if out[x] is None and st.conds.get(T('cmp', 'is', p, NONE)) is False:
                out['?' + x] = False
            elif out[x] is None and st.conds.get(T('cmp', 'is', p, NONE)) is True:
                out[x] = False
        return out

    def params(self):
        a = self.top.node.args
        return [x.arg for x in a.args + a.kwonlyargs]

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name in ('for:', 'view:keys'):
            return
        if recv is None and name.split('.')[-1] in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'):
            self.graphs.append((name.split('.')[-1], self.known(eng, st), eng.where(node)))
        if recv is not None and name in ('add_edge',) and len(args) >= 2:
            self.edge(eng, st, node, recv, args[0], args[1], 'added')
        if recv is not None and name == 'add_edges_from' and args:
            kept = st.facts.get('kept', frozenset())
            st.facts['kept'] = frozenset(x for x in kept if x[0] not in alts(args[0]))
        if recv is None:
            self.calls.append((name, tuple(args), dict(kw), dict(st.conds), st.loops, eng.where(node)))

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how == 'item' and value:
            c = cell_of(t, value[0])
            if c[0] == 'edge' and len(c[2]) >= 2:
                self.edge(eng, st, node, c[1], c[2][0], c[2][1], 'weighted')
        elif how in ('append', 'add'):
            pass

    def on_add(self, eng, st, r, v, node):
        if v is not None and v[0] == 'tup' and len(v) in (3, 4):
            st.facts['kept'] = st.facts.get('kept', frozenset()) | {(r, eng.where(node))}
            self.edges.append((None, v[1], v[2], dict(st.conds), 'kept', eng.where(node), self.known(eng, st)))

    def on_return(self, eng, st, fn, node, v):
        if fn is self.top:
            self.lost += list(st.facts.get('kept', ()))


def labels(t, names):
    """which of the parameters a value comes from (the key used to look it up does not matter)"""
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x[0] == 'p':
            if x[1] in names:
                out.add(x[1])
        elif x[0] == 'j':
            for y in x[1]:
                go(y)
        elif x[0] == 'it':
            go(x[1])
        elif x[0] == 'call':
            f, args = x[1], x[2]
            if f[0] == 'meth' and f[2] == 'get':
                if args:
                    go(args[0])
                go(f[1])
                return
            if f[0] == 'meth':
                go(f[1])
            for y in args:
                if y[0] != 'kw':
                    go(y)
        elif x[0] in ('el', 'at', 'enum', 'fstr', 'bin', 'tup', 'meth'):
            for y in x[1:]:
                if isinstance(y, tuple):
                    go(y)
    go(t)
    return out


def explore(ctx, fn, cls, rule, label=None):
    cl = Client(fn)
    eng = Engine(ctx.model, cl, 1500000)
    try:
        eng.run(fn, selfcls=cls)
    except Budget:
        ctx.undecided(rule, fn.qual, 'too many paths')
        return None
    ctx.saw(fn)
    return cl


def kinds(ctx, fn, cl):
    ps = cl.params()
    multi = [p for p in MULTI if p in ps]
    for kind, known, where in cl.graphs:
        di, mu = 'Di' in kind, kind.startswith('Multi')
        if 'directed' in ps:
            want = known.get('directed')
        else:
            want = fn.name == 'diffusionGraph'
        key = '{}: {}'.format(fn.qual, kind)
        if want is None:
            ctx.undecided('C16.kind', key, 'the graph is made before directed is looked at')
        else:
            ctx.ob('C16.kind', key, di == want, 'a {} is made where a graph {} directions is asked for'.format(kind, 'with' if want else 'without'), where)
        if multi:
            want = known.get(multi[0])
            if want is None and known.get('?' + multi[0]) is False:
                want = True
            if want is not None:
                ctx.ob('C16.kind', key + ' labels', mu == want, 'a {} is made {} {}'.format(kind, 'with' if want else 'without', multi[0]), where)
        else:
            ctx.ob('C16.kind', key + ' single', not mu, 'a {} keeps several edges between two nodes'.format(kind), where)
    ctx.count('graphs made', len(cl.graphs))


def direction(ctx, fn, cl, first, second, switch=None, only_directed=True):
    """edges run from `first` to `second` (the other way when `switch` is off)"""
    names = {first, second}
    n = 0
    for g, a, b, conds, how, where, known in cl.edges:
        la, lb = labels(a, names), labels(b, names)
        if len(la) != 1 or len(lb) != 1 or la == lb:
            if how != 'kept' and la | lb == names:
                ctx.undecided('C16.direction', '{}: edge at {}'.format(fn.qual, where.split(' in ')[0].split(':')[-1]), 'endpoints with several origins')
            continue
        n += 1
        fwd = la == {first}
        want = True
        msg = None
        if switch is not None:
            want = known.get(switch)
            if want is None:
                msg = 'an edge is {} from the {} to the {} whatever {} says'.format(how, *(('citing record', 'cited work') if fwd else ('cited work', 'citing record')), switch)
        if msg is None and fwd != want:
            msg = 'an edge is {} from {} to {}, the wrong way round'.format(how, next(iter(la)), next(iter(lb)))
        if msg is None:
            for c, v in conds.items():
                if c[0] == 'cmp' and c[1] == 'in' and c[3][0] == 'it':
                    x, y = c[3][2], c[2]
                    lx, ly = labels(x, names), labels(y, names)
                    if len(lx) == 1 and len(ly) == 1 and lx != ly and (lx != la):
                        msg = 'the edge is {} after looking for the edge in the other direction'.format(how)
                elif c[0] == 'call' and c[1][0] == 'meth' and c[1][2] == 'has_edge' and len(c[2]) >= 2:
                    lx, ly = labels(c[2][0], names), labels(c[2][1], names)
                    if len(lx) == 1 and len(ly) == 1 and lx != ly and (lx != la):
                        msg = 'the edge is {} after looking for the edge in the other direction'.format(how)
        ctx.ob('C16.direction', '{}: {} at {}'.format(fn.qual, how, where.split(' in ')[0].split(':')[-1]) if msg is None else '{}: {}'.format(fn.qual, how), msg is None, msg or '', where)
    for r, where in cl.lost:
        ctx.ob('C16.kept', '{}: {}'.format(fn.qual, where.split(' in ')[0].split(':')[-1]), False, 'edges are put aside and never added to the graph', where)
    if not cl.lost:
        ctx.ob('C16.kept', fn.qual, True)
    ctx.count('directed edges', n)
    return n


def bound_args(helper, args, kw):
    ps = [x.arg for x in helper.node.args.args]
    got = dict(zip(ps, args))
    got.update({k: v for k, v in kw.items() if k in ps})
    return got


def citing(ctx, fn, cl, helper, directed):
    own = cl.params()
    n = 0
    for name, args, kw, conds, loops, where in cl.calls:
        if name.split('.')[-1] != helper.name:
            continue
        n += 1
        got = bound_args(helper, args, kw)
        head, nds = got.get('headNd', NONE), got.get('nds', NONE)
        if not directed:
            ctx.ob('C16.citing', fn.qual + ': no head', head == NONE, 'the cited works are linked to {} instead of to each other'.format(show(head)[:60]), where)
            continue
        if 'recordToCite' in own:
            ok = got.get('recordToCite') == T('p', 'recordToCite')
            ctx.ob('C16.citing', fn.qual + ': recordToCite', ok, 'the direction asked for is not passed on', where)
        els = {y for y in subterms(head) if y[0] == 'el'} & {y for y in subterms(nds) if y[0] == 'el'}
        ok = bool(els) and any(y[0] == 'call' and (y[1][0] == 'meth' and y[1][2] == 'createCitation' or y[1][0] == 'f' and y[1][1].endswith('createCitation')) for y in subterms(head))
        ctx.ob('C16.citing', fn.qual + ': head', ok, 'the citations of a record are linked to {}, not to the record'.format(show(head)[:80]), where)
    ctx.count('calls of the citation helper', n)


def coupling(ctx, fn, cl):
    n = 0
    for g, a, b, conds, how, where, known in cl.edges:
        for x in (a, b):
            for y in alts(x):
                ok = None
                calls = [z for z in subterms(y) if z[0] == 'call' and z[1][0] == 'meth' and z[1][2] in
                         ('in_edges', 'out_edges', 'predecessors', 'successors', 'neighbors', 'edges')]
                if not calls:
                    continue
                f = calls[0][1][2]
                if f == 'in_edges':
                    ok = y[0] == 'it' and y[2] == C(0)
                elif f == 'predecessors':
                    ok = y[0] != 'it'
                else:
                    ok = False
                n += 1
                ctx.ob('C16.coupling', fn.qual, ok, 'records are coupled by {} of the citation network instead of by the works they both cite'.format(f), where)
    ctx.count('coupled pairs', n)


def columns(ctx, fn, cl):
    """edges of a file run from its source column to its destination column"""
    a, b = T('p', 'eSource'), T('p', 'eDest')
    for g, x, y, conds, how, where, known in cl.edges:
        sx, sy = subterms(x), subterms(y)
        if (a in sx or b in sx) and (a in sy or b in sy):
            ctx.ob('C16.direction', fn.qual + ': columns', a in sx and b in sy and b not in sx and a not in sy, 'an edge of the file runs from {} to {}'.format(show(x)[:50], show(y)[:50]), where)


def run(ctx):
    ctx.rule('C16.kind', 'the graph has directions and parallel edges exactly when the arguments ask for them')
    ctx.rule('C16.direction', 'edges run in the documented direction, and the existing edge is looked for in that direction')
    ctx.rule('C16.kept', 'edges put aside are added to the graph')
    ctx.rule('C16.citing', 'the citations of a record are linked to that record, in the direction asked for')
    ctx.rule('C16.coupling', 'records are coupled by the works they cite')
    m = ctx.model
    done = 0
    helper = m.funcs.get(RCM + 'addToNetwork')
    for fid in KINDS:
        fn = m.funcs.get(fid)
        if fn is None:
            continue
        rc = m.cls('GrantCollection' if 'grant' in fid else 'RecordCollection') if fn.cls is not None else None
        cl = explore(ctx, fn, rc, 'C16.kind')
        if cl is None:
            continue
        done += 1
        kinds(ctx, fn, cl)
        if fn.name == 'networkTwoMode':
            direction(ctx, fn, cl, 'tag1', 'tag2')
        elif fn.name == 'diffusionGraph':
            direction(ctx, fn, cl, 'source', 'target')
        elif fn.name == 'readGraph':
            columns(ctx, fn, cl)
        elif fn.name in ('networkCitation', 'networkCoCitation') and helper is not None:
            citing(ctx, fn, cl, helper, fn.name == 'networkCitation')
        elif fn.name == 'networkBibCoupling':
            coupling(ctx, fn, cl)
    ctx.need('graph builders', done, 6)
    if helper is not None:
        cl = explore(ctx, helper, None, 'C16.direction')
        if cl is not None:
            direction(ctx, helper, cl, 'headNd', 'nds', 'recordToCite')
