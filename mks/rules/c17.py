"""C17: thresholds are inclusive on both sides and prune exactly the elements
outside them."""
import ast
import itertools
import math

from ..clients import Base
from ..interp import Budget, C, Engine, NONE, T, UNDEF, alts, is_c, show, subterms
from ..table import KIND, Wrong, carried, guard, order_atom, summands, strip_calls

G = T('p', 'grph')
INF = float('inf')
REMOVERS = ('remove_edges_from', 'remove_nodes_from', 'remove_edge', 'remove_node')
GROW = ('add_node', 'add_edge', 'add_nodes_from', 'add_edges_from', 'add_weighted_edges_from', 'clear', 'clear_edges', 'update')
FUNCS = {
    'dropEdges': dict(lo='minWeight', hi='maxWeight', flag='ignoreUnweighted', what='edge', missing='keep'),
    'dropNodesByDegree': dict(lo='minDegree', hi='maxDegree', flag='includeUnweighted', what='node', missing='one'),
    'dropNodesByCount': dict(lo='minCount', hi='maxCount', flag='ignoreMissing', what='node', missing='keep'),
}


class Client(Base):
    max_states = 300
    exact_conds = True
    progress = False

    def __init__(self):
        self.removals, self.adds, self.other, self.steps, self.its = [], [], [], [], {}
        self.values, self.adding, self.breaks = [], set(), []

    def decide(self, eng, st, atom):
        if atom[0] == 'cmp' and atom[1] == 'in' and is_c(atom[2]) and isinstance(atom[2][2], int) and atom[3][0] == 'el' and graph_part(atom[3][1]):
            return True            # the parts of a graph view's tuples
        return Base.decide(self, eng, st, atom)

    def fork_item(self, eng, st, b, k):
        return data_of(b) is not None

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'for:':
            self.its[eng.site(node)] = recv
        if recv != G:
            return
        if name in REMOVERS:
            self.removals.append((name, tuple(args), dict(st.conds), st.loops, eng.where(node), st.copy()))
        elif name in GROW:
            self.other.append((name, eng.where(node)))

    def on_add(self, eng, st, r, v, node):
        self.adds.append((r, v, dict(st.conds), eng.where(node)))
        self.adding |= set(st.loops)

    def on_loop(self, eng, st, node, phase, it):
        if phase == 'iter-end':
            self.steps.append((it, carried(eng, st, node), dict(st.conds), eng.where(node)))
            self.values.append((it, eng.site(node), {(fid, n): v for fid, (_, env) in st.frames.items() for n, v in (env or {}).items() if isinstance(v, tuple) and v}, eng.where(node)))
        elif phase == 'break':
            self.breaks.append((it, eng.site(node), dict(st.conds), eng.where(node)))


def graph_part(it):
    """'edges'/'nodes'/'loops' when it iterates that part of the graph"""
    it = strip_calls(it, ('list', 'tuple', 'set', 'sorted', 'iter', 'reversed'))
    if it[0] == 'call' and it[1][0] == 'meth' and it[1][1] == G and it[1][2] in ('edges', 'nodes'):
        return it[1][2]
    if it[0] == 'at' and it[1] == G and it[2] in ('edges', 'nodes'):
        return it[2]
    if it[0] == 'call' and it[1][0] == 'x' and it[1][1].split('.')[-1] == 'selfloop_edges' and it[2] and it[2][0] == G:
        return 'loops'
    if it == G:
        return 'nodes'
    return None


def elements(t):
    """graph elements (each(...)) mentioned by t"""
    return {x for x in subterms(t) if x[0] == 'el' and graph_part(x[1])}


def attr_of(t):
    """(element, attribute term, default) when t reads an attribute of a graph element"""
    while t[0] == 'call' and t[1] == T('x', 'float') and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == 'it' and data_of(t[1]) is not None:
        return data_of(t[1]), t[2], None
    if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'get' and data_of(t[1][1]) is not None and t[2]:
        return data_of(t[1][1]), t[2][0], t[2][1] if len(t[2]) > 1 else NONE
    if t[0] == 'it' and t[1][0] == 'el' and graph_part(t[1][1]) == 'edges' and t[2] == C(2):
        # edges(data = name)
        kw = dict(x for x in t[1][1][3] if isinstance(x, tuple) and len(x) == 2) if len(t[1][1]) > 3 else {}
        if 'data' in kw and not is_c(kw['data']):
            return t[1], kw['data'], kw.get('default', NONE)
    return None


def keyed(it):
    """it iterates edges together with their keys"""
    return any(x == T('kw', 'keys', C(True)) for x in subterms(it))


def with_key(v):
    """what is removed names the parallel edge (True), only its ends (False)"""
    v = strip_calls(v, ('tuple', 'list'))
    if v[0] == 'el':
        return keyed(v[1])
    if v[0] == 'tup':
        return len(v) >= 4
    if v[0] == 'it' and v[1][0] == 'el' and v[2][0] == 'slice':
        stop = v[2][2]
        return keyed(v[1][1]) and not (is_c(stop) and stop[2] in (2, -2))
    return None


def data_of(t):
    """the graph element whose attribute dictionary t is"""
    if t[0] == 'it' and t[1][0] == 'el' and graph_part(t[1][1]) and is_c(t[2]) and t[2][2] in ((3, -1) if keyed(t[1][1]) else (1, 2, -1)):
        return t[1]
    if t[0] == 'it' and t[1][0] == 'at' and t[1][1] == G and t[1][2] in ('nodes', 'edges') and elements(t[2]):
        return sorted(elements(t[2]), key=str)[0]
    return None


class Rule:
    def __init__(self, ctx, name, spec):
        self.ctx, self.name, self.spec = ctx, name, spec
        self.pname = T('p', 'parameterName')
        self.seen_values = set()

    # -------------------------------------------------------- one guard
    def lit(self, env, atom, val):
        s = self.spec
        if atom[0] == 'cmp' and atom[1] == 'in' and is_c(atom[2]) and isinstance(atom[2][2], int) and atom[3][0] == 'el':
            return val
        # missing?
        if atom[0] == 'cmp' and atom[1] == 'in' and data_of(atom[3]) is not None:
            if atom[2] != self.pname:
                raise Wrong('looks at attribute {} instead of parameterName'.format(show(atom[2])))
            return (not env['missing']) == val
        if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE and attr_of(atom[2]):
            return env['missing'] == val
        if atom[0] == 'cmp' and atom[1] == '==' and self.is_loop(atom):
            return env['loop'] == val
        if atom in (T('call', T('meth', G, 'is_multigraph'), ()), T('truth', T('call', T('meth', G, 'is_multigraph'), ()))):
            return env['multi'] == val
        if atom[0] == 'truth':
            x = atom[1]
            if x == T('p', s['flag']):
                return env['flag'] == val
            if x == T('p', 'dropSelfLoops'):
                return env['dropSelfLoops'] == val
            if x == T('p', 'useWeight'):
                return env['useWeight'] == val
        r = order_atom(atom, lambda t: self.value(env, t))
        if r is not None:
            return r == val
        return None

    @staticmethod
    def is_loop(atom):
        a, b = atom[2], atom[3]
        return a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[1][0] == 'el' and graph_part(a[1][1]) == 'edges' and {a[2], b[2]} == {C(0), C(1)}

    def value(self, env, t):
        s = self.spec
        if t == T('p', s['lo']):
            return env['lo']
        if t == T('p', s['hi']):
            return env['hi']
        if is_c(t) and isinstance(t[2], float) and math.isinf(t[2]):
            return t[2]
        a = attr_of(t)
        if a is not None and s['missing'] == 'keep':
            if a[1] != self.pname:
                raise Wrong('compares attribute {} instead of parameterName'.format(show(a[1])))
            if a[2] is not None and env['missing'] and is_c(a[2]) and isinstance(a[2][2], (int, float)):
                return a[2][2]
            return env['val'] if not env['missing'] else None
        if s['missing'] == 'one':
            d = self.degree(t)
            if d is not None and d != env['useWeight']:
                raise Wrong('with useWeight = {} the {} is compared'.format(env['useWeight'], 'number of edges' if env['useWeight'] else 'sum of the weights'))
            return env['val'] if d is not None else None
        return None

    def degree(self, t):
        """True: the summed weights, False: the number of edges"""
        if t[0] == 'call' and t[1] == T('x', 'len') and len(t[2]) == 1 and graph_part(t[2][0]) == 'edges' and elements(t[2][0]):
            return False
        if t[0] == 'call' and t[1] == T('x', 'sum') and t[2]:
            return True
        if t[0] in ('j', 'bin', 'phi'):
            for x in alts(t):
                if is_c(x) and x[2] != 0:
                    raise Wrong('the sum of the weights starts from ' + show(x))
            ok = all(is_c(x) or any(y[0] == 'phi' for _, y in summands(x)) for x in alts(t))
            return True if ok and any(x[0] in ('phi', 'bin') for x in alts(t)) else None
        return None

    # -------------------------------------------------------- the whole function
    def run(self):
        ctx, s = self.ctx, self.spec
        fn = ctx.model.funcs.get('metaknowledge.graphHelpers:' + self.name)
        if fn is None:
            return
        cl = Client()
        eng = Engine(ctx.model, cl, 600000)
        try:
            rets, raises = eng.run(fn)
        except Budget:
            ctx.undecided('C17.prune', self.name, 'too many paths')
            return
        ctx.saw(fn)
        key = self.name
        ctx.ob('C17.only', key + ' only removes', not cl.other, 'changes the graph with ' + ', '.join(sorted({n for n, w in cl.other})), cl.other[0][1] if cl.other else '')
        wrong = [(r[0], r[4]) for r in cl.removals if ('node' in r[0]) != (s['what'] == 'node')]
        ctx.ob('C17.only', key + ' removes ' + s['what'] + 's', not wrong, 'removes with ' + ', '.join(sorted({n for n, w in wrong})), wrong[0][1] if wrong else '')
        # drop events: (element term, target ok, guards)
        events = []
        und = []
        for name, args, conds, loops, where, st in cl.removals:
            if name in ('remove_edges_from', 'remove_nodes_from') and args:
                v = args[0]
                o = eng.obj(st, v)
                if o is None:
                    if graph_part(v) == 'loops' or graph_part(v) and s['what'] == 'edge':
                        events.append(('loops' if graph_part(v) == 'loops' else 'all', conds, where))
                    else:
                        und.append('removes ' + show(v)[:80])
                    continue
                mine = [(av, ac, aw) for r, av, ac, aw in cl.adds if r == v]
                for av, ac, aw in mine:
                    g = dict(ac)
                    for a, b in conds.items():
                        if not elements_of_cond(a):
                            g.setdefault(a, b)
                    events.append((av, g, aw))
                if not mine and not (o.seq == () or o.exact and not o.bag):
                    und.append('contents of the removed list unknown')
            elif loops and any(r == cl.its.get(loops[-1], NONE) for r, av, ac, aw in cl.adds):
                # one by one from a list filled before
                src = cl.its[loops[-1]]
                o = eng.obj(st, src)
                if o is None or len(args) > 2 or any(x[0] == 'r' for x in args):
                    und.append('removes the elements of ' + show(src))
                    continue
                mine = [(av, ac, aw) for r, av, ac, aw in cl.adds if r == src]
                v = T('tup', args[0], args[1]) if name == 'remove_edge' and len(args) > 1 else args[0]
                for av, ac, aw in mine:
                    g = dict(ac)
                    for a, b in conds.items():
                        if not elements_of_cond(a):
                            g.setdefault(a, b)
                    events.append((av if av in alts(v) or v[0] != 'tup' else v, g, aw))
            elif name == 'remove_edge' and len(args) >= 2:
                events.append((T('tup', args[0], args[1]), conds, where))
            elif args:
                events.append((args[0], conds, where))
        for it, site, conds, where in cl.breaks:
            if graph_part(it) and not elements(it) and site in cl.adding:
                ctx.ob('C17.prune', key + ' every element', False, 'the search stops before the last {}'.format(s['what']), where)
        drops = []
        for v, g, w in events:
            part = self.element(v)
            if v in ('loops', 'all'):
                part = ('loops' if v == 'loops' else 'edges', None)
            if part is None:
                und.append('removes ' + show(v)[:80])
                continue
            drops.append((part, g, w))
            if s['what'] == 'edge' and part[0] != 'loops' and v != 'all':
                self.parallel(v, g, w)
        raising = []
        for st, exc, node, implicit in raises:
            n = exc if isinstance(exc, str) else getattr(exc, 'name', str(exc))
            if n == 'KeyError':
                raising.append((dict(st.conds), str(getattr(node, "lineno", "?"))))
        self.decide(fn, drops, raising, und)
        self.defaults(fn)
        if s['missing'] == 'one':
            self.increments(cl, raising)

    def parallel(self, v, g, w):
        """of the parallel edges of a multigraph the one outside the range is removed: its ends alone name another"""
        if with_key(v) is not False:
            return
        for lo, hi, val in ((0, 3, -2), (0, 3, 4)):
            env = dict(lo=lo, hi=hi, val=val, missing=False, flag=True, loop=False, dropSelfLoops=True, useWeight=True, multi=True)
            try:
                r = guard(g, lambda a, b: self.lit_safe(env, a, b, set()))
            except Wrong:
                r = None
            self.ctx.ob('C17.parallel', self.name, r is not True, 'on a multigraph the edge is removed by its ends alone: of parallel edges that is whichever was added last, not the one looked at', w)

    def defaults(self, fn):
        """left out, a bound bounds nothing and self loops stay"""
        s = self.spec
        a = fn.node.args
        d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        for p, want in ((s['lo'], -INF), (s['hi'], INF), ('dropSelfLoops', False)):
            if p in d:
                v = constant(d[p])
                if v is not None:
                    self.ctx.ob('C17.default', self.name + '(' + p + ')', v == want, 'default is {}'.format(v), fn.where())

    def element(self, v):
        """(part of the graph, element) removed"""
        v = strip_calls(v, ('tuple', 'list'))
        if self.spec['what'] == 'edge':
            if v[0] == 'el':
                return (graph_part(v[1]), v) if graph_part(v[1]) in ('edges', 'loops') else None
            if v[0] == 'tup' and len(v) >= 3 and all(x[0] == 'it' and x[1][0] == 'el' for x in v[1:3]) and v[1][1] == v[2][1]:
                e = v[1][1]
                if graph_part(e[1]) not in ('edges', 'loops'):
                    return None
                if {v[1][2], v[2][2]} != {C(0), C(1)}:
                    raise Wrong('removes ({}), not the edge it looked at'.format(show(v)))
                return graph_part(e[1]), e
            if v[0] == 'it' and v[1][0] == 'el' and v[2][0] == 'slice':
                return graph_part(v[1][1]), v[1]
            return None
        if v[0] == 'it' and v[2] == C(0) and v[1][0] == 'el':
            v = v[1]
        if v[0] == 'el' and graph_part(v[1]) == 'nodes':
            return 'nodes', v
        return None

    def decide(self, fn, drops, raising, und):
        ctx, s, key = self.ctx, self.spec, self.name
        edge = s['what'] == 'edge'
        bounds = [-INF, -2, 0, 1, 3, INF]
        envs = []
        for lo, hi in itertools.product(bounds, bounds):
            for val in (-3, -2, -1, 0, 0.5, 1, 2, 3, 3.5, 4):
                for miss, flag in itertools.product((False, True), (False, True)):
                    if s['missing'] == 'one' and miss:
                        continue
                    for loop, dsl in (itertools.product((False, True), (False, True)) if edge else [(False, False)]):
                        for uw in ((False, True) if s['missing'] == 'one' else (True,)):
                            for multi in ((False, True) if edge else (False,)):
                                envs.append(dict(lo=lo, hi=hi, val=val, missing=miss, flag=flag, loop=loop, dropSelfLoops=dsl, useWeight=uw, multi=multi))
        rule = 'C17.prune'
        bad = None
        unknown = set()
        braise = None
        rund = set()
        for env in envs:
            if env['missing'] and not env['flag']:
                pass
            want = not env['missing'] and (env['val'] < env['lo'] or env['val'] > env['hi'])
            if env['loop'] and env['dropSelfLoops']:
                want = True
            got = False
            gunk = set()
            for part, g, w in drops:
                r = True
                if part[0] == 'loops':
                    r = env['loop']
                try:
                    x = guard(g, lambda a, b: self.named(env, a, b, gunk))
                    r = KIND['&'](r, x)
                except Wrong as e:
                    if r:
                        bad = bad or (str(e), w)
                    r = None
                got = KIND['|'](got, r)
            if env['missing'] and not env['flag'] and not (env['lo'] == -INF and env['hi'] == INF):
                # must raise rather than go on
                rr = False
                for g, w in raising:
                    rr = KIND['|'](rr, guard(g, lambda a, b: self.lit_safe(env, a, b, rund)))
                if rr is False and not env['loop']:
                    braise = braise or 'an {} without the attribute is passed over although {} is off ({})'.format(s['what'], s['flag'], desc(env))
                continue
            if env['missing'] and env['flag']:
                for g, w in raising:
                    if guard(g, lambda a, b: self.lit_safe(env, a, b, set())) and not env['loop']:
                        braise = braise or 'an {} without the attribute is refused although {} is on'.format(s['what'], s['flag'])
            if got is None:
                unknown |= gunk
            elif got != want and (got or not und):
                bad = bad or ('the {} is {} with {}'.format(s['what'], 'removed' if got else 'kept', desc(env)), fn.where())
        ok = bad is None
        if ok and (unknown or und):
            ctx.undecided(rule, key, '; '.join(sorted(unknown)[:3] + und[:3]))
        else:
            ctx.ob(rule, key, ok, bad[0] if bad else '', bad[1] if bad else fn.where())
        if s['missing'] == 'keep':
            if braise is None and rund:
                ctx.undecided('C17.missing', key, '; '.join(sorted(rund)[:3]))
            else:
                ctx.ob('C17.missing', key, braise is None, braise or '', fn.where())

    def named(self, env, a, b, unknown):
        x = self.lit(env, a, b)
        if x is None:
            unknown.add(show(a)[:100])
        return x

    def lit_safe(self, env, a, b, unknown):
        try:
            return self.named(env, a, b, unknown)
        except Wrong:
            return None

    def increments(self, cl, raising):
        """the degree is the sum over the node's edges of the weight, 1 when there is none"""
        ctx, key = self.ctx, self.name
        flag = T('truth', T('p', self.spec['flag']))
        inner = [x for x in cl.steps if graph_part(x[0]) == 'edges' and elements(x[0])]
        acc = {k for it, ch, conds, w in inner for k, adds in ch.items() if any(adds)}
        if not acc:
            ctx.undecided('C17.degree', key, 'no accumulation recognised')
            return
        for it, site, env, where in cl.values:
            if graph_part(it) == 'edges' and elements(it):
                for k in acc & set(env):
                    for a in alts(env[k]):
                        if attr_of(a) is not None or is_c(a):
                            ctx.ob('C17.degree', key, False, 'what was summed over the edges before is replaced by ' + show(a)[:80], where)
        for it, ch, conds, where in inner:
            miss = None
            for c, b in conds.items():
                if c[0] == 'cmp' and c[1] == 'in' and data_of(c[3]) is not None and c[2] == self.pname:
                    miss = not b
                if c[0] == 'cmp' and c[1] == 'is' and c[3] == NONE and attr_of(c[2]):
                    miss = b
            state = 'with' if miss is False else 'without' if miss else 'with or without'
            for k in acc & set(ch):
                for adds in ch[k]:
                    ok = len(adds) == 1 and adds[0][0] == 1
                    if ok:
                        inc = adds[0][1]
                        a = attr_of(inc)
                        if a is not None:
                            ok = a[1] == self.pname and (miss is False or a[2] == C(1))
                        elif is_c(inc):
                            ok = inc[2] == 1 and miss is True
                        else:
                            continue
                    ctx.ob('C17.degree', key, ok, 'adds {} for an edge {} the weight'.format(
                        ' '.join(('+' if x > 0 else '-') + show(y) for x, y in adds) or 'nothing', state), where)
            if miss and conds.get(flag) is False:
                ctx.ob('C17.missing', key, False, 'an edge without the weight is passed over although {} is off'.format(self.spec['flag']), where)
        for conds, w in raising:
            miss = any(c[0] == 'cmp' and c[1] == 'in' and data_of(c[3]) is not None and not b for c, b in conds.items())
            if miss:
                ctx.ob('C17.missing', key, conds.get(flag) is not True, 'an edge without the weight is refused although {} is on'.format(self.spec['flag']), w)


def constant(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = constant(e.operand)
        return -v if v is not None else None
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'float' and len(e.args) == 1 and isinstance(e.args[0], ast.Constant):
        return float(e.args[0].value)
    if isinstance(e, ast.Attribute) and e.attr == 'inf':
        return INF
    return None


def elements_of_cond(a):
    return any(x[0] == 'el' for x in subterms(a))


def desc(env):
    return ', '.join('{} = {}'.format(k, v) for k, v in sorted(env.items()))


def run(ctx):
    ctx.rule('C17.prune', 'an element is removed exactly when its value lies outside the closed range (self loops when asked)')
    ctx.rule('C17.missing', 'an element without the attribute raises KeyError unless it is to be ignored, then it stays')
    ctx.rule('C17.degree', 'the degree is the sum of the weights of the edges of the node, 1 for an edge without one')
    ctx.rule('C17.default', 'a bound that is left out bounds nothing')
    ctx.rule('C17.parallel', 'on a multigraph the edge removed is named by its key')
    ctx.rule('C17.only', 'pruning changes the graph only by removing elements')
    n = 0
    for name, spec in FUNCS.items():
        if 'metaknowledge.graphHelpers:' + name in ctx.model.funcs:
            n += 1
        try:
            Rule(ctx, name, spec).run()
        except Wrong as e:
            ctx.ob('C17.prune', name, False, str(e))
    ctx.need('pruning functions', n, 1)
