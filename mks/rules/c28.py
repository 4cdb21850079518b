"""C28: options act as documented - the default in the signature is the one the
documentation states, every documented option is read before it is replaced,
and an option handed to another function of the package keeps its meaning."""
import ast
import re

from ..clients import Base
from ..interp import Budget, C, Engine, FALSE, alts, is_c, show
from ..model import Func

PARAM = re.compile(r'^_([A-Za-z]\w*?)_\s*:')
DEFAULT = re.compile(r"[Dd]efaults?(?:\s+(?:is|to))?\s*:?\s*(`[^`]*`|\"[^\"]*\"|'[^']*'|-?\d+(?:\.\d+)?|[Nn]one\b|True\b|False\b|-?inf\b|(?:an )?empty string)")


def params(f):
    a = f.node.args
    return a.posonlyargs + a.args + a.kwonlyargs


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: v for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)} if a.defaults else {}
    out.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return out


def documented(f):
    """parameter name -> documentation text"""
    d = ast.get_docstring(f.node)
    out, cur = {}, None
    for line in (d or '').split('\n'):
        l = line.strip()
        if l.startswith('#'):
            cur = None
            continue
        m = PARAM.match(l)
        if m:
            cur = m.group(1)
            out[cur] = []
        elif cur is not None and l:
            out[cur].append(l.lstrip('> '))
    return {k: ' '.join(v) for k, v in out.items()}


INF = {'inf': float('inf'), '-inf': -float('inf')}


def value(text):
    """the constant a piece of documentation or code denotes, as (type, value)"""
    text = text.strip().strip('`').strip()
    if text.lower() in ('empty string', 'an empty string'):
        return ('str', '')
    if text in INF:
        return ('float', INF[text])
    m = re.match(r"^(-?)\s*float\(['\"](-?inf)['\"]\)$", text)
    if m:
        v = INF[m.group(2)]
        return ('float', -v if m.group(1) else v)
    if text.lower() == 'none':
        return ('NoneType', None)
    try:
        v = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return None
    return (type(v).__name__, v)


def const(model, f, e):
    v = value(ast.unparse(e))
    if v is not None:
        return v
    return None


def same_name(model, f, text, e):
    """`pkg.mod.NAME` documented against a default naming that constant"""
    t = text.strip().strip('`').split('.')[-1]
    return isinstance(e, (ast.Name, ast.Attribute)) and t == (e.id if isinstance(e, ast.Name) else e.attr)


# ---- liveness of one parameter -----------------------------------------
def reads(node, p):
    return any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, (ast.Load, ast.Del)) for n in ast.walk(node))


def writes(t, p):
    return any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(t))


def live(stmts, p, after):
    """can the incoming value of p be read by these statements (or after them)?"""
    for s in reversed(stmts):
        after = live1(s, p, after)
    return after


def live1(s, p, after):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        own = {x.arg for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs}
        inner = any(reads(x, p) for x in s.body) and p not in own
        return inner or any(reads(d, p) for d in s.args.defaults + [k for k in s.args.kw_defaults if k]) or (after and s.name != p)
    if isinstance(s, ast.ClassDef):
        return reads(s, p) or after
    if isinstance(s, ast.If):
        return reads(s.test, p) or live(s.body, p, after) or live(s.orelse, p, after)
    if isinstance(s, ast.While):
        return reads(s.test, p) or live(s.body, p, after) or live(s.orelse, p, after)
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return reads(s.iter, p) or (not writes(s.target, p) and live(s.body, p, after)) or live(s.orelse, p, after)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        for i in s.items:
            if reads(i.context_expr, p):
                return True
            if i.optional_vars is not None and writes(i.optional_vars, p):
                return False
        return live(s.body, p, after)
    if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
        fin = live(s.finalbody, p, after)
        els = live(s.orelse, p, fin) if s.orelse else fin
        return live(s.body, p, els) or any((h.type is not None and reads(h.type, p)) or (h.name != p and live(h.body, p, fin)) for h in s.handlers)
    if isinstance(s, (ast.Return, ast.Raise)):
        return reads(s, p)
    if isinstance(s, ast.Assign):
        if reads(s, p):
            return True
        if any(isinstance(t, ast.Name) and t.id == p or isinstance(t, (ast.Tuple, ast.List)) and writes(t, p) for t in s.targets):
            return False
        return after
    if isinstance(s, ast.AugAssign):
        return reads(s.value, p) or (isinstance(s.target, ast.Name) and s.target.id == p) or reads(s.target, p) or after
    if isinstance(s, ast.AnnAssign):
        return reads(s, p) or (after and not (s.value is not None and writes(s.target, p)))
    return reads(s, p) or after


def body(f):
    b = list(f.node.body)
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def stub(f):
    """a placeholder: nothing but pass, a constant return or a raise"""
    b = body(f)
    return all(isinstance(s, (ast.Pass, ast.Raise)) or (isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant))) or
               (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in b)


def sentinel(f, p, want):
    """default None standing for the documented constant: the body replaces a
    None by an expression that mentions the constant"""
    tests_none = any(isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and
                     isinstance(n.left, ast.Name) and n.left.id == p and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None
                     for n in ast.walk(f.node))
    if not tests_none:
        return False
    defs = {k: v for k, v in defs_of(f).items() if k != p}
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and p in origins(n.test, defs, {p}):
            for b in (n.body, n.orelse):
                if assigns(b, p) and any(isinstance(x, ast.Constant) and x.value == want[1] and type(x.value).__name__ == want[0] for s in b for x in ast.walk(s)):
                    return True
        if isinstance(n, ast.IfExp) and p in origins(n.test, defs, {p}) and any(
                isinstance(x, ast.Constant) and x.value == want[1] for y in (n.body, n.orelse) for x in ast.walk(y)):
            return True
    return False


def assigns(stmts, p):
    """p is given a value on every path that leaves these statements normally"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If):
            if assigns(s.body, p) and assigns(s.orelse, p):
                return True
        elif isinstance(s, ast.Try):
            if (assigns(s.body + s.orelse, p) and all(assigns(h.body, p) for h in s.handlers)) or assigns(s.finalbody, p):
                return True
        elif isinstance(s, ast.With):
            if assigns(s.body, p):
                return True
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and writes(s, p):
            return True
    return False


def bind(g, call, skip):
    """callee parameter -> argument expression; None if the call is not plain"""
    ps = [x.arg for x in g.node.args.posonlyargs + g.node.args.args][skip:]
    out = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            out['*'] = a
            break
        if i < len(ps):
            out[ps[i]] = a
    for k in call.keywords:
        if k.arg is None:
            return None
        out[k.arg] = k.value
    return out


def callee(m, f, call):
    """the package function a call reaches by name, and how many leading
    parameters the call does not write out"""
    fn = call.func
    if isinstance(fn, ast.Name):
        p = f.parent
        while isinstance(p, Func):
            for n in ast.walk(p.node):
                if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                    g = [x for x in m.funcs.values() if x.node is n]
                    return (g[0], 0) if g else (None, 0)
            p = p.parent
        return target(m, m.resolve(f.mod, fn.id))
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name) and v.id == 'self' and f.cls is not None:
            g = m.method(f.cls, fn.attr)
            return (g, 1) if isinstance(g, Func) and g.kind != 'static' else (None, 0)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            g = m.method(f.cls, fn.attr, after=f.cls)
            return (g, 1) if isinstance(g, Func) else (None, 0)
        g, skip = target(m, m.resolve_expr(f.mod, fn))
        if g is None and fn.attr not in COMMON:
            # a method of an object nothing else is known about
            gs = [x for x in m.funcs.values() if x.cls is not None and x.parent is None and x.name == fn.attr and isinstance(x.node, ast.FunctionDef)]
            if gs and not any(x.kind in ('static', 'staticmethod', 'property') for x in gs):
                return Several(gs), 1
        return g, skip
    return None, 0


COMMON = {n for t in (str, bytes, list, dict, set, tuple, int, type(open.__call__), object) for n in dir(t)} | {
    'write', 'read', 'readline', 'close', 'flush', 'writerow', 'writeheader', 'search', 'match', 'sub', 'group', 'nodes', 'edges', 'parse', 'encoding'}


class Several:
    """methods of one name, of which any can be the one called"""

    def __init__(self, gs):
        self.gs = sorted(gs, key=lambda g: g.fid)
        self.node, self.qual = self.gs[0].node, self.gs[0].name


def positional(g):
    return [x.arg for x in g.node.args.posonlyargs + g.node.args.args]


def target(m, r):
    if r and r[0] == 'f':
        return r[1], 1 if r[1].cls is not None and r[1].kind not in ('static', 'staticmethod') else 0
    if r and r[0] == 'k':
        i = m.method(r[1], '__init__')
        return (i, 1) if isinstance(i, Func) else (None, 0)
    return None, 0


def defs_of(f):
    """name -> expressions it is assigned from in f (for following an option
    through local names)"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out.setdefault(x.id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(n.iter)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(n.context_expr)
    return out


def origins(e, defs, names, seen=None):
    """which of the function's parameters an expression is made from"""
    seen = set() if seen is None else seen
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id not in seen:
            if n.id in names:
                out.add(n.id)
            if n.id in defs:
                seen.add(n.id)
                for d in defs[n.id]:
                    out |= origins(d, defs, names, seen)
    return out


def matters(node, p, off, skip):
    """is p read anywhere that is reached when the parameters in `off` are false?"""
    if node is skip:
        return False
    if isinstance(node, ast.Name):
        return node.id == p and isinstance(node.ctx, ast.Load)
    kids = list(ast.iter_child_nodes(node))
    if isinstance(node, ast.If):
        if isinstance(node.test, ast.Name) and node.test.id in off:
            kids = node.orelse
        elif isinstance(node.test, ast.UnaryOp) and isinstance(node.test.op, ast.Not) and isinstance(node.test.operand, ast.Name) and node.test.operand.id in off:
            kids = node.body
        elif isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and any(isinstance(v, ast.Name) and v.id in off for v in node.test.values):
            kids = node.orelse
    if isinstance(node, ast.FunctionDef) and kids:
        kids = node.body
    return any(matters(k, p, off, skip) for k in kids)


def run(ctx):
    m = ctx.model
    ctx.rule('C28.default', 'The default in the signature is the one the documentation of the parameter states.')
    ctx.rule('C28.live', 'Every documented parameter is read, on some path, before it is given another value.')
    ctx.rule('C28.known', 'A documented parameter name that the signature lacks is not offered.')
    ctx.rule('C28.pass', 'An option a function shares, by name, with a package function it calls is not left to the default of the called function, and arguments do not trade places.')
    ctx.rule('C28.retry', 'A function that asks again by calling itself hands over all of its parameters.')
    ndef = nlive = npass = 0
    for f in sorted(m.funcs.values(), key=lambda f: f.fid):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        names = [x.arg for x in params(f)]
        docs = documented(f)
        dfl = defaults(f)
        ctx.saw(f)
        lab = f.qual if f.parent is None else f.qual
        for p, text in docs.items():
            if p not in names:
                continue
            mt = DEFAULT.search(text)
            if p in dfl and mt:
                want, got = value(mt.group(1)), const(m, f, dfl[p])
                c = '{}: {}'.format(lab, p)
                if want is None:
                    if mt.group(1).startswith('`') and not same_name(m, f, mt.group(1), dfl[p]):
                        ctx.undecided('C28.default', c, 'documented as {}'.format(mt.group(1)))
                    continue
                if got is None:
                    if not isinstance(dfl[p], (ast.Name, ast.Attribute)):
                        ctx.undecided('C28.default', c, 'default is {}'.format(ast.unparse(dfl[p])))
                    continue
                ndef += 1
                ok = want == got or ({want[0], got[0]} <= {'int', 'float'} and want[1] == got[1])
                if not ok and got == ('NoneType', None):
                    ok = sentinel(f, p, want)
                if not ok and {want[1], got[1]} == {None, False} if not isinstance(want[1], (list, dict, set)) else False:
                    # both switch the option off when it is only ever tested
                    ok = only_tested(f, p)
                ctx.ob('C28.default', c, ok, 'documented default {}, signature has {}'.format(mt.group(1), ast.unparse(dfl[p])), f.where(dfl[p]))
            elif p not in dfl and mt and value(mt.group(1)) is not None and not text.lower().startswith('the ') and p not in ('args', 'kwargs'):
                ctx.ob('C28.default', '{}: {}'.format(lab, p), False, 'documented default {}, but the parameter is required'.format(mt.group(1)), f.where())
        if not stub(f) and not (f.name.startswith('__') and f.name != '__init__'):
            b = body(f)
            for p in names:
                if p in ('self', 'cls') or not (p in docs or p in dfl):
                    continue
                if p not in dfl and not any(isinstance(x, ast.Name) and x.id == p for s in b for x in ast.walk(s)):
                    continue
                nlive += 1
                ok = live(b, p, False)
                if not ok and not any(reads(s, p) or any(writes(x, p) for x in ast.walk(s) if isinstance(x, ast.Name)) for s in b):
                    # never mentioned at all: acceptable only when a sister
                    # method or the caller's protocol wants the parameter
                    ok = family_reads(m, f, p) or p not in docs and not docs
                ctx.ob('C28.live', '{}: {}'.format(lab, p), ok, 'the value given is never read', f.where())
        # options handed on
        defs = None
        for call in own_calls(f):
            g, skip = callee(m, f, call)
            if g is None or not isinstance(g.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(g, Several):
                bs = [(bind(x, call, skip), x) for x in g.gs]
                if any(b is None or '*' in b for b, x in bs):
                    continue
                npass += 1
                for p in names:
                    if p in dfl and p not in ('self', 'cls', 'name') and all(p in defaults(x) for b, x in bs):
                        ctx.ob('C28.pass', '{} -> {}: {}'.format(lab, g.qual, p), any(p in b for b, x in bs),
                               'the option {} is not handed on: {} works with its own default'.format(p, g.qual), f.where(call))
                continue
            b = bind(g, call, skip)
            if b is None:
                continue
            if defs is None:
                defs = defs_of(f)
            gp = [x.arg for x in params(g)]
            gd = defaults(g)
            npass += 1
            if g is f:
                if is_tail(f, call):
                    for p in names:
                        if p in ('self', 'cls'):
                            continue
                        ok = p in b and (p in origins(b[p], defs, {p}) or not isinstance(b[p], ast.Constant))
                        ctx.ob('C28.retry', '{}: {}'.format(lab, p), ok, 'asking again drops the caller\'s {}'.format(p), f.where(call))
                else:
                    off = {q for q, x in b.items() if isinstance(x, ast.Constant) and not x.value}
                    for p in names:
                        if p in dfl and p in gd and p in docs and p not in b and '*' not in b:
                            ctx.ob('C28.pass', '{} -> itself: {}'.format(lab, p), not matters(f.node, p, off, call),
                                   'the option {} is not handed on: the call to itself works with the default'.format(p), f.where(call))
                continue
            for p in gp:
                if p in names and p in gd and p in dfl and p not in ('self', 'cls', 'name'):
                    ctx.ob('C28.pass', '{} -> {}: {}'.format(lab, g.qual, p), p in b or '*' in b and p in positional(g)[skip:],
                           'the option {} is not handed on: {} works with its own default'.format(p, g.qual), f.where(call))
            for q, x in b.items():
                if isinstance(x, ast.Name) and x.id in names and x.id != q and x.id in gp and q in names and x.id not in defs:
                    y = b.get(x.id)
                    crossed = isinstance(y, ast.Name) and y.id == q
                    twice = isinstance(y, ast.Name) and y.id == x.id and q in dfl and q not in defs_of(f)
                    ctx.ob('C28.pass', '{} -> {}: {}'.format(lab, g.qual, q), not crossed and not twice,
                           '{} and {} trade places'.format(q, x.id) if crossed else '{} is given the value of {}'.format(q, x.id), f.where(call))
    ctx.count('documented defaults compared', ndef)
    ctx.need('options checked for use', nlive, 80)
    ctx.need('calls inside the package looked at', npass, 30)
    order(ctx)


class Order(Base):
    """in which direction the lists a function returns run"""
    max_states = 60
    exact_conds = True
    progress = False

    def __init__(self):
        self.out, self.sorts = [], {}

    def join_fact(self, k, a, b):
        if isinstance(k, tuple) and k[0] == 'rev':
            return a if a == b else '?'
        if isinstance(k, tuple) and k[0] == 'over':
            return a or b
        if isinstance(k, tuple) and k[0] == 'at':
            return b if a is None else a if b is None or a == b else '?'
        return Base.join_fact(self, k, a, b)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'sorted':
            self.sorts[node] = kw.get('reverse', FALSE)
        elif name == 'sort' and recv is not None:
            for t in alts(recv):
                st.facts['sort', t] = (node, kw.get('reverse', FALSE))
                st.facts.pop(('rev', t), None)

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how == 'reverse':
            st.facts['rev', t] = 1 - st.facts['rev', t] if st.facts.get(('rev', t)) in (0, 1) else 1 if st.facts.get(('rev', t)) is None else '?'

    def on_add(self, eng, st, t, v, node):
        for x in reversed(st.facts.get('in', ())):
            st.facts['over', t] = x
            break

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if it is None:
            return
        if phase == 'enter':
            st.facts['in'] = st.facts.get('in', ()) + (it,)
            st.facts['at', it] = st.facts.get(('rev', it), 0)
        elif phase == 'exit':
            st.facts['in'] = st.facts.get('in', ())[:-1] if st.facts.get('in', ())[-1:] == (it,) else st.facts.get('in', ())

    def on_return(self, eng, st, fn, value, node):
        if len(eng.acts) != 1 or value is None:
            return
        for v in alts(value):
            o = eng.obj(st, v) if v[0] == 'r' else None
            ls = [v]
            if o is not None and o.kind == 'dict':
                ls = [x for e in o.slots.values() if isinstance(e, tuple) for x in alts(e)]
            for x in ls:
                o = eng.obj(st, x) if x[0] == 'r' else None
                if o is not None and o.exact and not o.seq and not o.bag:
                    continue
                self.out.append((self.way(eng, st, x), show(x), eng.where(node) if node is not None else fn.where()))

    def way(self, eng, st, t, seen=(), inner=False):
        """+1 greatest first, -1 least first, None not known"""
        if t in seen or len(seen) > 12:
            return None
        seen += (t,)
        ways = set()
        s = st.facts.get(('sort', t))
        if s is not None:
            ways.add(direction(*s))
        elif ('over', t) in st.facts:
            ways.add(self.way(eng, st, st.facts['over', t], seen, True))
        else:
            for how, b, node in eng.made.get(t, ()):
                if node in self.sorts:
                    ways.add(direction(node, self.sorts[node]))
                elif how == 'dedup':
                    ways.add(None)
                elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'reversed':
                    w = self.way(eng, st, b, seen)
                    ways.add(-w if w else None)
                else:
                    ways.add(self.way(eng, st, b, seen))
            for b, k in eng.slices.get(t, ()):
                w = self.way(eng, st, b, seen)
                ways.add(None if not w else -w if is_c(k[-1]) and k[-1][2] == -1 else w)
            if t[0] == 'enum':
                ways.add(self.way(eng, st, t[1], seen))
        if len(ways) != 1 or None in ways:
            return None
        w = ways.pop()
        r = st.facts.get(('at', t)) if inner else st.facts.get(('rev', t))
        return None if r == '?' else -w if r == 1 else w


def direction(node, reverse):
    if not is_c(reverse):
        return None
    w = 1 if reverse[2] else -1
    key = next((k.value for k in node.keywords if k.arg == 'key'), None)
    if isinstance(key, ast.Lambda):
        b = key.body
        b = b.elts[0] if isinstance(b, ast.Tuple) and b.elts else b
        if isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.USub):
            w = -w
    elif key is not None and not (isinstance(key, ast.Call) and getattr(key.func, 'attr', getattr(key.func, 'id', '')) == 'itemgetter'):
        return None
    return w


def order(ctx):
    m = ctx.model
    ctx.rule('C28.order', 'A list whose direction an option is documented to choose runs in that direction.')
    n = 0
    for f in sorted(m.funcs.values(), key=lambda f: f.fid):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        names = [x.arg for x in params(f)]
        for p, text in documented(f).items():
            if p not in names or not re.search(r'if `?True`?[^.]*\b(highest|greatest|largest|most)\b[^.]*\bfirst\b', text):
                continue
            for val in (True, False):
                cl = Order()
                eng = Engine(m, cl, 400000)
                try:
                    eng.run(f, {p: C(val)}, f.cls, {})
                except Budget:
                    ctx.undecided('C28.order', '{}: {}'.format(f.qual, p), 'too many paths')
                    continue
                for w, what, where in cl.out:
                    c = '{}: {} = {}'.format(f.qual, p, val)
                    if w is None:
                        ctx.undecided('C28.order', c, 'direction of {} not known'.format(what[:60]))
                        continue
                    n += 1
                    ctx.ob('C28.order', c, (w > 0) == val, 'a returned list starts with the {} value'.format('greatest' if w > 0 else 'least'), where)
    ctx.count('directions of returned lists', n)


def only_tested(f, p):
    """every read of p is a plain truth test or sits under one"""
    ok = True
    for n in ast.walk(f.node):
        for t in (n.test,) if isinstance(n, (ast.If, ast.IfExp, ast.While)) else ():
            if isinstance(t, ast.Name) and t.id == p:
                continue
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == p and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                ok = False
    return ok


def own_calls(f):
    """calls in f but not in the functions nested in it"""
    out, todo = [], list(f.node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Call):
            out.append(n)
        todo.extend(ast.iter_child_nodes(n))
    return out


def is_tail(f, call):
    return any(isinstance(n, ast.Return) and n.value is call for n in ast.walk(f.node))


def family_reads(m, f, p):
    """another class of the same family reads the like-named parameter of the
    same method: the signature is shared, this class has no use for it"""
    if f.cls is None:
        return False
    fam = set()
    for c in m.mro(f.cls):
        if hasattr(c, 'methods'):
            for d in m.subclasses(c):
                fam.add(d)
    for d in fam:
        g = d.methods.get(f.name)
        if isinstance(g, Func) and g is not f and p in [x.arg for x in params(g)] and any(reads(s, p) for s in body(g)):
            return True
    return False

