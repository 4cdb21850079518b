"""C06: whether progress is shown never changes what is done: nothing but the
display depends on it, the display takes nothing away from what it shows, and
it is ended on every way out of the function that started it."""
import ast

from ..model import Cls

SHOW = {'updateVal', 'finish', 'jumpUp'}
MUTATORS = {'append', 'add', 'pop', 'popitem', 'update', 'discard', 'remove', 'clear', '__next__', 'write', 'writelines', 'writerow', 'writerows', 'sort', 'extend', 'insert', 'setdefault', 'reverse',
            'add_edge', 'add_node', 'remove_edge', 'remove_node', 'add_edges_from', 'add_nodes_from', 'remove_nodes_from', 'remove_edges_from', 'read', 'readline', 'readlines', 'send', 'throw', 'close', 'seek'}
CONSUMERS = {'list', 'tuple', 'set', 'frozenset', 'sum', 'sorted', 'max', 'min', 'any', 'all', 'next', 'dict', 'enumerate'}
DISPLAY = '_ProgressBar'
FLAG = 'VERBOSE_MODE'


def parents(n):
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        yield n


def own(f):
    """the nodes of a function without those of the functions inside it"""
    todo = list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.append(c)


class Function:
    def __init__(self, m, f, progress):
        self.m, self.f, self.progress = m, f, progress
        self.nodes = list(own(f))
        self.hot = set()
        self.tainted = {p for p in progress.get(f.fid, ())}

    # what depends on the display
    def is_bar_call(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHOW and self.dep(n.func.value)

    def makes(self, n):
        return isinstance(n, ast.Call) and (getattr(n.func, 'id', None) == DISPLAY or getattr(n.func, 'attr', None) == DISPLAY)

    def callee(self, n):
        r = self.m.resolve_expr(self.f.mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == 'f':
            return [r[1]] if not isinstance(r[1], str) else [x for x in [self.m.funcs.get(r[1])] if x is not None]
        if r is not None and r[0] == 'k' and isinstance(r[1], Cls):
            g = self.m.method(r[1], '__init__')
            return [g] if g is not None else []
        name = getattr(n.func, 'attr', getattr(n.func, 'id', None))
        return [g for g in self.m.funcs.values() if g.name == name]

    def absorbed(self, call, arg):
        """is this argument taken by a parameter that is itself about the display"""
        gs = self.callee(call)
        if not gs:
            return False
        for g in gs:
            ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
            want = self.progress.get(g.fid, ())
            if isinstance(arg, ast.keyword):
                if arg.arg in want:
                    return True
                continue
            if arg in call.args:
                i = call.args.index(arg)
                off = 1 if g.cls is not None and not any(getattr(d, 'id', None) == 'staticmethod' for d in g.node.decorator_list) and not (isinstance(call.func, ast.Attribute) and isinstance(self.m.resolve_expr(self.f.mod, call.func.value), tuple) and self.m.resolve_expr(self.f.mod, call.func.value)[0] == 'k') else 0
                if i + off < len(ps) and ps[i + off] in want:
                    return True
        return False

    def dep(self, e):
        """does the value of an expression depend on the display"""
        if e is None:
            return False
        if isinstance(e, ast.Name):
            return id(e) in self.hot or e.id == FLAG
        if isinstance(e, ast.Attribute):
            return e.attr == FLAG or self.dep(e.value)
        if self.is_bar_call(e):
            return False
        if self.makes(e):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and self.dep(e.func.value):
                return True
            for a in list(e.args) + list(e.keywords):
                v = a.value if isinstance(a, (ast.keyword, ast.Starred)) else a
                if self.dep(v) and not self.absorbed(e, a):
                    return True
            return False
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return False
        return any(self.dep(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)))

    def control(self, n):
        """the test a node stands under that depends on the display"""
        last = n
        for p in parents(n):
            if isinstance(p, (ast.If, ast.While)) and last is not p.test and self.dep(p.test):
                return p
            if p is self.f.node:
                return None
            last = p
        return None

    def grow(self):
        """which names depend on the display where they are read"""
        start = frozenset(self.progress.get(self.f.fid, ())) | self.outer()
        while True:
            before = len(self.hot)
            body = self.f.node.body
            self.flow(body if isinstance(body, list) else [ast.Expr(value=body)], start)
            if len(self.hot) == before:
                return

    def outer(self):
        """what a function inside another sees of it"""
        up = next((p for p in parents(self.f.node) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef))), None)
        g = next((g for g in self.m.funcs.values() if g.node is up), None) if up is not None else None
        if g is None:
            return frozenset()
        G = Function(self.m, g, self.progress)
        G.grow()
        mine = {x.id for x in self.nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(self.f.node.args) if isinstance(a, ast.arg)}
        stores = {}
        for n in G.nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.setdefault(n.id, []).append(id(n) in G.hot)
        got = set(self.progress.get(g.fid, ())) | {k for k, v in stores.items() if all(v)}
        return frozenset(got - mine)

    def see(self, e, env):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id in env:
                self.hot.add(id(n))
                self.tainted.add(n.id)

    def bind(self, target, hot, env):
        env = set(env)
        for x in ast.walk(target):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                (env.add if hot else env.discard)(x.id)
                if hot:
                    self.hot.add(id(x))
                    self.tainted.add(x.id)
        return frozenset(env)

    def flow(self, body, env):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.If, ast.While, ast.For, ast.AsyncFor, ast.With, ast.AsyncWith, ast.Try)):
                heads = [s.test] if isinstance(s, (ast.If, ast.While)) else [s.iter, s.target] if isinstance(s, (ast.For, ast.AsyncFor)) else [w.context_expr for w in s.items] if isinstance(s, (ast.With, ast.AsyncWith)) else []
                for e in heads:
                    self.see(e, env)
            else:
                self.see(s, env)
            for n in ast.walk(s) if not isinstance(s, (ast.If, ast.While, ast.For, ast.AsyncFor, ast.With, ast.AsyncWith, ast.Try)) else ():
                if isinstance(n, ast.NamedExpr):
                    env = self.bind(n.target, self.dep(n.value), env)
                    self.see(s, env)
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is not None:
                    hot = self.dep(s.value) or self.control(s) is not None
                    for t in ts:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                            for x, v in zip(t.elts, s.value.elts):
                                env = self.bind(x, self.dep(v) or self.control(s) is not None, env)
                        else:
                            env = self.bind(t, hot, env)
            elif isinstance(s, ast.AugAssign):
                old = isinstance(s.target, ast.Name) and s.target.id in env
                env = self.bind(s.target, old or self.dep(s.value) or self.control(s) is not None, env)
            elif isinstance(s, ast.If):
                env = self.flow(s.body, env) | self.flow(s.orelse, env)
            elif isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
                while True:
                    into = env
                    if isinstance(s, ast.While):
                        self.see(s.test, into)
                    else:
                        self.see(s.iter, into)
                        into = self.bind(s.target, self.dep(s.iter), into)
                    out = self.flow(s.body, into) | env
                    if out == env:
                        break
                    env = out
                env = self.flow(s.orelse, env)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for w in s.items:
                    if w.optional_vars is not None:
                        env = self.bind(w.optional_vars, self.dep(w.context_expr), env)
                env = self.flow(s.body, env)
            elif isinstance(s, ast.Try):
                mid = env | self.flow(s.body, env)
                out = self.flow(s.orelse, mid)
                for h in s.handlers:
                    out = out | self.flow(h.body, mid)
                env = self.flow(s.finalbody, out)
        return env

    def judge(self):
        """(what, where) for everything the display decides"""
        bad = []
        for n in self.nodes:
            # what stands under a test of the display may only show
            c = self.control(n) if isinstance(n, ast.stmt) else None
            if c is not None:
                why = self.allowed(n)
                if why:
                    bad.append((why, n))
            if isinstance(n, ast.Return) and n.value is not None and self.dep(n.value):
                bad.append(('the answer depends on whether progress is shown', n))
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None and self.dep(n.value):
                bad.append(('the answer depends on whether progress is shown', n))
            elif isinstance(n, ast.Raise) and n.exc is not None and self.dep(n.exc):
                bad.append(('what is raised depends on whether progress is shown', n))
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, (ast.Subscript, ast.Attribute)) and (self.dep(n.value) or isinstance(x, ast.Subscript) and self.dep(x.slice)):
                            if not self.dep(x.value):
                                bad.append(('what is kept depends on whether progress is shown', n))
            elif isinstance(n, ast.For) and self.dep(n.iter):
                bad.append(('what is gone through depends on whether progress is shown', n))
            elif isinstance(n, ast.Call) and not self.is_bar_call(n) and not self.makes(n):
                fn = getattr(n.func, 'id', None)
                if fn in ('print', 'isinstance', 'bool', 'len', 'str', 'format', 'float', 'int', 'round', 'min', 'max') or self.inside_show(n):
                    continue
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant):
                    continue
                for a in list(n.args) + list(n.keywords):
                    v = a.value if isinstance(a, (ast.keyword, ast.Starred)) else a
                    if self.dep(v) and not self.absorbed(n, a):
                        if self.dep(n.func) and isinstance(n.func, ast.Attribute):
                            continue
                        bad.append(('what is handed to {} depends on whether progress is shown'.format(ast.unparse(n.func)[:40]), n))
            elif isinstance(n, ast.comprehension) and any(self.dep(x) for x in n.ifs + [n.iter]):
                bad.append(('what is gone through depends on whether progress is shown', n))
            # what is shown is only looked at
            if self.is_bar_call(n) or self.makes(n):
                bad += self.taken(n)
        return bad

    def inside_show(self, n):
        return any(self.is_bar_call(p) or self.makes(p) or isinstance(p, ast.Call) and getattr(p.func, 'id', None) == 'print' for p in parents(n) if isinstance(p, ast.expr) or isinstance(p, ast.keyword))

    def allowed(self, n):
        if isinstance(n, (ast.Pass, ast.If, ast.Import, ast.ImportFrom)):
            if isinstance(n, ast.If):
                return self.impure(n.test)
            return None
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name):
                        continue
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and self.dep(x.value):
                        continue
                    return 'what is kept depends on whether progress is shown'
            return self.impure(n.value)
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or self.is_bar_call(n.value):
                return None
            if isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', None) == 'print':
                return self.impure(n.value, True)
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and self.dep(n.value.func.value):
                return None
            return 'something is done only when progress is {}shown'.format('' if True else 'not ')
        if isinstance(n, ast.Delete):
            return None if all(isinstance(t, ast.Name) and id(t) in self.hot for t in n.targets) else 'what is kept depends on whether progress is shown'
        if isinstance(n, ast.With):
            return None
        return 'a {} depends on whether progress is shown'.format(type(n).__name__.lower())

    def impure(self, e, top=False):
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return 'something is done only when progress is shown'
            if not isinstance(n, ast.Call) or top and n is e or self.is_bar_call(n) or self.makes(n):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not self.dep(n.func.value):
                return 'something is changed only when progress is shown'
            if getattr(n.func, 'id', None) in CONSUMERS and n.args and self.runs_out(n.args[0]):
                return 'something is used up only when progress is shown'
        return None

    def runs_out(self, e):
        """is this something that can be gone through only once"""
        if not isinstance(e, ast.Name):
            return False
        vals = []
        for n in self.nodes:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                vals.append(n.value)
            if isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == e.id:
                vals.append(n.context_expr)
        return any(isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and getattr(v.func, 'id', None) in ('iter', 'map', 'filter', 'zip', 'enumerate', 'open', 'reversed') for v in vals)

    def taken(self, call):
        out = []
        for a in list(call.args) + [k.value for k in call.keywords]:
            for n in ast.walk(a):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    out.append(('showing progress changes {}'.format(ast.unparse(n.func.value)[:40]), n))
                elif isinstance(n, ast.Call) and getattr(n.func, 'id', None) in CONSUMERS and n.args and self.runs_out(n.args[0]):
                    out.append(('showing progress uses up {}'.format(ast.unparse(n.args[0])[:40]), n))
                elif isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom)):
                    names = {n.target.id} if isinstance(n, ast.NamedExpr) else {None}
                    if None in names or any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and not self.inside_show(x) for x in self.nodes):
                        out.append(('showing progress decides something', n))
        return out


def find_progress(m):
    """the parameters that are about the display, for every function"""
    prog = {}
    fs = [f for f in m.funcs.values() if relevant(f)]
    for f in fs:
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        used = {n.id for n in own(f) if isinstance(n, ast.Name)}
        got = {p for p in ps if named(p) and p not in used}
        for n in own(f):
            if isinstance(n, (ast.BoolOp, ast.If)):
                test = n if isinstance(n, ast.BoolOp) else n.test
                ops = [x.operand if isinstance(x, ast.UnaryOp) else x for x in (test.values if isinstance(test, ast.BoolOp) else [test])]
                if any(getattr(x, 'id', getattr(x, 'attr', None)) == FLAG for x in ops):
                    got |= {x.id for x in ops if isinstance(x, ast.Name) and x.id in ps and named(x.id)}
            if isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'isinstance' and len(n.args) == 2 and getattr(n.args[1], 'id', getattr(n.args[1], 'attr', None)) == DISPLAY and isinstance(n.args[0], ast.Name) and n.args[0].id in ps:
                got.add(n.args[0].id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHOW and isinstance(n.func.value, ast.Name) and n.func.value.id in ps:
                got.add(n.func.value.id)
        prog[f.fid] = got
    # handed on
    while True:
        grown = False
        for f in fs:
            F = Function(m, f, prog)
            F.grow()
            ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
            for n in F.nodes:
                if not isinstance(n, ast.Call) or F.makes(n):
                    continue
                for a in list(n.args) + list(n.keywords):
                    v = a.value if isinstance(a, ast.keyword) else a
                    if isinstance(v, ast.Name) and v.id in ps and v.id not in prog[f.fid] and named(v.id) and F.absorbed(n, a):
                        prog[f.fid].add(v.id)
                        grown = True
                    elif isinstance(v, ast.Name) and id(v) in F.hot and is_bar(F, v.id) and not F.absorbed(n, a) and not F.inside_show(n) and not F.is_bar_call(n):
                        # a bar given to a function of the package
                        for g in F.callee(n):
                            if g.fid not in prog:
                                continue
                            gp = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                            if isinstance(a, ast.keyword):
                                if a.arg in gp + [x.arg for x in g.node.args.kwonlyargs] and a.arg not in prog[g.fid]:
                                    prog[g.fid].add(a.arg)
                                    grown = True
                            else:
                                i = n.args.index(a) + (1 if g.cls is not None and isinstance(n.func, ast.Attribute) else 0)
                                if i < len(gp) and gp[i] not in prog[g.fid]:
                                    prog[g.fid].add(gp[i])
                                    grown = True
        if not grown:
            return prog


def named(p):
    return any(x in p.lower() for x in ('quiet', 'prog', 'bar', 'verbose'))


def is_bar(F, name):
    for n in F.nodes:
        if isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == name and F.makes(n.context_expr):
            return True
        if isinstance(n, ast.Assign) and F.makes(n.value) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return True
    return False


def relevant(f):
    return '.bin' not in f.mod.name and 'tests' not in f.mod.name and not f.mod.name.endswith('progressBar')


def ended(ctx, m, f, F):
    for n in F.nodes:
        if not F.makes(n):
            continue
        kw = {k.arg: k.value for k in n.keywords}
        if isinstance(kw.get('dummy'), ast.Constant) and kw['dummy'].value is True:
            continue
        ctx.count('displays')
        par = getattr(n, '_parent', None)
        ok = isinstance(par, ast.withitem)
        if isinstance(par, ast.Call) and getattr(par.func, 'attr', None) == 'enter_context':
            ok = True
        if isinstance(par, ast.Return):
            # made for a caller, who has to end it
            ok = all(isinstance(getattr(c, '_parent', None), ast.withitem) for g in m.funcs.values() for c in ast.walk(g.node) if isinstance(c, ast.Call) and getattr(c.func, 'id', getattr(c.func, 'attr', None)) == f.name)
        if isinstance(par, ast.IfExp):
            ok = isinstance(getattr(par, '_parent', None), ast.withitem)
        if isinstance(par, (ast.Assign, ast.IfExp)):
            if isinstance(par, ast.IfExp):
                par = getattr(par, '_parent', None)
            names = {t.id for t in par.targets if isinstance(t, ast.Name)} if isinstance(par, ast.Assign) else set()
            for x in F.nodes:
                if isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id in names:
                    ok = True
                if isinstance(x, ast.Try) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('finish', '__exit__', '__del__') and isinstance(c.func.value, ast.Name) and c.func.value.id in names for s in x.finalbody for c in ast.walk(s)):
                    ok = True
        ctx.ob('ended', f.fid, ok, 'a progress display is started that is not ended when the function is left by an exception', f.where(n))
        if not ok:
            end, gone = finishes(F, f.node.body)
            ctx.ob('ended', f.fid + ' normally', (end or gone == 'left') and gone != 'open', 'a progress display is started that is never ended', f.where(n))


def given(ctx, m, f, F):
    """a display that was given is not ended here"""
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg in F.progress.get(f.fid, ())]
    alias, about = {p: {p} for p in ps}, {p: {p} for p in ps}
    while True:
        before = sum(len(v) for v in list(alias.values()) + list(about.values()))
        for n in F.nodes:
            if isinstance(n, ast.Assign):
                names = {t.id for t in n.targets if isinstance(t, ast.Name)}
                vals = [n.value.body, n.value.orelse] if isinstance(n.value, ast.IfExp) else n.value.values if isinstance(n.value, ast.BoolOp) else [n.value]
                for p in ps:
                    if any(isinstance(v, ast.Name) and v.id in alias[p] for v in vals):
                        alias[p] |= names
                    if any(isinstance(x, ast.Name) and x.id in about[p] for x in ast.walk(n.value)) or any(isinstance(q, ast.If) and any(isinstance(x, ast.Name) and x.id in about[p] for x in ast.walk(q.test)) for q in parents(n)):
                        about[p] |= names - alias[p]
        if sum(len(v) for v in list(alias.values()) + list(about.values())) == before:
            break
    for p in ps:
        if len(alias[p]) == 1 and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHOW and getattr(n.func.value, 'id', None) == p for n in F.nodes):
            continue
        for n in F.nodes:
            e = n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('finish', '__exit__', '__del__') else n.context_expr if isinstance(n, ast.withitem) else None
            if not isinstance(e, ast.Name) or e.id not in alias[p]:
                continue
            ok = spared(F, n, alias[p], about[p])
            ctx.ob('ended', f.fid + ' given', ok, 'the display of the caller is ended here', f.where(e))


def spared(F, n, alias, about):
    """is this not done when the display was given by the caller"""
    def holds(t, depth=0):
        """the values a test can have when the display was given; None when that is not understood"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = holds(t.operand, depth)
            return None if r is None else {not x for x in r}
        if isinstance(t, ast.BoolOp):
            rs = [holds(v, depth) for v in t.values]
            if isinstance(t.op, ast.And):
                if {False} in rs:
                    return {False}
                return None if None in rs else {False, True} if any(False in r for r in rs) else {True}
            if {True} in rs:
                return {True}
            return None if None in rs else {False, True} if any(True in r for r in rs) else {False}
        if not any(isinstance(x, ast.Name) and x.id in about for x in ast.walk(t)):
            return {True, False}
        if isinstance(t, ast.Call) and getattr(t.func, 'id', None) == 'bool' and len(t.args) == 1:
            return holds(t.args[0], depth)
        if isinstance(t, ast.Name):
            if t.id in alias:
                return {True}
            vals = [x for x in F.nodes if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == t.id for y in x.targets)]
            if len(vals) == 1 and depth < 5 and not any(isinstance(q, ast.If) for q in parents(vals[0])):
                return holds(vals[0].value, depth + 1)
            return None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in alias and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return {False} if isinstance(t.ops[0], (ast.Is, ast.Eq)) else {True}
        return None

    last = n
    for q in parents(n):
        if isinstance(q, (ast.If, ast.IfExp)) and last is not q.test:
            r = holds(q.test)
            taken = last in q.body if isinstance(q.body, list) else last is q.body
            if r is None or taken not in r:
                return True
        for body in (getattr(q, 'body', None), getattr(q, 'orelse', None), getattr(q, 'finalbody', None)):
            if isinstance(body, list) and last in body:
                for x in body[:body.index(last)]:
                    if isinstance(x, ast.If):
                        r = holds(x.test)
                        if x.body and isinstance(x.body[-1], (ast.Return, ast.Raise)) and (r is None or r == {True}):
                            return True
                        if x.orelse and isinstance(x.orelse[-1], (ast.Return, ast.Raise)) and (r is None or r == {False}):
                            return True
        if q is F.f.node:
            break
        last = q
    return False


def finishes(F, body):
    """is a display ended on every way through these statements, and is some way out of the function taken without"""
    done, out = False, None
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise)):
            return done, ('left' if done or isinstance(s, ast.Raise) else 'open')
        if isinstance(s, ast.Expr) and F.is_bar_call(s.value) and s.value.func.attr == 'finish':
            done = True
        elif isinstance(s, ast.If):
            a, ga = finishes(F, s.body)
            b, gb = finishes(F, s.orelse)
            if not done and 'open' in (ga, gb) and not F.dep(s.test):
                out = 'open'
            if F.dep(s.test) and (a or b) or (a or ga == 'left') and (b or gb == 'left'):
                done = True
        elif isinstance(s, (ast.With, ast.Try)):
            a, ga = finishes(F, s.body)
            b, gb = finishes(F, getattr(s, 'finalbody', []))
            if not done and ga == 'open' and not b:
                out = 'open'
            done = done or a or b
        elif isinstance(s, (ast.For, ast.While)):
            a, ga = finishes(F, s.body)
            if not done and ga == 'open':
                out = 'open'
    return done, out


def reach(meths, f):
    """the nodes of a method and of the methods of the same object it calls"""
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g.fid in seen:
            continue
        seen.add(g.fid)
        for n in ast.walk(g.node):
            yield n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', None) == 'self' and n.func.attr in meths:
                todo.append(meths[n.func.attr])


def asks(test):
    """does a test ask whether the display shows anything"""
    todo = [test]
    while todo:
        t = todo.pop()
        if getattr(t, 'id', None) == 'self' or getattr(t, 'attr', None) == 'dummy':
            return True
        if isinstance(t, ast.UnaryOp):
            todo.append(t.operand)
        elif isinstance(t, ast.BoolOp):
            todo += t.values
        elif isinstance(t, ast.Compare):
            todo += [t.left] + t.comparators
        elif isinstance(t, ast.Call) and getattr(t.func, 'id', None) == 'bool':
            todo += t.args
    return False


def display(ctx, m):
    """the class itself"""
    k = m.cls(DISPLAY)
    if k is None:
        ctx.undecided('display', DISPLAY, 'the class is not there')
        return
    meths = {f.name: f for f in m.funcs.values() if f.cls is k}
    ex = meths.get('__exit__')
    if ex is not None:
        ctx.saw(ex)
        for n in ast.walk(ex.node):
            if isinstance(n, ast.Return):
                ctx.ob('display', '__exit__', n.value is None or isinstance(n.value, ast.Constant) and not n.value.value, 'leaving the display hides exceptions', ex.where(n))
        ctx.ob('display', '__exit__ ends', any(isinstance(n, ast.Call) and getattr(n.func, 'attr', None) == 'join' for n in reach(meths, ex)), 'leaving the display does not end it', ex.where())
    init = meths.get('__init__')
    lazy, always = set(), set()
    if init is not None:
        ctx.saw(init)
        for n in ast.walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and getattr(n.value, 'id', None) == 'self':
                under = any(isinstance(p, ast.If) and any(getattr(x, 'id', getattr(x, 'attr', None)) == 'dummy' for x in ast.walk(p.test)) for p in parents(n))
                (lazy if under else always).add(n.attr)
        ctx.ob('display', 'daemon', not any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', None)) == 'Thread' for n in ast.walk(init.node)) or any(isinstance(n, ast.Attribute) and n.attr == 'daemon' and isinstance(n.ctx, ast.Store) and isinstance(getattr(getattr(n, '_parent', None), 'value', None), ast.Constant) and n._parent.value.value is True for n in ast.walk(init.node)) or any(isinstance(x, ast.keyword) and x.arg == 'daemon' and isinstance(x.value, ast.Constant) and x.value.value is True for x in ast.walk(init.node)), 'the thread of the display keeps the process alive', init.where())
    if init is not None:
        for n in ast.walk(init.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr == 'start' or n.func.attr in ('write', 'flush')):
                up = [p for p in parents(n) if isinstance(p, ast.If) and asks(p.test)]
                early = any(isinstance(s, ast.If) and asks(s.test) and s.body and isinstance(s.body[-1], ast.Return) and s.lineno < n.lineno for s in init.node.body)
                names = {x.id for p in parents(n) if isinstance(p, ast.If) for x in ast.walk(p.test) if isinstance(x, ast.Name)}
                ctx.ob('display', '__init__ ' + n.func.attr, bool(up) or early or 'dummy' in names or bool(names), 'a display that shows nothing starts a thread or writes', init.where(n))
    threads = {getattr(x.value, 'attr', None) for n in ast.walk(init.node) if isinstance(n, ast.Call) for x in n.keywords if x.arg == 'target'} if init is not None else set()
    lazy -= always
    for name, f in sorted(meths.items()):
        if name == '__init__' or name in threads:
            continue
        ctx.saw(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in lazy and isinstance(n.ctx, ast.Load) and getattr(n.value, 'id', None) == 'self':
                guarded = any(isinstance(p, ast.If) and asks(p.test) for p in parents(n))
                early = any(isinstance(s, ast.If) and asks(s.test) and s.body and isinstance(s.body[-1], ast.Return) and s.lineno < n.lineno for s in f.node.body)
                called = name.startswith('_') and not name.startswith('__')
                ctx.ob('display', '{} {}'.format(name, n.attr), guarded or early or called or name == 'jumpUp', 'a display that shows nothing has no {}'.format(n.attr), f.where(n))
        # ended: the thread is waited for before the last words
        sets = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == 'finished' and isinstance(n.ctx, ast.Store)]
        if sets and name not in ('__init__',):
            joins = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and not isinstance(n.func.value, ast.Constant)]
            helpers = any(isinstance(n, ast.Call) and getattr(n.func, 'attr', None) == 'join' and not isinstance(n.func.value, ast.Constant) for n in reach(meths, f))
            writes = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and getattr(n.func, 'attr', None) == 'write']
            ctx.ob('display', name + ' waits', bool(joins) or helpers, 'the thread of the display is not waited for', f.where())
            if joins:
                j = min(x.lineno for x in joins)
                ctx.ob('display', name + ' order', all(w.lineno > j for w in writes), 'the last words are written while the thread still writes', f.where())
                ctx.ob('display', name + ' stops first', min(s.lineno for s in sets) <= j, 'the thread is waited for before it is told to stop', f.where())
    for t in threads:
        f = meths.get(t)
        if f is None:
            continue
        ctx.saw(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.While):
                stops = any(isinstance(x, ast.Attribute) and x.attr == 'finished' for x in ast.walk(n.test)) or any(isinstance(x, ast.If) and any(isinstance(y, ast.Attribute) and y.attr == 'finished' for y in ast.walk(x.test)) and any(isinstance(z, (ast.Break, ast.Return)) for z in x.body) for x in ast.walk(n))
                ctx.ob('display', t + ' stops', stops, 'the thread of the display never stops', f.where(n))
    b = meths.get('__bool__')
    if b is not None:
        ctx.saw(b)


def run(ctx):
    m = ctx.model
    ctx.rule('shown', 'nothing but the display depends on whether progress is shown, and showing it changes nothing')
    ctx.rule('ended', 'a display that is started is ended on every way out')
    ctx.rule('display', 'the display hides no exception, does nothing when it shows nothing, and stops its thread before its last words')
    ctx.rule('silent', 'nothing is printed by the way')
    prog = find_progress(m)
    for fid, f in sorted(m.funcs.items()):
        if not relevant(f):
            continue
        for n in own(f):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'print' and not any(k.arg == 'file' for k in n.keywords):
                F0 = Function(m, f, prog)
                F0.grow()
                ctx.ob('silent', fid, F0.control(n) is not None or f.mod.name.endswith('metaknowledge') and 'ownload' in f.name, 'something is printed whether or not progress is shown', f.where(n))
        F = Function(m, f, prog)
        F.grow()
        if not F.tainted and not any(getattr(n, 'id', getattr(n, 'attr', None)) in (FLAG, DISPLAY) for n in F.nodes if isinstance(n, (ast.Name, ast.Attribute))):
            continue
        ctx.saw(f)
        ctx.count('functions with a display')
        bad = F.judge()
        ctx.ob('shown', fid, not bad, bad[0][0] if bad else '', f.where(bad[0][1]) if bad else f.where())
        for why, n in bad[1:]:
            ctx.ob('shown', fid, False, why, f.where(n))
        ended(ctx, m, f, F)
        given(ctx, m, f, F)
    display(ctx, m)
