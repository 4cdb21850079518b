"""Definite assignment: is every local name bound where it is used, on every path?

A small path-sensitive dataflow analysis over the statements of one function.
A state is the set of local names that are unbound plus the outcomes of the
branch conditions taken so far (conditions over names that were not rebound
since correlate: `if splitByTag: d = {}` ... `if splitByTag: use(d)`)."""
import ast
import itertools

CAP = 160


class TooMany(Exception):
    pass


def key(e):
    return ast.dump(e)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class St:
    __slots__ = ('unb', 'conds', 'excl', 'alias')

    def __init__(self, unb=frozenset(), conds=None, excl=None, alias=None):
        self.unb, self.conds, self.excl, self.alias = unb, conds or {}, excl or {}, alias or {}

    def copy(self):
        return St(self.unb, dict(self.conds), dict(self.excl), self.alias)

    def bind(self, names):
        names = set(names)
        s = St(self.unb - names, self.conds, self.excl, self.alias)
        s.forget(names)
        return s

    def unbind(self, names):
        s = St(self.unb | set(names), self.conds, self.excl, self.alias)
        s.forget(names)
        return s

    def forget(self, names):
        names = set(names)
        for a, e in self.alias.items():
            # the flag keeps what was known of the condition it was made from
            if a not in names and names_in(e) & names:
                pos, e2 = plain(e)
                old = self.conds.get(key(e2))
                if old is not None:
                    self.conds = {**self.conds, key(ast.Name(a, ast.Load())): (old[0] == pos, frozenset([a]))}
        self.conds = {k: v for k, v in self.conds.items() if not (v[1] & names)}
        self.excl = {k: v for k, v in self.excl.items() if k not in names}
        if self.alias:
            self.alias = {k: v for k, v in self.alias.items() if k not in names and not (names_in(v) & names)}


FLIP = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}


def plain(e):
    pos = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        pos, e = not pos, e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in FLIP:
        pos, e = not pos, ast.Compare(e.left, [FLIP[type(e.ops[0])]()], e.comparators)
    return pos, e


def const_of(e):
    if isinstance(e, ast.Constant):
        return True, e.value
    return False, None


class Flow:
    def __init__(self):
        self.normal, self.brk, self.cont, self.ret = [], [], [], []


class Checker:
    def __init__(self, node, on_use, noreturn=lambda call: False, total=lambda loop: False, edges=True, only=None, notnone=lambda call: False):
        self.notnone = notnone
        self.node, self.on_use, self.noreturn, self.only = node, on_use, noreturn, only
        self.total, self.edges = total, edges
        self.vocab = frozenset()
        self.globals, self.nonlocals = set(), set()
        self.locals = self.local_names(node)
        self.exc = []          # stack of lists collecting the states in which an exception may start
        self.steps = 0

    def local_names(self, node):
        out = set()
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # only walrus targets leak
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out.add((x.asname or x.name).split('.')[0])
            stack.extend(ast.iter_child_nodes(n))
        self.params = params
        return (out | params) - self.globals - self.nonlocals

    def run(self):
        track = self.locals - self.params
        if self.only is not None:
            self.vocab = relevant(self.node, self.only)
            track = track & {self.only}
        start = St(frozenset(track))
        self.block(self.node.body, [start])

    # ------------------------------------------------------------------ expressions
    def use(self, e, s):
        """names read by an expression (in evaluation contexts of this function)"""
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in s.unb:
                    self.on_use(n)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                inner = [n.generators[0].iter]
                self.use(inner[0], s)
                rest = [g.iter for g in n.generators[1:]] + [c for g in n.generators for c in g.ifs]
                rest += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                s2 = St(s.unb - bound, s.conds, s.excl, s.alias)
                for r in rest:
                    self.use(r, s2)
            elif isinstance(n, (ast.Lambda, ast.FunctionDef)):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    self.use(d, s)
            elif isinstance(n, ast.IfExp):
                self.use(n.test, s)
                for t in self.test(n.test, s, True):
                    self.use(n.body, t)
                for t in self.test(n.test, s, False):
                    self.use(n.orelse, t)
            elif isinstance(n, ast.BoolOp):
                cur = [s]
                for v in n.values:
                    nxt = []
                    for t in cur:
                        self.use(v, t)
                        nxt += self.test(v, t, isinstance(n.op, ast.And))
                    cur = nxt
            else:
                stack.extend(ast.iter_child_nodes(n))

    def walrus(self, e):
        return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}

    def test(self, e, s, val):
        """states in which e is val"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.test(e.operand, s, not val)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == val
            if conj:
                cur = [s]
                for v in e.values:
                    cur = [t for c in cur for t in self.test(v, c, val)]
                return cur
            out, cur = [], [s]
            for v in e.values:
                out += [t for c in cur for t in self.test(v, c, val)]
                cur = [t for c in cur for t in self.test(v, c, not val)]
            return out
        w = self.walrus(e)
        if w:
            s = s.bind(w)
        if isinstance(e, ast.Constant):
            return [s] if bool(e.value) == val else []
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts, left = [], e.left
            for op, right in zip(e.ops, e.comparators):
                parts.append(ast.Compare(left, [op], [right]))
                left = right
            return self.test(ast.BoolOp(ast.And(), parts), s, val)
        if isinstance(e, ast.Name) and e.id in s.alias:
            # a condition kept in a variable
            return self.test(s.alias[e.id], s, val)
        neg = False
        if isinstance(e, ast.Compare):
            op = e.ops[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}.get(type(op))
            if flip:
                e = ast.Compare(e.left, [flip()], e.comparators)
                neg = True
        want = val != neg
        if any(isinstance(n, (ast.Call, ast.Await)) and not pure(n) for n in ast.walk(e)):
            return [s]
        if self.only is None or not names_in(e) & self.vocab:
            return [s]
        k = key(e)
        old = s.conds.get(k)
        if old is not None:
            return [s] if old[0] == want else []
        # x == const / x is const / x in (consts)
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name):
            n, op, r = e.left.id, e.ops[0], e.comparators[0]
            dom = None
            if isinstance(op, (ast.Eq, ast.Is)) and isinstance(r, ast.Constant):
                dom = [repr(r.value)]
            elif isinstance(op, ast.In) and isinstance(r, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
                dom = [repr(x.value) for x in r.elts]
            if dom is not None:
                allow, deny = s.excl.get(n, (None, frozenset()))
                if want:
                    allow = frozenset(dom) if allow is None else allow & frozenset(dom)
                else:
                    deny = deny | frozenset(dom)
                if allow is not None and not (allow - deny):
                    return []
                t = s.copy()
                t.excl[n] = (allow, deny)
                t.conds[k] = (want, frozenset(names_in(e)))
                return [t]
        # a flag with a known constant value
        if isinstance(e, ast.Name):
            allow, deny = s.excl.get(e.id, (None, frozenset()))
            if allow is not None:
                vals = {truth(v) for v in allow - deny}
                if None not in vals and want not in vals:
                    return []
            elif want and deny >= {'None', 'True', 'False'}:
                pass
        t = s.copy()
        t.conds[k] = (want, frozenset(names_in(e)))
        return [t]

    # ------------------------------------------------------------------ statements
    def merge(self, states):
        out = {}
        for s in states:
            k = s.unb
            if k in out:
                out[k].append(s)
            else:
                out[k] = [s]
        res = []
        for k, ss in out.items():
            uniq = {}
            for s in ss:
                uniq.setdefault((frozenset((a, v[0]) for a, v in s.conds.items()), frozenset(s.excl.items())), s)
            ss = list(uniq.values())
            changed = True
            while changed and len(ss) > 1:
                # join pairs differing in one condition only
                changed = False
                for a, b in itertools.combinations(ss, 2):
                    if a.excl == b.excl and a.conds.keys() == b.conds.keys():
                        d = [k2 for k2 in a.conds if a.conds[k2][0] != b.conds[k2][0]]
                        if len(d) == 1:
                            c = a.copy()
                            del c.conds[d[0]]
                            ss = [x for x in ss if x is not a and x is not b] + [c]
                            changed = True
                            break
                if len(ss) > 40:
                    break
            res += ss
        if len(res) > CAP:
            raise TooMany()
        return res

    def block(self, stmts, states):
        fl = Flow()
        for st in stmts:
            if not states:
                break
            r = self.stmt(st, states)
            fl.brk += r.brk
            fl.cont += r.cont
            fl.ret += r.ret
            states = self.merge(r.normal)
        fl.normal = states
        return fl

    def may_raise(self, n):
        return any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Yield,
                                  ast.For, ast.With, ast.Compare, ast.Delete, ast.Starred)) for x in ast.walk(n)) or isinstance(n, ast.Assign) and isinstance(
                                      n.targets[0], (ast.Tuple, ast.List))

    def throw(self, states):
        if self.exc and self.edges:
            self.exc[-1] += states

    def targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} & self.locals

    def stmt(self, n, states):
        self.steps += 1
        if self.steps > 30000:
            raise TooMany()
        fl = Flow()
        if isinstance(n, ast.If):
            for s in states:
                self.use(n.test, s)
            if self.may_raise(n.test):
                self.throw(states)
            a = [t for s in states for t in self.test(n.test, s, True)]
            b = [t for s in states for t in self.test(n.test, s, False)]
            ra = self.block(n.body, self.merge(a))
            rb = self.block(n.orelse, self.merge(b))
            for k in ('normal', 'brk', 'cont', 'ret'):
                setattr(fl, k, getattr(ra, k) + getattr(rb, k))
            return fl
        if isinstance(n, (ast.For, ast.While)):
            return self.loop(n, states)
        if isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            return self.try_(n, states)
        if isinstance(n, ast.With):
            self.throw(states)
            cur = states
            for item in n.items:
                for s in cur:
                    self.use(item.context_expr, s)
                if item.optional_vars is not None:
                    cur = [s.bind(self.targets(item.optional_vars)) for s in cur]
            return self.block(n.body, cur)
        if self.may_raise(n):
            self.throw(states)
        if isinstance(n, ast.Return):
            for s in states:
                if n.value is not None:
                    self.use(n.value, s)
            fl.ret = states
            return fl
        if isinstance(n, ast.Raise):
            for s in states:
                for x in (n.exc, n.cause):
                    if x is not None:
                        self.use(x, s)
            return fl
        if isinstance(n, ast.Break):
            fl.brk = states
            return fl
        if isinstance(n, ast.Continue):
            fl.cont = states
            return fl
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for s in states:
                self.use(n, s) if isinstance(n, ast.FunctionDef) else None
            fl.normal = [s.bind({n.name}) for s in states]
            return fl
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            fl.normal = [s.bind({(x.asname or x.name).split('.')[0] for x in n.names}) for s in states]
            return fl
        if isinstance(n, ast.Delete):
            for s in states:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in s.unb:
                            self.on_use(t)
                    else:
                        self.use(t, s)
            names = {t.id for t in n.targets if isinstance(t, ast.Name)} & self.locals
            fl.normal = [s.unbind(names) for s in states] if names else states
            return fl
        if isinstance(n, ast.Assign):
            for s in states:
                self.use(n.value, s)
                w = self.walrus(n.value)
                bound = set(w)
                for t in n.targets:
                    self.use(t, s)
                    bound |= self.targets(t)
                s2 = s.bind(bound)
                ok, v = const_of(n.value)
                if ok and self.only is not None:
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id in self.vocab:
                            s2 = s2.copy()
                            s2.excl[t.id] = (frozenset([repr(v)]), frozenset())
                elif self.only is not None and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.vocab and condition(n.value):
                    if n.targets[0].id not in names_in(n.value):
                        s2 = s2.copy()
                        s2.alias = {**s2.alias, n.targets[0].id: n.value}
                elif self.only is not None and isinstance(n.value, ast.Call) and self.notnone(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id in self.vocab:
                            s2 = s2.copy()
                            s2.excl[t.id] = (None, frozenset(['None']))
                fl.normal.append(s2)
            return fl
        if isinstance(n, ast.AugAssign):
            for s in states:
                self.use(n.value, s)
                if isinstance(n.target, ast.Name):
                    if n.target.id in s.unb:
                        self.on_use(n.target)
                else:
                    self.use(n.target, s)
                fl.normal.append(s.bind(self.targets(n.target)))
            return fl
        if isinstance(n, ast.AnnAssign):
            for s in states:
                if n.value is not None:
                    self.use(n.value, s)
                    s = s.bind(self.targets(n.target))
                fl.normal.append(s)
            return fl
        if isinstance(n, ast.Assert):
            for s in states:
                self.use(n.test, s)
                fl.normal += self.test(n.test, s, True)
            return fl
        if isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal)):
            fl.normal = states
            return fl
        # expression statements and anything else
        for s in states:
            self.use(n, s)
            w = self.walrus(n)
            fl.normal.append(s.bind(w) if w else s)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.noreturn(n.value):
            fl.normal = []
        return fl

    def loop(self, n, states):
        fl = Flow()
        isfor = isinstance(n, ast.For)
        bound = self.targets(n.target) if isfor else set()
        if isfor:
            for s in states:
                self.use(n.iter, s)
        self.throw(states)
        assigned = {x.id for st in n.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | bound
        entry = list(states)
        brk = []
        seen = set()
        exits = [] if not isfor else list(states)
        infinite = not isfor and isinstance(n.test, ast.Constant) and bool(n.test.value)
        work = entry
        for rnd in range(6):
            new = []
            for s in work:
                k = (s.unb, frozenset((a, v[0]) for a, v in s.conds.items()), frozenset(s.excl.items()))
                if k not in seen:
                    seen.add(k)
                    new.append(s)
            if not new:
                break
            if isfor:
                heads = [s.bind(bound) for s in new]
                for s in new:
                    self.use(n.target, s)
            else:
                for s in new:
                    self.use(n.test, s)
                heads = [t for s in new for t in self.test(n.test, s, True)]
                exits += [t for s in new for t in self.test(n.test, s, False)]
            r = self.block(n.body, self.merge(heads))
            brk += r.brk
            fl.ret += r.ret
            work = self.merge(r.normal + r.cont)
            if rnd >= 1:
                # from the second round on: what holds in an arbitrary iteration
                g = []
                for s in work:
                    t = s.copy()
                    t.forget(assigned)
                    g.append(t)
                work = self.merge(g)
            if isfor:
                exits += work
            self.throw(work)
        if infinite or isfor and self.total(n):
            exits = []
        exits = self.merge(exits)
        if n.orelse:
            r = self.block(n.orelse, exits)
            fl.brk += r.brk
            fl.cont += r.cont
            fl.ret += r.ret
            exits = r.normal
        fl.normal = self.merge(exits + brk)
        return fl

    def try_(self, n, states):
        fl = Flow()
        self.exc.append([])
        body = self.block(n.body, states)
        thrown = self.merge(self.exc.pop() + ([] if self.edges else body.normal + body.ret + body.brk + body.cont))
        if self.exc and not any(h.type is None for h in n.handlers):
            self.exc[-1] += thrown
        inner_ret = list(body.ret)
        normal = body.normal
        brk, cont = list(body.brk), list(body.cont)
        if n.finalbody:
            self.exc.append([])
        if n.orelse:
            r = self.block(n.orelse, normal)
            normal = r.normal
            brk += r.brk
            cont += r.cont
            inner_ret += r.ret
        for h in n.handlers:
            hs = thrown
            if h.type is not None:
                for s in hs:
                    self.use(h.type, s)
            if h.name:
                hs = [s.bind({h.name}) for s in hs]
            r = self.block(h.body, self.merge(hs))
            out = [s.unbind({h.name}) for s in r.normal] if h.name else r.normal
            normal = normal + out
            brk += r.brk
            cont += r.cont
            inner_ret += r.ret
        normal = self.merge(normal)
        if n.finalbody:
            late = self.merge(self.exc.pop())
            # the finally body also runs while an exception or a return passes through
            through = self.merge(thrown + late + inner_ret)
            self.block(n.finalbody, through)
            r = self.block(n.finalbody, normal)
            fl.normal = r.normal
            fl.brk = self.block(n.finalbody, self.merge(brk)).normal if brk else []
            fl.cont = self.block(n.finalbody, self.merge(cont)).normal if cont else []
            fl.ret = inner_ret + r.ret
            if self.exc:
                self.exc[-1] += late
            return fl
        fl.normal, fl.brk, fl.cont, fl.ret = normal, brk, cont, inner_ret
        return fl


def truth(r):
    try:
        return bool(ast.literal_eval(r))
    except (ValueError, SyntaxError):
        return None


PURE = {'isinstance', 'len', 'hasattr', 'callable', 'issubclass', 'type', 'bool', 'str', 'int'}


def pure(c):
    return isinstance(c.func, ast.Name) and c.func.id in PURE or isinstance(c.func, ast.Attribute) and c.func.attr in (
        'startswith', 'endswith', 'lower', 'upper', 'isfile', 'isdir', 'exists')


def condition(e):
    """an expression worth remembering as the meaning of a flag"""
    if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    return isinstance(e, (ast.Name, ast.Attribute)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in PURE


JUMP = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def relevant(node, name):
    """names occurring in the branch conditions around the uses and assignments of `name`"""
    out = set()

    def left(n):
        """tests of branches that are left by a jump"""
        if not isinstance(n, ast.If):
            return []
        r = []
        if isinstance(n.body[-1], JUMP) or n.orelse and isinstance(n.orelse[-1], JUMP):
            r.append(n.test)
        for b in (n.body, n.orelse):
            if b:
                x = left(b[-1])
                r += [n.test] + x if x else []
        return r

    def walk(n, tests):
        for k, v in ast.iter_fields(n):
            cs = [x for x in v if isinstance(x, ast.AST)] if isinstance(v, list) else [v] if isinstance(v, ast.AST) else []
            before = []
            for c in cs:
                t = tests + before
                if isinstance(n, (ast.If, ast.While, ast.IfExp)) and c is not n.test:
                    t = t + [n.test]
                if isinstance(c, ast.Name) and c.id == name or isinstance(c, ast.ExceptHandler) and c.name == name:
                    for x in t:
                        out.update(names_in(x))
                walk(c, t)
                before = before + left(c)
    walk(node, [])
    defs = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and condition(n.value):
            defs.setdefault(n.targets[0].id, set()).update(names_in(n.value))
    todo = list(out)
    while todo:
        for x in defs.get(todo.pop(), ()):
            if x not in out:
                out.add(x)
                todo.append(x)
    return frozenset(out)


def check(node, noreturn=lambda c: False, total=lambda loop: False, edges=True, only=None, notnone=lambda c: False):
    """({(name, line, col): Name node} read while possibly unbound, names given up on)"""
    gave, hits = set(), {}
    if only is None:
        first = {}
        c = Checker(node, lambda n: first.setdefault(n.id, n), noreturn, total, edges)
        try:
            c.run()
        except TooMany:
            first = {n: None for n in c.locals - c.params}
        only = first
    for name in sorted(only):
        c = Checker(node, lambda n: hits.setdefault((n.id, n.lineno, n.col_offset), n), noreturn, total, edges, only=name, notnone=notnone)
        try:
            c.run()
        except TooMany:
            gave.add(name)
    return hits, gave
