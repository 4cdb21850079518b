"""Constant folding: what module level tables hold and what a pure table lookup
answers, by propagating constants through the syntax tree (conditional constant
propagation).  Anything outside the folded subset is unknown, never guessed."""
import ast
import operator

from .model import Cls, Func

LIMIT = 400000
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
       ast.BitXor: operator.xor, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
METHODS = {
    str: {'upper', 'lower', 'casefold', 'title', 'capitalize', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'join', 'startswith', 'endswith', 'replace', 'format', 'isdigit',
          'isalpha', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'partition', 'rpartition', 'find', 'count', 'index', 'splitlines', 'zfill', 'isalnum', 'isspace', 'removeprefix', 'removesuffix'},
    list: {'append', 'extend', 'insert', 'index', 'count', 'copy', 'pop', 'remove', 'sort', 'reverse', 'clear'},
    tuple: {'index', 'count'},
    dict: {'items', 'keys', 'values', 'get', 'copy', 'update', 'setdefault', 'pop', 'popitem', 'clear'},
    set: {'add', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'discard', 'remove', 'issubset', 'issuperset', 'isdisjoint', 'clear'},
    frozenset: {'union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'issubset', 'issuperset', 'isdisjoint'},
}
BUILTINS = {'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'frozenset': frozenset, 'str': str, 'int': int, 'bool': bool, 'float': float, 'len': len, 'sorted': sorted,
            'zip': lambda *a: list(zip(*a)), 'enumerate': lambda *a: list(enumerate(*a)), 'range': range, 'reversed': lambda x: list(reversed(x)), 'min': min, 'max': max,
            'sum': sum, 'any': any, 'all': all, 'iter': lambda x: list(x), 'repr': repr, 'abs': abs}
OUTSIDE = {'collections.OrderedDict': dict, 'OrderedDict': dict}
PLAIN = (str, int, float, bool, type(None), list, tuple, dict, set, frozenset, range)


class Unknown(Exception):
    """not a constant"""


class Raised(Exception):
    """the folded code raises"""

    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Lam:
    """a function value: a lambda or a def"""

    def __init__(self, node, mod, env, name):
        self.node, self.mod, self.env, self.name = node, mod, env, name

    def __eq__(self, o):
        return isinstance(o, Lam) and o.node is self.node

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return '<{}>'.format(self.name)


class Opaque:
    """an object nothing is known about (a record); applied functions are remembered"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<{}>'.format(self.what)


class Applied:
    """the result of handing an opaque object to a function value"""

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class Attr:
    """attribute or method call of an opaque object"""

    def __init__(self, of, name, called=False):
        self.of, self.name, self.called = of, name, called


class Meth:
    def __init__(self, of, name):
        self.of, self.name = of, name


class Folder:
    def __init__(self, model):
        self.m = model
        self.mods = {}
        self.steps = 0
        self.busy = set()

    # ---- modules
    def module(self, mod):
        if mod.name in self.mods:
            return self.mods[mod.name]
        env = self.mods[mod.name] = {}
        self.busy.add(mod.name)
        self.stmts_lenient(mod.tree.body, env, mod)
        self.busy.discard(mod.name)
        return env

    def stmts_lenient(self, stmts, env, mod):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If):
                try:
                    t = self.ev(s.test, env, mod)
                except (Unknown, Raised):
                    for b in names_stored(s):
                        env[b] = Unknown
                    continue
                self.stmts_lenient(s.body if t else s.orelse, env, mod)
                continue
            try:
                self.stmt(s, env, mod)
            except (Unknown, Raised, Ret, Brk, Cont):
                for b in names_stored(s):
                    env[b] = Unknown

    def glob(self, mod, name):
        """value of a module level name"""
        env = self.module(mod)
        if name in env:
            if env[name] is Unknown:
                raise Unknown(name)
            return env[name]
        r = self.m.resolve(mod, name)
        return self.value_of(r, name)

    def value_of(self, r, name):
        if r is None:
            if name in BUILTINS:
                return BUILTINS[name]
            raise Unknown(name)
        if r[0] == 'f':
            return Lam(r[1].node, r[1].mod, None, r[1].node.name)
        if r[0] == 'g':
            return self.glob(self.m.mods[r[1]], r[2])
        if r[0] == 'x' and r[1] in OUTSIDE:
            return OUTSIDE[r[1]]
        if r[0] == 'x' and r[1] in BUILTINS:
            return BUILTINS[r[1]]
        if r[0] == 'm':
            return r
        raise Unknown(name)

    # ---- functions
    def call(self, fn, args, kw=None):
        node = fn.node
        a = node.args
        env = dict(fn.env or {})
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw or {})
        if a.vararg or a.kwarg or len(args) > len(names):
            raise Unknown('arguments')
        for n, v in zip(names, args):
            env[n] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env or (n in names[len(args):] and n not in kw):
                env[n] = self.ev(d, {}, fn.mod)
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if n not in kw:
                if d is None:
                    raise Raised('TypeError')
                env[n] = self.ev(d, {}, fn.mod)
        env.update(kw)
        for n in names:
            if n not in env:
                raise Raised('TypeError')
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env, fn.mod)
        try:
            for s in node.body:
                self.stmt(s, env, fn.mod)
        except Ret as r:
            return r.val
        return None

    # ---- statements
    def body(self, stmts, env, mod):
        for s in stmts:
            self.stmt(s, env, mod)

    def tick(self):
        self.steps += 1
        if self.steps > LIMIT:
            raise Unknown('too long')

    def stmt(self, s, env, mod):
        self.tick()
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.store(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(load(s.target), env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(old, (list, set, dict)) and isinstance(v, PLAIN):
                if isinstance(old, list) and isinstance(s.op, ast.Add):
                    old.extend(v)
                elif isinstance(old, (set, dict)) and isinstance(s.op, ast.BitOr):
                    old.update(v)
                else:
                    raise Unknown('augmented')
            else:
                self.store(s.target, self.op(s.op, old, v), env, mod)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, mod)
        elif isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, mod) if s.value is not None else None)
        elif isinstance(s, ast.If):
            self.body(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.seq(self.ev(s.iter, env, mod))
            else:
                it = iter(lambda: self.truth(self.ev(s.test, env, mod)), False)
            for x in it:
                self.tick()
                if isinstance(s, ast.For):
                    self.store(s.target, x, env, mod)
                try:
                    self.body(s.body, env, mod)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.body(s.orelse, env, mod)
        elif isinstance(s, ast.Try):
            try:
                try:
                    self.body(s.body, env, mod)
                except Raised as e:
                    for h in s.handlers:
                        if self.catches(h, e, mod):
                            env['*exc'] = e.name
                            if h.name:
                                env[h.name] = Opaque('exception')
                            self.body(h.body, env, mod)
                            break
                    else:
                        raise
                else:
                    self.body(s.orelse, env, mod)
            finally:
                self.body(s.finalbody, env, mod)
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise Raised(env.get('*exc', 'RuntimeError'))
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                raise Raised(e.id)
            if isinstance(e, ast.Attribute):
                raise Raised(e.attr)
            raise Unknown('raise')
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Lam(s, mod, env, s.name)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env, mod)):
                raise Raised('AssertionError')
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o, k = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
                    try:
                        del o[k]
                    except (KeyError, IndexError, TypeError) as e:
                        raise Raised(type(e).__name__)
                else:
                    raise Unknown('del')
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            pass
        else:
            raise Unknown(type(s).__name__)

    PARENTS = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'UnicodeDecodeError': ('ValueError', 'UnicodeError')}

    def catches(self, h, e, mod):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if n in (e.name, 'Exception', 'BaseException') or n in self.PARENTS.get(e.name, ()):
                return True
            r = self.m.resolve_expr(mod, t)
            if r and r[0] == 'k':
                for c in self.m.classes.values():
                    if c.name == e.name and self.m.is_subclass(c, r[1]):
                        return True
        return False

    def store(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(self.seq(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown('starred')
            if len(v) != len(t.elts):
                raise Raised('ValueError')
            for a, b in zip(t.elts, v):
                self.store(a, b, env, mod)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
            if not isinstance(o, (dict, list)):
                raise Unknown('store')
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise Raised(type(e).__name__)
        else:
            raise Unknown('store')

    # ---- expressions
    def truth(self, v):
        if isinstance(v, PLAIN):
            return bool(v)
        if isinstance(v, Lam):
            return True
        raise Unknown('truth')

    def seq(self, v):
        if isinstance(v, (str, list, tuple, dict, set, frozenset, range)):
            return list(v)
        if isinstance(v, (type({}.items()), type({}.keys()), type({}.values()))):
            return list(v)
        raise Unknown('not a sequence')

    def op(self, o, a, b):
        f = OPS.get(type(o))
        if f is None or not isinstance(a, PLAIN) or not isinstance(b, PLAIN):
            raise Unknown('operator')
        try:
            return f(a, b)
        except (TypeError, ValueError, ZeroDivisionError) as e:
            raise Raised(type(e).__name__)

    def ev(self, e, env, mod):
        self.tick()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                if env[e.id] is Unknown:
                    raise Unknown(e.id)
                return env[e.id]
            return self.glob(mod, e.id)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vals = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    vals += self.seq(self.ev(x.value, env, mod))
                else:
                    vals.append(self.ev(x, env, mod))
            return list(vals) if isinstance(e, ast.List) else tuple(vals) if isinstance(e, ast.Tuple) else set(vals)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env, mod))
                else:
                    d[self.ev(k, env, mod)] = self.ev(v, env, mod)
            return d
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self.comp(e, 0, dict(env), mod, out)
            if isinstance(e, ast.DictComp):
                return dict(out)
            return set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Lambda):
            return Lam(e, mod, env, '<lambda>')
        if isinstance(e, ast.BinOp):
            return self.op(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env, mod)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
                return -v
            raise Unknown('unary')
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, env, mod)
            for o, c in zip(e.ops, e.comparators):
                right = self.ev(c, env, mod)
                if not self.compare(o, left, right):
                    return False
                left = right
            return True
        if isinstance(e, ast.NamedExpr):
            v = env[e.target.id] = self.ev(e.value, env, mod)
            return v
        if isinstance(e, ast.JoinedStr):
            out = ''
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                else:
                    if p.conversion not in (-1,) or p.format_spec is not None:
                        raise Unknown('format')
                    v = self.ev(p.value, env, mod)
                    if not isinstance(v, PLAIN):
                        raise Unknown('format')
                    out += str(v)
            return out
        if isinstance(e, ast.Subscript):
            return self.item(self.ev(e.value, env, mod), e.slice, env, mod)
        if isinstance(e, ast.Attribute):
            return self.attr(e, env, mod)
        if isinstance(e, ast.Call):
            return self.calls(e, env, mod)
        raise Unknown(type(e).__name__)

    def compare(self, o, a, b):
        if isinstance(o, (ast.Is, ast.IsNot)):
            if not isinstance(a, PLAIN + (Lam,)) or not isinstance(b, PLAIN + (Lam,)):
                raise Unknown('is')
            same = a is b if (a is None or b is None or isinstance(a, (list, dict, set))) else a == b
            return same == isinstance(o, ast.Is)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unknown('compare')
        if isinstance(o, (ast.In, ast.NotIn)):
            if isinstance(b, (type({}.items()), type({}.keys()), type({}.values()))):
                b = list(b)
            if not isinstance(b, PLAIN):
                raise Unknown('in')
            try:
                r = a in b
            except TypeError:
                raise Raised('TypeError')
            return r == isinstance(o, ast.In)
        f = CMP.get(type(o))
        if f is None:
            raise Unknown('compare')
        try:
            return f(a, b)
        except TypeError:
            raise Raised('TypeError')

    def comp(self, e, i, env, mod, out):
        if i == len(e.generators):
            if isinstance(e, ast.DictComp):
                out.append((self.ev(e.key, env, mod), self.ev(e.value, env, mod)))
            else:
                out.append(self.ev(e.elt, env, mod))
            return
        g = e.generators[i]
        for x in self.seq(self.ev(g.iter, env, mod)):
            self.tick()
            self.store(g.target, x, env, mod)
            if all(self.truth(self.ev(c, env, mod)) for c in g.ifs):
                self.comp(e, i + 1, env, mod, out)

    def item(self, o, sl, env, mod):
        if isinstance(sl, ast.Slice):
            k = slice(*(self.ev(x, env, mod) if x is not None else None for x in (sl.lower, sl.upper, sl.step)))
        else:
            k = self.ev(sl, env, mod)
        if isinstance(o, Opaque):
            return Attr(o, ('[]', k))
        if not isinstance(o, (dict, list, tuple, str, range)):
            raise Unknown('subscript')
        try:
            return o[k]
        except (KeyError, IndexError, TypeError) as e:
            raise Raised(type(e).__name__)

    def attr(self, e, env, mod):
        try:
            o = self.ev(e.value, env, mod)
        except Unknown:
            r = self.m.resolve_expr(mod, e)
            if r is None or root_name(e) in env:
                raise
            return self.value_of(r, e.attr)
        if isinstance(o, tuple) and len(o) == 2 and o[0] == 'm':
            return self.value_of(self.m.attr_of(o, e.attr), e.attr)
        if isinstance(o, Lam):
            if e.attr in ('__name__', '__qualname__'):
                return o.name
            if e.attr == '__doc__':
                return ast.get_docstring(o.node, clean=False) if not isinstance(o.node, ast.Lambda) else None
            raise Unknown('attribute')
        if isinstance(o, Opaque):
            return Attr(o, e.attr)
        for t, names in METHODS.items():
            if isinstance(o, t) and e.attr in names:
                return Meth(o, e.attr)
        if isinstance(o, PLAIN):
            if not hasattr(o, e.attr):
                raise Raised('AttributeError')
        raise Unknown('attribute ' + e.attr)

    def calls(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args += self.seq(self.ev(x.value, env, mod))
            else:
                args.append(self.ev(x, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env, mod))
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        if isinstance(f, Lam):
            if any(isinstance(a, Opaque) for a in args):
                try:
                    return self.call(f, args, kw)
                except Unknown:
                    return Applied(f, args)
            return self.call(f, args, kw)
        if isinstance(f, Attr):
            return Attr(f.of, f.name, True)
        if isinstance(f, Meth):
            vals = list(args) + list(kw.values())
            try:
                if f.name == 'sort':
                    raise Unknown('sort')
                return getattr(f.of, f.name)(*[self.plain(a) for a in args], **kw) if vals is not None else None
            except (KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
                raise Raised(type(x).__name__)
        if f in BUILTINS.values() or f in OUTSIDE.values():
            if any(callable(v) and not isinstance(v, Lam) for v in kw.values()) or any(isinstance(v, (Lam, Opaque)) for v in list(kw.values())):
                raise Unknown('call')
            if any(isinstance(a, (Opaque, Attr, Applied)) for a in args):
                raise Unknown('call')
            try:
                return f(*[self.plain(a) for a in args], **kw)
            except (KeyError, IndexError, TypeError, ValueError) as x:
                raise Raised(type(x).__name__)
        raise Unknown('call')

    def plain(self, a):
        if isinstance(a, (type({}.items()), type({}.keys()), type({}.values()))):
            return list(a)
        return a


def load(t):
    return ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t


def root_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def names_stored(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r = n
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
    # a method called on a name may change it
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        r = root_name(s.value.func.value)
        if r:
            out.add(r)
    return out
