"""C14: no number is divided by a count that may be nought."""
import ast

COUNTS = ('len', 'sum')
SAME = ('float', 'int', 'abs', 'round', 'sqrt', 'Fraction', 'Decimal')
CATCH = ('ZeroDivisionError', 'ArithmeticError', 'Exception', 'BaseException')


def stores(f):
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(n.value)
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            out.setdefault(x.id, []).append(None)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            if isinstance(n.target, ast.Name):
                out.setdefault(n.target.id, []).append(n.value if not isinstance(n, ast.AugAssign) else n)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(None)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(None)
    return out


def params(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def nought(f, e, st, seen=()):
    """the value is a count that is nought when there is nothing to count"""
    if isinstance(e, ast.Constant):
        return e.value == 0 and not isinstance(e.value, bool) and isinstance(e.value, (int, float))
    if isinstance(e, ast.Call):
        name = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
        if name in COUNTS and isinstance(e.func, ast.Name) and e.args:
            x = e.args[0]
            if isinstance(x, ast.Name) and x.id in params(f) and x.id != 'self' and x.id not in st:
                return False        # who calls it knows what it hands over
            if isinstance(x, (ast.List, ast.Tuple, ast.Set)) and name == 'len':
                return False
            if isinstance(x, (ast.List, ast.Tuple)):
                return all(nought(f, y, st, seen) for y in x.elts)
            return True
        if name == 'count' and isinstance(e.func, ast.Attribute) and len(e.args) == 1:
            return True
        return name in SAME and bool(e.args) and nought(f, e.args[0], st, seen)
    if isinstance(e, ast.Name):
        if e.id in seen or e.id not in st or e.id in params(f):
            return False
        vals = st[e.id]
        return all(v is not None and (isinstance(v, ast.AugAssign) and isinstance(v.op, ast.Add) or not isinstance(v, ast.AugAssign) and nought(f, v, st, seen + (e.id,))) for v in vals)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return nought(f, e.left, st, seen) and nought(f, e.right, st, seen)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return nought(f, e.left, st, seen) or nought(f, e.right, st, seen)
    return False


def constant(e):
    return isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('range', 'enumerate', 'zip') and bool(e.args) and constant(e.args[0])


def about(f, e, st):
    """names the divisor is made from"""
    names, todo = set(), [e]
    while todo:
        x = todo.pop()
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id not in names and y.id not in COUNTS + SAME + ('math', 'np', 'numpy'):
                names.add(y.id)
                todo += [v if not isinstance(v, ast.AugAssign) else v.value for v in st.get(y.id, []) if v is not None]
    return names


def summed(e, st):
    """the collection whose sum the divisor is: going through it does not make the sum positive"""
    while isinstance(e, ast.Name) and len(st.get(e.id, [])) == 1 and isinstance(st[e.id][0], ast.AST):
        e = st[e.id][0]
    if isinstance(e, ast.Call) and getattr(e.func, 'id', '') == 'sum' and e.args:
        return ast.dump(e.args[0])
    return None


def safe(f, n, divisor, st):
    names = about(f, divisor, st)
    total = summed(divisor, st)
    c, p = n, n._parent
    while c is not f.node and p is not None:
        if isinstance(p, (ast.For, ast.AsyncFor)) and c is not p.iter and not constant(p.iter) and ast.dump(p.iter) != total:
            return True
        if isinstance(p, ast.While) and not isinstance(p.test, ast.Constant):
            return True
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and c not in p.generators and any(not constant(g.iter) and ast.dump(g.iter) != total for g in p.generators):
            return True
        if isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is not f.node:
            return True
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                if h.type is None or any(getattr(x, 'id', getattr(x, 'attr', '')) in CATCH for x in ast.walk(h.type)):
                    return True
        c, p = p, getattr(p, '_parent', None)
    local = {x for x in names if x in st or x in params(f)}
    for x in ast.walk(f.node):
        test = x.test if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)) else x.values[0] if isinstance(x, ast.BoolOp) else None
        if test is not None and x.lineno <= n.lineno + 1:
            asked = {y.id for y in ast.walk(test) if isinstance(y, ast.Name)}
            for v in list(asked):       # a condition worked out before
                for w in st.get(v, []):
                    if isinstance(w, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
                        asked |= {y.id for y in ast.walk(w) if isinstance(y, ast.Name)}
            if local & asked:
                return True
    return False


def handed(f, d, st):
    """the divisor counts something the function was given, not something it gathered"""
    roots = {y.id for y in ast.walk(d) if isinstance(y, ast.Name)} - set(COUNTS + SAME + ('math', 'np', 'numpy'))
    return not (roots & set(st))


def called(ctx, f):
    """some function of the package, who may know better, calls it"""
    if f.parent is not None:
        return True
    for g in ctx.model.funcs.values():
        for n in ast.walk(g.node):
            if g is not f and isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == f.name:
                p = n
                while p is not None and p is not g.node:
                    if isinstance(p, (ast.For, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) or f.name.startswith('_'):
                        return True
                    p = getattr(p, '_parent', None)
    return False


def check(ctx, f):
    if isinstance(f.node, ast.Lambda):
        return
    st = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.JoinedStr) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
                continue
            d = n.right
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            d = n.value
        else:
            continue
        p = n
        while p is not f.node and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
            p = p._parent
        if p is not f.node:
            continue
        if st is None:
            st = stores(f)
        ctx.count('divisions')
        if nought(f, d, st) and not (handed(f, d, st) and called(ctx, f)):
            ctx.ob('divided', '{} by {}'.format(f.fid, ast.unparse(d)), safe(f, n, d, st), 'divides by {}, which is 0 when there is nothing to count'.format(ast.unparse(d)), f.where(n))
