"""C01, C02, C20: small facts about how a collection or network is put together."""
import ast

from .kept import exclusive


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def up(n, top):
    p = getattr(n, '_parent', None)
    while p is not None and p is not top:
        yield p
        p = getattr(p, '_parent', None)


def errors_of(f):
    """error name -> argument of the parser it came from"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.value.args) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 2 \
                and all(isinstance(x, ast.Name) for x in n.targets[0].elts):
            out.setdefault(n.targets[0].elts[1].id, []).append((n, n.value.args[0]))
    return out


def same_file(f, a, b):
    if ast.dump(a) == ast.dump(b):
        return True
    na, nb = names(a), names(b)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            t = {x.id for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
            v = names(n.value)
            if t & na and v & nb or t & nb and v & na:
                return True
        if isinstance(n, (ast.For, ast.comprehension)):
            t, v = names(n.target), names(n.iter)
            if t & na and t & nb:
                return True
    return bool(na & nb)


def badness(ctx, f, where):
    errs = errors_of(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            loops = [p for p in up(n, f.node) if isinstance(p, (ast.For, ast.While)) and not fixed(f, p)]
            if isinstance(t, ast.Name) and t.id == 'bad' and loops:
                back = isinstance(n.value, ast.Constant) and n.value.value in (False, None) or names(n.value) & set(errs) and not names(n.value) - set(errs)
                if back and not any(isinstance(p, ast.If) and 'bad' in names(p.test) for p in up(n, f.node)):
                    ctx.ob('collection-contained', f.fid + ' stays bad', False, 'a later file decides whether the collection is bad', where(f, n))
            if isinstance(t, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in errs:
                mine = [a for s, a in errs[n.value.id] if s.lineno < n.lineno and not exclusive(s, n, f)]
                if mine:
                    a = mine[-1]
                    ctx.ob('collection-contained', f.fid + ' error under the file', any(same_file(f, t.slice, x) for x in mine), 'the error of {} is listed under {}'.format(ast.unparse(a), ast.unparse(t.slice)), where(f, n))


def fixed(f, loop):
    """the loop over the registered kinds, left after the first that fits"""
    return isinstance(loop, ast.For) and (isinstance(loop.target, ast.Tuple) or 'rocessors' in ast.unparse(loop.iter))


def overlaps(ctx, f, rule):
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.For) and isinstance(n.target, ast.Name)):
            continue
        v = n.target.id
        # noted as what it is
        if any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'isinstance' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == v for b in n.body for x in ast.walk(b)):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'add' and len(x.args) == 1 and isinstance(x.args[0], ast.Constant):
                        ctx.ob(rule, f.fid + ' type of an element', False, 'every element is noted as a {}'.format(x.args[0].value), f.where(x))
        ups = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and isinstance(x.func.value, ast.Name) and x.func.value.id == v
               and len(x.args) == 1 and isinstance(x.args[0], ast.Subscript) and isinstance(x.args[0].value, ast.Name) and v in names(x.args[0].slice)]
        for x in ups:
            d = x.args[0].value.id
            ctx.count('elements merged with ones of the same ID')
            stop = [y for b in n.body for y in ast.walk(b) if isinstance(y, (ast.Break, ast.Return))]
            ctx.ob(rule, f.fid + ' all merged', not stop, 'only the first of those that were read before is brought up to date', f.where(n))
            for p in up(x, n):
                if isinstance(p, ast.If) and isinstance(p.test, ast.BoolOp) and isinstance(p.test.op, ast.And) and x in list(ast.walk(ast.Module(p.body, []))):
                    extra = [q for q in p.test.values if d not in names(q)]
                    ctx.ob(rule, f.fid + ' merged whatever they are', not extra, 'what was read is only merged if {}'.format(ast.unparse(extra[0]) if extra else ''), f.where(p))
            for y in ast.walk(f.node):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d for t in y.targets) and isinstance(y.value, ast.Dict) and y.value.keys and d not in names(y.value):
                    if any(isinstance(p, ast.For) and names(p.target) & names(y.value) for p in up(y, f.node)):
                        ctx.ob(rule, f.fid + ' all gathered', False, 'only the last of those that were read before is brought up to date', f.where(y))


def counted(ctx, f, rule):
    """what is counted does not decide what is there"""
    a = f.node.args
    flags = {x.arg for x in a.args + a.kwonlyargs} & {'count', 'nodeCount', 'weighted', 'edgeWeight'}
    if not flags:
        return
    for n in ast.walk(f.node):
        if not isinstance(n, ast.If) or not flags & names(n.test):
            continue
        for op in ('add_node', 'add_edge'):
            has = lambda body: any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (op, op + 's', op + 's_from') for b in body for x in ast.walk(b))
            if has(n.body) and not has(n.orelse) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                sib = [y for y in ast.walk(f.node) if isinstance(y, ast.If) and y is not n and any(isinstance(z, ast.UnaryOp) and isinstance(z.op, ast.Not) and flags & names(z) for z in ast.walk(y.test)) and has(y.body)]
                after = [y for y in ast.walk(f.node) if isinstance(y, ast.If) and y is not n and y._parent is n._parent and y.lineno > n.lineno and has([y])]
                if not sib and not after:
                    ctx.ob(rule, '{} {} whatever is counted'.format(f.fid, op), False, 'what is in the network depends on whether it is counted', f.where(n))
