"""C01: what a parser has read, and the error it has met, reach its caller."""
import ast

LINES = ('readlines', 'splitlines')


def ancestors(n, top):
    out = []
    while n is not top and n is not None:
        p = getattr(n, '_parent', None)
        out.append((p, n))
        n = p
    return out


def sets(node, var):
    """is var given a value other than None below node"""
    return [n for n in ast.walk(node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == var for t in n.targets) and not none(n.value)]


def none(v):
    return isinstance(v, ast.Constant) and v.value is None


def inside(part, n, top):
    """which list of the statement `part` holds n"""
    for p, c in ancestors(n, top):
        if p is part:
            for field in ('body', 'orelse', 'handlers', 'finalbody'):
                if c in (getattr(part, field, None) or []):
                    return field, c
    return None, None


def exclusive(a, b, f):
    """the two statements can not both run in one pass"""
    for p, c in ancestors(a, f.node):
        if isinstance(p, ast.If):
            x, y = inside(p, a, f.node)[0], inside(p, b, f.node)[0]
            if x and y and x != y:
                return True
        elif isinstance(p, ast.Try):
            x, y = inside(p, a, f.node), inside(p, b, f.node)
            if x[0] and y[0] and {x[0], y[0]} == {'handlers'} and x[1] is not y[1] or {x[0], y[0]} == {'handlers', 'orelse'}:
                return True
    return False


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break, ast.Return, ast.Pass))


def check(ctx, f, err):
    from .c01 import pair_of, where
    recs = {v.elts[0].id for v in pair_of(f) if isinstance(v.elts[0], ast.Name)}
    nodes = list(ast.walk(f.node))
    # -- the error found is not forgotten
    if err:
        given = sets(f.node, err)
        for n in nodes:
            if not (isinstance(n, ast.Assign) and none(n.value) and any(isinstance(t, ast.Name) and t.id == err for t in n.targets)):
                continue
            mine = {id(p) for p, c in ancestors(n, f.node) if isinstance(p, (ast.For, ast.While))}
            lost = []
            for g in given:
                theirs = {id(p) for p, c in ancestors(g, f.node) if isinstance(p, (ast.For, ast.While))}
                if mine & theirs or g.lineno < n.lineno and not exclusive(g, n, f):
                    lost.append(g)
            ctx.ob('damage-reported', f.fid + ' forgotten', not lost, 'an error found earlier is forgotten', where(f, n))
        for g in given:
            for p, c in ancestors(g, f.node):
                if not isinstance(p, ast.If) or c is p.test:
                    continue
                other = p.orelse if c in p.body else p.body
                if recs & {x.id for x in ast.walk(p.test) if isinstance(x, ast.Name)} and not any(sets(x, err) for x in other) and not \
                        any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) for x in ast.walk(p.test)):
                    ctx.ob('damage-reported', f.fid + ' whatever was read', False, 'damage is only reported depending on what else was read', where(f, p))
    # -- a record that is bad is still a record
    for n in nodes:
        if not isinstance(n, ast.If) or not any(isinstance(x, ast.Attribute) and x.attr == 'bad' for x in ast.walk(n.test)):
            continue
        adds = lambda body: any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'append', 'update') for s in body for x in ast.walk(s)) or \
            any(isinstance(x, ast.Yield) for s in body for x in ast.walk(s))
        drops = [x for body in (n.body, n.orelse) for b in body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('discard', 'remove', 'difference_update')]
        if drops and not (err and sets(n, err)):
            ctx.ob('records-kept', f.fid + ' bad', False, 'a bad record is left out and nothing says so', where(f, n))
        for body, other in ((n.body, n.orelse), (n.orelse, n.body)):
            if adds(body) or err and any(sets(s, err) for s in body) or any(isinstance(x, ast.Raise) for s in body for x in ast.walk(s)):
                continue
            if adds(other) or leaves(body) and not isinstance(body[-1], ast.Pass):
                ctx.ob('records-kept', f.fid + ' bad', False, 'a bad record is left out and nothing says so', where(f, n))
    # -- all lines are looked at
    lines = set()
    for n in nodes:
        if isinstance(n, ast.Assign) and lists_lines(n.value):
            lines |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    k = 0
    for n in nodes:
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and (lists_lines(n.value) or isinstance(n.value, ast.Name) and n.value.id in lines):
            k += 1
            step = n.slice.step
            if n.slice.upper is not None or step is not None and not (isinstance(step, ast.Constant) and step.value in (1, None)):
                up = n.slice.upper
                if isinstance(up, ast.Constant) and up.value is None:
                    continue
                ctx.ob('records-kept', f.fid + ' lines', False, 'the last lines of the file are not looked at', where(f, n))


def lists_lines(v):
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in LINES:
        # the lines of the file, not of a value taken from it
        return v.func.attr == 'readlines' or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'read' for x in ast.walk(v.func.value))
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and v.args:
        return isinstance(v.args[0], ast.Name) and 'file' in v.args[0].id.lower() or lists_lines(v.args[0])
    return False
