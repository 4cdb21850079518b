"""C01: a dictionary filled from a file does not hold two kinds of value under
one key, one of which the code cannot go on with."""
import ast

GROW = {'append', 'extend', 'insert', 'add', 'update', 'appendleft'}
TEXT = {'strip', 'rstrip', 'lstrip', 'join', 'format', 'lower', 'upper', 'title', 'replace', 'decode', 'str', 'readline', 'read', 'int', 'float', 'len'}


def kind(e, fn, depth=0):
    if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.DictComp)):
        return 'many'
    if isinstance(e, (ast.Constant, ast.JoinedStr)):
        return 'one'
    if isinstance(e, ast.Attribute):
        return 'one' if e.attr in ('text', 'tail') else None
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
        return 'one' if n in TEXT else 'many' if n in ('list', 'set', 'sorted', 'dict', 'split', 'deque') else None
    if isinstance(e, ast.IfExp):
        a, b = kind(e.body, fn, depth), kind(e.orelse, fn, depth)
        return 'one' if 'one' in (a, b) else a if a == b else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, (ast.Constant, ast.JoinedStr)):
        return 'one'
    if isinstance(e, ast.Name) and depth < 3:
        stores = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)]
        vals = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
        if len(stores) == len(vals) and vals:
            ks = {kind(v, fn, depth + 1) for v in vals}
            return ks.pop() if len(ks) == 1 else None
    return None


def loops(n, fn):
    out = []
    p = getattr(n, '_parent', None)
    while p is not None and p is not fn:
        if isinstance(p, (ast.For, ast.While)):
            out.append(p)
        p = getattr(p, '_parent', None)
    return out


def caught(n, fn):
    child, p = n, getattr(n, '_parent', None)
    while p is not None and child is not fn:
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                names = [None] if h.type is None else [x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '') for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(x in (None, 'AttributeError', 'Exception', 'BaseException') for x in names):
                    return True
        child, p = p, getattr(p, '_parent', None)
    return False


def check(ctx, f, rule):
    fn = f.node
    if isinstance(fn, ast.Lambda):
        return
    uses, stores, asked = [], [], set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
            v = n.func.value
            if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name):
                uses.append((v.value.id, v.slice, n))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and isinstance(v.func.value, ast.Name) and len(v.args) == 2:
                uses.append((v.func.value.id, v.args[0], n))
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    stores.append((t.value.id, t.slice, n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'type', 'hasattr') and n.args:
            asked |= {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)}
    if not uses:
        return
    # what an asked name was taken from has been asked as well
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in asked for t in n.targets):
            asked |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
    for d, k, use in uses:
        bad = None
        for d2, k2, s in stores:
            if d2 != d or d in asked or kind(s.value, fn) != 'one' or caught(use, fn):
                continue
            if isinstance(k, ast.Constant) and isinstance(k2, ast.Constant) and k.value != k2.value:
                continue
            if not isinstance(k, ast.Constant) and not isinstance(k2, ast.Constant) and ast.dump(k) != ast.dump(k2):
                continue
            if set(map(id, loops(s, fn))) & set(map(id, loops(use, fn))) or s.lineno < use.lineno:
                bad = s
        ctx.ob(rule, '{} {}[{}]'.format(f.fid, d, ast.unparse(k)), bad is None,
               'what is stored at line {} is not something more can be put into: content with both under one key makes the parser raise'.format(bad.lineno) if bad is not None else '', f.where(use))
