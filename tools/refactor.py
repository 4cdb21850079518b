"""Behaviour-preserving rewrites of the whole package, held in memory, on which
every check must stay quiet (and give an answer).

    tools/refactor.py                 run every check on every rewrite
    tools/refactor.py C03 C05         only these checks
    tools/refactor.py --write DIR T   write the tree rewritten by T under DIR
"""
import ast
import copy
import os
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
REPO = os.environ.get('MKS_REPO', '/repo')


def files():
    for d, ds, fs in os.walk(os.path.join(REPO, 'metaknowledge')):
        if 'tests' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.relpath(os.path.join(d, f), REPO)


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def own(fn):
    """nodes of fn outside nested functions/classes/comprehensions' scopes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return r + [x.arg for x in (a.vararg, a.kwarg) if x]


def stored(fn):
    out = set()
    comp = {id(x) for n in own(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target)}
    for n in own(fn):
        if id(n) in comp:
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(al.asname or al.name).split('.')[0] for al in n.names}
    return out


def blocks(node):
    for n in ast.walk(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def in_func_blocks(tree):
    for fn in functions(tree):
        for n, f, b in blocks(fn):
            yield fn, n, f, b


# --- the rewrites ------------------------------------------------------------
def t_rename(tree):
    """rename every plain local variable"""
    for fn in functions(tree):
        glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
        usednested = {x.id for n in nested for x in ast.walk(n) if isinstance(x, ast.Name)}
        names = stored(fn) - set(params(fn)) - glob - usednested
        names -= {n.name for n in own(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        names -= {(al.asname or al.name).split('.')[0] for n in own(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for al in n.names}
        for n in own(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + 'Renamed'
            elif isinstance(n, ast.ExceptHandler) and n.name in names:
                n.name = n.name + 'Renamed'
    return tree


def t_noop(tree):
    """statements that do nothing"""
    for fn, n, f, b in in_func_blocks(tree):
        i = 0
        while i < len(b):
            if i == 0 and n is fn and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                i += 1
                continue
            b.insert(i, ast.parse('_unused = None').body[0] if i % 2 else ast.Pass())
            i += 3
    return tree


def t_invert(tree):
    """if c: A else: B  ->  if not c: B else: A"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
    return tree


def t_rettemp(tree):
    for fn, n, f, b in list(in_func_blocks(tree)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                j = b.index(s)
                b[j:j + 1] = [ast.Assign([ast.Name('retValue', ast.Store())], s.value), ast.Return(ast.Name('retValue', ast.Load()))]
    return tree


def t_condtemp(tree):
    """if cond -> flag = cond; if flag"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        if f == 'orelse' and isinstance(n, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
            pass
        for s in list(b):
            if isinstance(s, ast.If):
                j = b.index(s)
                b.insert(j, ast.Assign([ast.Name('flagValue', ast.Store())], s.test))
                s.test = ast.Name('flagValue', ast.Load())
    return tree


def t_nestand(tree):
    """if a and b: X  ->  if a: if b: X   (no else)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            first, rest = n.test.values[0], n.test.values[1:]
            inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])
            n.test, n.body = first, [inner]
    return tree


def t_cmpflip(tree):
    F = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in F:
            simple = all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Call, ast.Subscript)) for x in (n.left, n.comparators[0]))
            calls = sum(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id in ('len', 'type', 'str'))
                        for x in (n.left, n.comparators[0]) for y in ast.walk(x))
            if simple and calls <= 1:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [F[type(n.ops[0])]()]
    return tree


def t_ifexp(tree):
    """x = a if c else b -> if/else"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for s in list(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                v = s.value
                j = b.index(s)
                b[j] = ast.If(v.test, [ast.Assign([copy.deepcopy(s.targets[0])], v.body)], [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse)])
    return tree


def t_elsereturn(tree):
    """if c: return x ; rest  ->  if c: return x else: rest"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break
    return tree


def t_unelse(tree):
    """if c: return x else: rest -> if c: return x ; rest"""
    def once():
        for fn, n, f, b in in_func_blocks(tree):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    rest, s.orelse = s.orelse, []
                    b[i + 1:i + 1] = rest
                    return True
        return False
    while once():
        pass
    return tree


def t_withopen(tree):
    """with open(..) as f: B -> f = open(..); try: B finally: f.close()"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for s in list(b):
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and \
                    isinstance(s.items[0].context_expr.func, ast.Name) and s.items[0].context_expr.func.id == 'open' and s.items[0].optional_vars is not None:
                j = b.index(s)
                v = s.items[0].optional_vars
                b[j:j + 1] = [ast.Assign([v], s.items[0].context_expr),
                              ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(ast.Name(v.id, ast.Load()), 'close', ast.Load()), [], []))])]
    return tree


def t_comploop(tree):
    """x = [e for t in it if c]  ->  explicit loop"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        names = stored(fn) | set(params(fn))
        for s in list(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if tn & names or s.targets[0].id in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}:
                    continue
                x = s.targets[0].id
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                j = b.index(s)
                b[j:j + 1] = [ast.Assign([ast.Name(x, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
    return tree


def t_looptemp(tree):
    """for x in it -> for item in it: x = item"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.target, (ast.Name, ast.Tuple)):
            tgt = n.target
            n.target = ast.Name('loopItem', ast.Store())
            n.body.insert(0, ast.Assign([tgt], ast.Name('loopItem', ast.Load())))
    return tree


def comp_bound(e):
    return {y.id for x in ast.walk(e) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}


def certain(fn, at):
    """names that are bound for sure at the node at"""
    out = set(params(fn))

    def names(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def inside(n):
        return any(x is at for x in ast.walk(n))

    def go(body):
        for s in body:
            if inside(s):
                if isinstance(s, ast.For):
                    out.update(names(s.target))
                if isinstance(s, ast.With):
                    for i in s.items:
                        if i.optional_vars is not None:
                            out.update(names(i.optional_vars))
                for b in ('body', 'orelse', 'finalbody'):
                    bb = getattr(s, b, None)
                    if isinstance(bb, list) and any(inside(x) for x in bb):
                        go(bb)
                for h in getattr(s, 'handlers', []):
                    if inside(h):
                        if h.name:
                            out.add(h.name)
                        go(h.body)
                return
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                    out.update(names(t))
            elif isinstance(s, ast.If):
                a, b = set(), set()
                for x in s.body:
                    a |= {y for t in getattr(x, 'targets', []) for y in names(t)}
                for x in s.orelse:
                    b |= {y for t in getattr(x, 'targets', []) for y in names(t)}
                out.update(a & b)
    go(fn.body)
    return out


def t_extract(tree):
    """return e -> return helper(locals of e), helper at module level"""
    new, k = [], 0
    tops = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    for top in tops:
        fns = [top] if isinstance(top, ast.FunctionDef) else [x for x in top.body if isinstance(x, ast.FunctionDef)]
        for fn in fns:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(fn)):
                continue
            loc = stored(fn) | set(params(fn))
            nest = {n.name for n in own(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
            for s in [x for x in own(fn) if isinstance(x, ast.Return) and x.value is not None]:
                if isinstance(s.value, (ast.Name, ast.Constant)) or any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(s.value)):
                    continue
                used = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                if 'super' in used or used & nest or any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(s.value)):
                    continue
                args = sorted((used & loc) - comp_bound(s.value))
                if comp_bound(s.value) & {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & set(params(fn)) or set(args) - certain(fn, s):
                    continue
                k += 1
                name = '_extracted{}'.format(k)
                new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(s.value)], [], None, type_params=[]))
                s.value = ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
    tree.body += new
    return tree


def t_loopextract(tree):
    """the body of a for loop (no control flow out, no rebinding) moved to a module-level helper"""
    new, k = [], 0
    for top in [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]:
        fns = [top] if isinstance(top, ast.FunctionDef) else [x for x in top.body if isinstance(x, ast.FunctionDef)]
        for fn in fns:
            loc = stored(fn) | set(params(fn))
            nest = {n.name for n in own(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
            for s in [x for x in own(fn) if isinstance(x, ast.For)]:
                b = ast.Module(s.body, [])
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Raise, ast.Delete, ast.FunctionDef,
                                      ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(b)):
                    continue
                st = {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                     {x.name for x in ast.walk(b) if isinstance(x, ast.ExceptHandler) and x.name}
                inb = {id(x) for x in ast.walk(b)}
                outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inb}
                used = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
                if st & outside or used & nest or 'super' in used or st & params_set(fn):
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(b)):
                    continue
                # a name assigned in the body must not carry over from one round to the next: keep only straight-line first assignments
                if any(not isinstance(y, (ast.Assign, ast.Expr, ast.AugAssign, ast.If, ast.For, ast.Try, ast.With, ast.Pass)) for y in s.body):
                    continue
                if st - {t.id for y in s.body if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name)}:
                    continue
                first = {}
                for x in sorted((x for x in ast.walk(b) if isinstance(x, ast.Name) and x.id in st and hasattr(x, 'lineno')), key=lambda x: (x.lineno, not isinstance(x.ctx, ast.Load))):
                    first.setdefault(x.id, x)
                if any(isinstance(x.ctx, ast.Load) for x in first.values()):
                    continue
                args = sorted((used & loc) - st)
                if set(args) - certain(fn, s) - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}:
                    continue
                k += 1
                name = '_loopBody{}'.format(k)
                new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), s.body, [], None, type_params=[]))
                s.body = [ast.Expr(ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
    tree.body += new
    return tree


def params_set(fn):
    return set(params(fn))


def t_augment(tree):
    """x += 1 -> x = x + 1 for number constants"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                if isinstance(s.target, ast.Subscript) and any(isinstance(x, ast.Call) for x in ast.walk(s.target)):
                    continue
                load = copy.deepcopy(s.target)
                load.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(load, s.op, s.value))
    return tree


def t_isinst(tree):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [copy.deepcopy(n.args[0]), c], []) for c in n.args[1].elts])
            return n
    return V().visit(tree)


def t_swapstmts(tree):
    """swap neighbouring independent assignments of pure expressions"""
    def pure(e):
        return all(isinstance(x, (ast.Name, ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.Load, ast.Store, ast.UnaryOp, ast.USub, ast.Not)) or
                   (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('set', 'list', 'dict') and not x.args) for x in ast.walk(e))
    for fn, n, f, b in list(in_func_blocks(tree)):
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (p, q)):
                np = {x.id for x in ast.walk(p) if isinstance(x, ast.Name)}
                nq = {x.id for x in ast.walk(q) if isinstance(x, ast.Name)}
                if p.targets[0].id not in nq and q.targets[0].id not in np:
                    b[i], b[i + 1] = q, p
                    i += 1
            i += 1
    return tree


def t_argtemp(tree):
    """f(g(x)) as a statement -> tmp = g(x); f(tmp) (single call argument)"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for s in list(b):
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and len(s.value.args) == 1 and not s.value.keywords and \
                    isinstance(s.value.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and \
                    not any(isinstance(x, ast.Call) for x in ast.walk(s.value.func)):
                j = b.index(s)
                b.insert(j, ast.Assign([ast.Name('argValue', ast.Store())], s.value.args[0]))
                s.value.args[0] = ast.Name('argValue', ast.Load())
    return tree


def t_keysiter(tree):
    """x in d.keys() -> x in d;  for k, v in d.items() unchanged;  not x in y -> x not in y"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            for i, (o, c) in enumerate(zip(n.ops, n.comparators)):
                if isinstance(o, (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys' and not c.args:
                    n.comparators[i] = c.func.value
            return n

        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
                o = n.operand.ops[0]
                F = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
                if type(o) in F:
                    n.operand.ops = [F[type(o)]()]
                    return n.operand
            return n
    return V().visit(tree)


def t_docs(tree):
    """drop docstrings"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
            del n.body[0]
    return tree


def t_enum(tree):
    """for x in it -> for i, x in enumerate(it)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            n.target = ast.Tuple([ast.Name('loopIndex', ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
    return tree


def t_tryelse(tree):
    """try: A; B except..: C return/raise  -> unchanged unless handlers all leave: rest goes to else"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Try) and s.handlers and not s.orelse and not s.finalbody and b[i + 1:] and \
                    all(isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Continue)) for h in s.handlers):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break
    return tree


def t_chainassign(tree):
    """a = [] ; comprehension-free: split tuple assignments a, b = x, y of constants"""
    for fn, n, f, b in list(in_func_blocks(tree)):
        for s in list(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(x, (ast.Constant, ast.List, ast.Dict)) for x in s.value.elts):
                j = b.index(s)
                b[j:j + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
    return tree


def t_all(tree):
    for f in (t_rename, t_invert, t_rettemp, t_condtemp, t_ifexp, t_looptemp, t_augment, t_noop):
        tree = f(tree)
        ast.fix_missing_locations(tree)
        tree = ast.parse(ast.unparse(tree))
    return tree


TRANSFORMS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('t_')}


def rewritten(name):
    out = {}
    import warnings
    warnings.simplefilter('ignore')
    for rel in files():
        src = open(os.path.join(REPO, rel), encoding='utf-8').read()
        tree = ast.parse(src)
        before = ast.unparse(tree)
        tree = TRANSFORMS[name](tree)
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        ast.parse(new)
        if new != before:
            out[rel] = new + '\n'
    return out


def job(a):
    pid, name = a
    import mks.core as core
    sys.setrecursionlimit(20000)
    try:
        ctx = core.analyse(pid, 'quick', overlay=rewritten(name))
    except Exception as e:
        return pid, name, 'NO ANSWER: {!r}'.format(e)[:300], []
    known = {(k['rule'], k['construct']) for k in core.load_known() if k['property'] == pid}
    bad = [(r, c, m, w) for r, c, m, w in ctx.violations() if (r, c) not in known]
    return pid, name, '{} obligations, {} violations, {} undecided'.format(len(ctx.obligations), len(bad), len(ctx.undec)), bad


def main():
    a = sys.argv[1:]
    if a and a[0] == '--write':
        for rel, src in rewritten(a[2]).items():
            with open(os.path.join(a[1], rel), 'w', encoding='utf-8') as f:
                f.write(src)
        return
    names = [x for x in a if x in TRANSFORMS] or list(TRANSFORMS)
    rules = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mks', 'rules')
    pids = [x for x in a if x not in TRANSFORMS and x != '-v'] or sorted(f[:-3].upper() for f in os.listdir(rules) if f.startswith('c') and f[1].isdigit())
    fail = 0
    with ProcessPoolExecutor(8) as ex:
        for pid, name, msg, bad in ex.map(job, [(p, n) for p in pids for n in names]):
            flag = 'ok ' if not bad and not msg.startswith('NO') else 'BAD'
            fail += flag == 'BAD'
            if flag == 'BAD' or '-v' in a:
                print(flag, pid, name, msg)
            for r, c, m, w in bad[:4]:
                print('      ', r, c, m, w)
    print('failures:', fail)
    sys.exit(1 if fail else 0)


if __name__ == '__main__':
    main()
