"""Sensitivity audit (thorough tier): in-memory mutants of the analysed
functions, re-analysed with the same rules.  Reports which kinds of change the
check notices; many mutants do not break the property, so the number is
information about reach, not a verdict."""
import ast
import copy
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed

SET_OPS = {ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Sub: ast.Add, ast.Add: ast.Sub, ast.BitXor: ast.BitOr}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
COPIES = {'list', 'set', 'dict', 'sorted', 'tuple'}


def edits(fn):
    """[(description, apply(fn copy))] for one function's syntax tree"""
    out = []
    nodes = list(ast.walk(fn))

    def at(i, f, what):
        out.append((what, i, f))
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            at(i, lambda x: setattr(x, 'ops', [CMP[type(x.ops[0])]()]), 'comparison changed, line {}'.format(ln))
        elif isinstance(n, ast.If):
            at(i, lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)), 'condition negated, line {}'.format(ln))
        elif isinstance(n, ast.BinOp) and type(n.op) in SET_OPS:
            at(i, lambda x: setattr(x, 'op', SET_OPS[type(x.op)]()), 'operator changed, line {}'.format(ln))
        elif isinstance(n, ast.BoolOp):
            at(i, lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()), 'and/or swapped, line {}'.format(ln))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            at(i, lambda x: setattr(x, 'value', not x.value), 'boolean flipped, line {}'.format(ln))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            at(i, lambda x: setattr(x, 'value', x.value + 1), 'number + 1, line {}'.format(ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in COPIES and len(n.args) == 1:
            at(i, 'arg', 'copy dropped, line {}'.format(ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') and len(n.args) == 1:
            at(i, 'arg', 'copy dropped, line {}'.format(ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            at(i, 'recv', 'copy dropped, line {}'.format(ln))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            at(i, lambda x: setattr(x, 'args', [x.args[1], x.args[0]]), 'arguments swapped, line {}'.format(ln))
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        at(i, ('del', f, j), '{} deleted, line {}'.format(type(s).__name__, s.lineno))
    return out


def apply(fn, i, f):
    nodes = list(ast.walk(fn))
    n = nodes[i]
    if isinstance(f, tuple):
        getattr(n, f[1])[f[2]] = ast.Pass()
    elif f in ('arg', 'recv'):
        new = n.args[0] if f == 'arg' else n.func.value
        for p in nodes:
            for name, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, name, new)
                elif isinstance(v, list):
                    for k, y in enumerate(v):
                        if y is n:
                            v[k] = new
    else:
        f(n)


def mutants(model, fids):
    out = []
    for fid in sorted(fids):
        fn = model.funcs.get(fid)
        if fn is None or not isinstance(fn.node, ast.FunctionDef):
            continue
        for what, i, f in edits(fn.node):
            out.append((fid, what, i))
    return out


def source(model, fid, i, what):
    """the module source with one mutant of fid"""
    fn = model.funcs[fid]
    tree = ast.parse(fn.mod.src)
    tgt = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno == fn.node.lineno and n.name == fn.name:
            tgt = n
    f = next(f for w, k, f in edits(tgt) if k == i and w == what)
    apply(tgt, i, f)
    ast.fix_missing_locations(tree)
    return fn.mod.rel, ast.unparse(tree) + '\n'


def job(a):
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    pid, fid, what, i, base = a
    from . import core
    from .model import Model
    m = _model()
    t0 = time.time()
    try:
        rel, src = source(m, fid, i, what)
        ctx = core.analyse(pid, 'quick', overlay={rel: src})
        v = [(r, c) for r, c, mm, w in ctx.violations() if (r, c) not in base]
        res = ('caught', v[0]) if v else ('quiet', None)
    except Exception as e:
        res = ('no answer', '{!r}'.format(e)[:120])
    return fid, what, res, time.time() - t0


_M = []


def _model():
    if not _M:
        from . import core
        from .model import Model
        _M.append(Model(core.REPO))
    return _M[0]


def sensitivity(pid, ctx, seed, limit=None, seconds=None, workers=8, full=False):
    if os.environ.get('MKS_NO_AUDIT'):
        return {'skipped': True}
    seconds = seconds or float(os.environ.get('MKS_AUDIT_SECONDS', '240'))
    ms = mutants(ctx.model, ctx.analysed)
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    if limit:
        ms = ms[:limit]
    base = {(r, c) for r, c, m, w in ctx.violations()}
    t0 = time.time()
    done, caught, noans, rows = 0, 0, 0, []
    with ProcessPoolExecutor(workers) as ex:
        it = iter(ms)
        pend = set()
        stop = False
        while True:
            while not stop and len(pend) < workers * 2:
                x = next(it, None)
                if x is None:
                    stop = True
                    break
                pend.add(ex.submit(job, (pid, x[0], x[1], x[2], base)))
            if not pend:
                break
            f = next(as_completed(pend))
            pend.discard(f)
            fid, what, res, dt = f.result()
            done += 1
            caught += res[0] == 'caught'
            noans += res[0] == 'no answer'
            rows.append((fid, what, res))
            if time.time() - t0 > seconds:
                stop = True
    out = {'mutants_available': len(mutants(ctx.model, ctx.analysed)), 'mutants_analysed': done, 'reported': caught, 'no_answer': noans,
           'sample_reported': ['{}: {} -> {} {}'.format(f, w, r[1][0], r[1][1]) for f, w, r in sorted(rows, key=str) if r[0] == 'caught'][:10],
           'sample_quiet': ['{}: {}'.format(f, w) for f, w, r in sorted(rows, key=str) if r[0] == 'quiet'][:25]}
    if full:
        out['rows'] = rows
    return out
