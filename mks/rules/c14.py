"""C14: no call dies of an internal mistake - a name that is not bound, an
attribute or function that does not exist, a call that does not fit its target,
a message that cannot be formatted, something raised that is no exception."""
import ast
import builtins
import importlib
import os
import re
import string
import sys

from . import divided
from .. import bound
from ..model import Cls

VENV = '/opt/venv/lib'
REMOVED_GRAPH = {'node', 'edge', 'nodes_iter', 'edges_iter', 'degree_iter', 'in_degree_iter', 'out_degree_iter', 'neighbors_iter', 'predecessors_iter',
                 'successors_iter', 'selfloop_edges', 'nodes_with_selfloops', 'number_of_selfloops', 'adjacency_list', 'adjacency_iter', 'add_path',
                 'add_cycle', 'add_star', 'in_edges_iter', 'out_edges_iter', 'fresh_copy', 'get_node_attributes'}
REMOVED_NX = {'connected_component_subgraphs', 'from_pandas_dataframe', 'to_numpy_matrix', 'from_numpy_matrix', 'read_gpickle', 'write_gpickle',
              'write_yaml', 'read_yaml', 'info', 'hub_matrix', 'authority_matrix', 'google_matrix_numpy', 'draw_graphviz'}
GRAPH_PARAMS = {'grph', 'G', 'targetGraph', 'addedGraph', 'graph', 'workingGrph'}
CATCHALL = {'Exception', 'BaseException'}


def site_packages(pkg):
    for d in sorted(os.listdir(VENV)) if os.path.isdir(VENV) else []:
        p = os.path.join(VENV, d, 'site-packages', pkg)
        if os.path.isdir(p):
            return p
    return None


def nx_names():
    """(attributes of graph objects, names of the networkx namespace) from the installed networkx source"""
    base = site_packages('networkx')
    if base is None:
        return None, None
    attrs, names = set(), set()
    for f in ('graph', 'digraph', 'multigraph', 'multidigraph'):
        p = os.path.join(base, 'classes', f + '.py')
        with open(p, encoding='utf-8') as fh:
            t = ast.parse(fh.read())
        for c in t.body:
            if isinstance(c, ast.ClassDef):
                for n in ast.walk(c):
                    if isinstance(n, ast.FunctionDef):
                        attrs.add(n.name)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        attrs.add(n.id)
                    elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        attrs.add(n.attr)
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        names.update(dirs)
        for f in files:
            if f.endswith('.py'):
                names.add(f[:-3])
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    src = fh.read()
                names.update(re.findall(r'^(?:def|class|async def) (\w+)', src, re.M))
                names.update(re.findall(r'^(\w+) *=', src, re.M))
    return attrs | set(dir(object)), names


# ------------------------------------------------------------------ helpers over the tree
def guards(node, upto):
    """exception names caught around node within the function"""
    out = set()
    child, p = node, getattr(node, '_parent', None)
    while p is not None and child is not upto:
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                out |= caught(h)
        child, p = p, getattr(p, '_parent', None)
    return out


def caught(h):
    if h.type is None:
        return {'BaseException'}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts}


def before(a, b):
    """assignment a is the last one to its name before statement b, in the same block"""
    par = getattr(b, '_parent', None)
    for k in ('body', 'orelse', 'finalbody'):
        blk = getattr(par, k, None)
        if isinstance(blk, list) and b in blk:
            if a not in blk or blk.index(a) >= blk.index(b):
                return False
            names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            return not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names
                           for s in blk[blk.index(a) + 1:blk.index(b)] for x in ast.walk(s))
    return False


def spelled(e, fn, stmt):
    """an expression with the names of conditions kept in variables replaced by the conditions"""
    names = bound.names_in(e)
    defs, near = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
            p = getattr(n, '_parent', None)
            ok = isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is n and (bound.condition(p.value) or isinstance(p.value, ast.Call))
            if ok and before(p, stmt):
                near[n.id] = p.value
            defs[n.id] = p.value if ok and n.id not in defs else None
    defs.update(near)
    defs = {k: v for k, v in defs.items() if v is not None}
    if not defs:
        return e

    class Put(ast.NodeTransformer):
        def visit_Name(self, n):
            return defs.get(n.id, n)
    return Put().visit(shallow(e))


def asks(c, attr):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'hasattr' and len(c.args) == 2 and isinstance(
        c.args[1], ast.Constant) and c.args[1].value == attr


def hasattr_guarded(node, attr, upto, cls=None):
    child, p = node, getattr(node, '_parent', None)
    while p is not None and child is not upto:
        tests = []
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and child is not p.test:
            tests.append((p.test, p))
        elif isinstance(p, ast.BoolOp):
            tests.append((p, p))
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(p, k, None)
            if isinstance(b, list) and child in b:
                tests += [(s.test, s) for s in b[:b.index(child)] if isinstance(s, ast.If) and (isinstance(s.body[-1], bound.JUMP) or s.orelse and isinstance(
                    s.orelse[-1], bound.JUMP))]
        for test, stmt in tests:
            for c in ast.walk(spelled(test, upto, stmt)):
                if asks(c, attr):
                    return True
                if cls is not None and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    g = cls.methods.get(c.func.attr)
                    if g is not None and any(asks(x, attr) for x in ast.walk(g.node)):
                        return True
        child, p = p, getattr(p, '_parent', None)
    return False


def own_nodes(f):
    """nodes of a function, not those of functions nested in it"""
    stack = list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                stack.extend(n.args.defaults)
            continue
        stack.extend(ast.iter_child_nodes(n))


def fn_locals(f):
    c = bound.Checker.__new__(bound.Checker)
    c.globals, c.nonlocals = set(), set()
    if isinstance(f.node, ast.Lambda):
        a = f.node.args
        return {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}, set()
    return c.local_names(f.node) | c.nonlocals, c.globals


def comp_names(n, upto):
    """names bound by comprehensions and lambdas around n"""
    out = set()
    p = getattr(n, '_parent', None)
    while p is not None and p is not upto:
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {x.id for g in p.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        p = getattr(p, '_parent', None)
    return out


class Check:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.model
        self.graph_attrs, self.nx = nx_names()
        self.noreturn_cache = {}
        self.selfattrs_cache = {}

    # -------------------------------------------------------------- bound names
    def noreturn(self, f):
        def test(call):
            fn = call.func
            if isinstance(fn, ast.Name) and fn.id in ('exit', 'quit'):
                return True
            if isinstance(fn, ast.Attribute) and fn.attr in ('exit', '_exit', 'error') and isinstance(fn.value, ast.Name) and fn.value.id in ('sys', 'os', 'parser'):
                return True
            t = self.target(f, call)
            if t is not None and t[0] == 'f' and isinstance(t[1].node, ast.FunctionDef):
                g = t[1]
                if g.fid not in self.noreturn_cache:
                    body = g.node.body
                    self.noreturn_cache[g.fid] = isinstance(body[-1], ast.Raise) and not any(isinstance(x, ast.Return) for x in ast.walk(g.node))
                return self.noreturn_cache[g.fid]
            return False
        return test

    def registry_loop(self, f):
        """search loops over the file handler registries always end with a match: the last detector accepts or raises (C02)"""
        def test(n):
            it = n.iter
            if not isinstance(it, ast.Name):
                return False
            r = self.m.resolve(f.mod, it.id)
            return r is not None and r[0] == 'g' and r[1].endswith('fileHandlers') and any(isinstance(x, ast.Break) for x in ast.walk(n))
        return test

    def bound(self, f):
        ctx = self.ctx
        lax = '.bin.' in f.mod.name
        hits, gave = bound.check(f.node, self.noreturn(f), self.registry_loop(f), not lax)
        for n in hits.values():
            g = guards(n, f.node)
            if g & (CATCHALL | {'NameError', 'UnboundLocalError'}):
                continue
            ctx.ob('bound', '{} uses {}'.format(f.fid, n.id), False, '{} is not bound on some path to this use'.format(n.id), f.where(n))
        for n in gave:
            ctx.undecided('bound', f.fid, n + ': too many paths')
        ctx.ob('bound', f.fid, True)
        ctx.count('functions checked for unbound names')

    def free(self, f):
        """names that are nowhere defined"""
        scopes, g = [], f
        loc, glob = fn_locals(f)
        names = set(loc) | glob
        p = f.parent
        while p is not None:
            names |= fn_locals(p)[0]
            p = p.parent
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in names and n.id not in comp_names(n, f.node):
                # comprehension nested in an outer function
                if n.id in self.module_names(f.mod) or hasattr(builtins, n.id) or n.id in ('__file__', '__name__', '__doc__', '__class__'):
                    continue
                if n.id in comp_names(f.node, None):
                    continue
                if guards(n, f.node) & (CATCHALL | {'NameError'}):
                    continue
                self.ctx.ob('defined', '{} uses {}'.format(f.fid, n.id), False, '{} is defined nowhere'.format(n.id), f.where(n))
        self.ctx.ob('defined', f.fid, True)

    def module_names(self, m):
        if not hasattr(self, '_mn'):
            self._mn = {}
        if m.name not in self._mn:
            out = set(m.funcs) | set(m.classes) | set(m.assigns)
            out |= {k for k in m.imports if not k.startswith('.')}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    out |= set(n.names)
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    src = self.m._absmod(m, n)
                    if src in self.m.mods and self.m.mods[src] is not m:
                        out |= self.module_names(self.m.mods[src])
            for s in m.tree.body:
                for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
            self._mn[m.name] = out
        return self._mn[m.name]

    def imports(self):
        for m in self.m.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    src = self.m._absmod(m, n)
                    if src in self.m.mods:
                        for a in n.names:
                            if a.name == '*':
                                continue
                            ok = a.name in self.module_names(self.m.mods[src]) or src + '.' + a.name in self.m.mods
                            self.ctx.ob('defined', '{} imports {} from {}'.format(m.name, a.name, src), ok, '{} has no {}'.format(src, a.name), '{}:{}'.format(m.rel, n.lineno))

    # -------------------------------------------------------------- attributes
    def class_attrs(self, c):
        """attribute names instances of c may have, None when a base is unknown"""
        if c.cid in self.selfattrs_cache:
            return self.selfattrs_cache[c.cid]
        out = set(dir(object)) | {'__dict__', '__class__', '__module__', '__slots__', '__weakref__'}
        fam = list(self.m.mro(c))
        for s in self.m.subclasses(c):
            fam += [k for k in self.m.mro(s) if k not in fam]
        for k in fam:
            if isinstance(k, Cls):
                out |= set(k.methods) | {x.lstrip('=') for x in k.props} | set(k.attrs)
                for fn in list(k.methods.values()) + list(k.props.values()):
                    if fn.kind == 'static' or not fn.node.args.args:
                        continue
                    me = fn.node.args.args[0].arg
                    for n in ast.walk(fn.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                            out.add(n.attr)
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(
                                n.args[0], ast.Name) and n.args[0].id == me:
                            if isinstance(n.args[1], ast.Constant):
                                out.add(n.args[1].value)
                            else:
                                out = None
                                break
                    if out is None:
                        break
            else:
                o = outside(k)
                out = None if o is None or out is None else out | set(dir(o)) if o is not object else out
            if out is None:
                break
        if out is not None and (self.m.method(c, '__getattr__') or self.m.method(c, '__getattribute__')):
            out = None
        self.selfattrs_cache[c.cid] = out
        return out

    def attributes(self, f):
        ctx, m = self.ctx, self.m
        loc, glob = fn_locals(f)
        outer, p = set(), f.parent
        while p is not None:
            outer |= fn_locals(p)[0]
            p = p.parent
        graphs = self.graph_vars(f, loc)
        selfname, known = None, None
        if f.cls is not None and f.parent is None and f.kind in ('method',) and f.node.args.args:
            selfname = f.node.args.args[0].arg
            stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == selfname and isinstance(n.ctx, ast.Store)]
            known = None if stores and f.cls.name != 'Citation' else self.class_attrs(f.cls)
        for n in own_nodes(f):
            if not isinstance(n, ast.Attribute):
                continue
            if isinstance(n.value, ast.Name):
                v = n.value.id
                if v == selfname and known is not None and isinstance(n.ctx, ast.Load):
                    if n.attr not in known and not n.attr.startswith('__') and not (guards(n, f.node) & (CATCHALL | {'AttributeError'})) and \
                            not hasattr_guarded(n, n.attr, f.node):
                        ctx.ob('attribute', '{} reads self.{}'.format(f.fid, n.attr), False, 'nothing ever gives a {} the attribute {}'.format(f.cls.name, n.attr), f.where(n))
                    else:
                        ctx.count('attribute reads checked')
                    continue
                if v in graphs:
                    bad = n.attr not in self.graph_attrs if self.graph_attrs else n.attr in REMOVED_GRAPH
                    if bad and not (guards(n, f.node) & (CATCHALL | {'AttributeError'})):
                        ctx.ob('attribute', '{} uses {}.{}'.format(f.fid, v, n.attr), False, 'networkx graphs have no {}'.format(n.attr), f.where(n))
                    ctx.count('graph attribute uses checked')
                    continue
                if v in loc or v in outer:
                    if v not in f.mod.imports or v in loc:
                        continue
            # module attributes
            r = self.m.resolve_expr(f.mod, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
            root = n.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in loc or root.id in outer or root.id in comp_names(n, f.node):
                continue
            if guards(n, f.node) & (CATCHALL | {'AttributeError', 'ImportError'}):
                continue
            if r is None:
                continue
            if r[0] == 'm':
                ok = n.attr in self.module_names(m.mods[r[1]]) or r[1] + '.' + n.attr in m.mods or n.attr.startswith('__')
                ctx.count('module attribute uses checked')
                if not ok:
                    ctx.ob('attribute', '{} uses {}.{}'.format(f.fid, r[1], n.attr), False, '{} has no {}'.format(r[1], n.attr), f.where(n))
            elif r[0] == 'x':
                ok = self.outside_attr(r[1], n.attr)
                if ok is not None:
                    ctx.count('module attribute uses checked')
                if ok is False:
                    ctx.ob('attribute', '{} uses {}.{}'.format(f.fid, r[1], n.attr), False, '{} has no {}'.format(r[1], n.attr), f.where(n))
            elif r[0] == 'k' and isinstance(n.ctx, ast.Load):
                known_k = self.class_attrs(r[1])
                if known_k is not None and n.attr not in known_k and n.attr not in dir(type):
                    ctx.ob('attribute', '{} uses {}.{}'.format(f.fid, r[1].name, n.attr), False, '{} has no {}'.format(r[1].name, n.attr), f.where(n))
        ctx.ob('attribute', f.fid, True)

    def graph_vars(self, f, loc):
        a = getattr(f.node, 'args', None)
        out = {x.arg for x in a.args if x.arg in GRAPH_PARAMS} if a else set()
        cand = {}
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.targets[0].id
                isg = isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Attribute, ast.Name)) and (
                    self.m.resolve_expr(f.mod, n.value.func) or ('', ''))[1] in ('networkx.Graph', 'networkx.DiGraph', 'networkx.MultiGraph', 'networkx.MultiDiGraph')
                cand.setdefault(v, []).append(isg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(getattr(n, '_parent', None), ast.Assign):
                cand.setdefault(n.id, []).append(False)
        out = {x for x in out if all(cand.get(x, [True]))}
        return out | {v for v, l in cand.items() if all(l) and v in loc and v not in {x.arg for x in a.args}}

    def outside_attr(self, dotted, attr):
        top = dotted.split('.')[0]
        if top == 'networkx':
            if dotted == 'networkx':
                return attr in self.nx if self.nx else attr not in REMOVED_NX
            return None
        if top in sys.stdlib_module_names:
            o = outside(dotted)
            if o is None:
                return None
            if hasattr(o, attr):
                return True
            if isinstance(o, type(sys)):
                try:
                    importlib.import_module(dotted + '.' + attr)
                    return True
                except Exception:
                    return False
            return False
        return None

    # -------------------------------------------------------------- calls
    def target(self, f, call):
        """('f', Func, bound?) / ('k', Cls) the call goes to"""
        fn = call.func
        loc, glob = fn_locals(f)
        if isinstance(fn, ast.Name):
            if fn.id in loc or fn.id in comp_names(call, f.node):
                hit = [g for g in f.nested.values() if g.name == fn.id]
                stores = sum(1 for n in own_nodes(f) if isinstance(n, (ast.Name,)) and n.id == fn.id and isinstance(n.ctx, ast.Store))
                return ('f', hit[0], 0) if len(hit) == 1 and not stores else None
            p = f.parent
            while p is not None:
                if fn.id in fn_locals(p)[0]:
                    return None
                p = p.parent
            r = self.m.resolve(f.mod, fn.id)
            if r and r[0] == 'f':
                return ('f', r[1], 0)
            if r and r[0] == 'k':
                return r
            return None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name):
                v = fn.value.id
                if f.cls is not None and f.parent is None and f.kind == 'method' and f.node.args.args and v == f.node.args.args[0].arg:
                    if any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                        return None
                    g = self.m.method(f.cls, fn.attr)
                    if g is None or self.m.prop(f.cls, fn.attr) is not None:
                        return None
                    return ('f', g, 0 if g.kind == 'static' else 1)
                if v in loc:
                    return None
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls is not None:
                g = self.m.method(f.cls, fn.attr, after=f.cls)
                return ('f', g, 1) if g is not None else None
            root = fn.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in loc:
                return None
            r = self.m.resolve_expr(f.mod, fn)
            b = self.m.resolve_expr(f.mod, fn.value)
            if r and r[0] == 'f':
                if b and b[0] == 'k':
                    return ('f', r[1], 1 if r[1].kind == 'class' else 0)
                return ('f', r[1], 0)
            if r and r[0] == 'k':
                return r
        return None

    def calls(self, f):
        ctx = self.ctx
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            t = self.target(f, n)
            if t is None:
                continue
            if t[0] == 'k':
                g = self.m.method(t[1], '__init__')
                if g is None:
                    continue
                off, label = 1, t[1].name
            else:
                g, off, label = t[1], t[2], t[1].qual
            why = misfit(g, off, n)
            ctx.count('calls of package functions checked')
            if why and not (guards(n, f.node) & (CATCHALL | {'TypeError'})):
                ctx.ob('call', '{} calls {}'.format(f.fid, label), False, why, f.where(n))
        ctx.ob('call', f.fid, True)

    # -------------------------------------------------------------- messages
    def formats(self, f):
        ctx = self.ctx
        for n in own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str):
                why = misformat(n.func.value.value, n)
                ctx.count('messages checked')
                if why and not (guards(n, f.node) & (CATCHALL | {'IndexError', 'LookupError'})):
                    ctx.ob('message', '{} formats {!r}'.format(f.fid, n.func.value.value[:60]), False, why, f.where(n))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                want = len(re.findall(r'%(?!%)(?:\([^)]*\))?[-#0 +]*[\d.*]*[diouxXeEfFgGcrsa]', n.left.value.replace('%%', '')))
                got = len(n.right.elts) if isinstance(n.right, ast.Tuple) else None
                ctx.count('messages checked')
                if got is not None and got != want and '%(' not in n.left.value:
                    ctx.ob('message', '{} formats {!r}'.format(f.fid, n.left.value[:60]), False, '{} values for {} places'.format(got, want), f.where(n))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                for a, b in ((n.left, n.right), (n.right, n.left)):
                    if isinstance(a, ast.Constant) and isinstance(a.value, str) and (isinstance(b, ast.Constant) and isinstance(b.value, (int, float)) or isinstance(
                            b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('len', 'int', 'float', 'sum', 'list', 'dict', 'set')):
                        ctx.ob('message', '{} adds to {!r}'.format(f.fid, a.value[:60]), False, 'text and {} cannot be added'.format(ast.unparse(b)), f.where(n))
        ctx.ob('message', f.fid, True)

    def raises(self, f):
        ctx = self.ctx
        loc, _ = fn_locals(f)
        for n in own_nodes(f):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                why = self.no_exception(f, e, loc)
                ctx.count('raised exceptions checked')
                if why:
                    ctx.ob('raised', '{} raises {}'.format(f.fid, ast.unparse(e)[:60]), False, why, f.where(n))
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                for e in n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]:
                    why = self.no_exception(f, e, loc)
                    if why:
                        ctx.ob('raised', '{} catches {}'.format(f.fid, ast.unparse(e)[:60]), False, why, f.where(n))
        ctx.ob('raised', f.fid, True)

    def no_exception(self, f, e, loc):
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Dict, ast.List)):
            return 'not an exception'
        if isinstance(e, ast.Name) and e.id in loc:
            return None
        r = self.m.resolve_expr(f.mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if r is None:
            return None
        if r[0] == 'k':
            for k in self.m.mro(r[1]):
                if not isinstance(k, Cls):
                    o = outside(k)
                    if o is None or isinstance(o, type) and issubclass(o, BaseException):
                        return None
            return '{} is not an exception class'.format(r[1].name)
        if r[0] == 'f':
            return '{} is a function'.format(r[1].qual) if not isinstance(getattr(e, '_parent', None), ast.Call) else None
        if r[0] == 'x' and '.' not in r[1] and hasattr(builtins, r[1]):
            o = getattr(builtins, r[1])
            if not (isinstance(o, type) and issubclass(o, BaseException)):
                return '{} is not an exception'.format(r[1])
        return None

    # -------------------------------------------------------------- attributes a constructor may leave out
    def init(self, c):
        ctx, m = self.ctx, self.m
        fn = c.methods.get('__init__')
        if fn is None or not fn.node.args.args:
            return
        me = fn.node.args.args[0].arg
        own = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me}
        if not own:
            return
        read = {}
        fam = [c] + m.subclasses(c)
        for k in fam:
            for g in list(k.methods.values()) + list(k.props.values()):
                if g is fn or not g.node.args.args or g.kind != 'method':
                    continue
                gm = g.node.args.args[0].arg
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == gm and n.attr in own:
                        if not (guards(n, g.node) & (CATCHALL | {'AttributeError'})) and not hasattr_guarded(n, n.attr, g.node, k):
                            read.setdefault(n.attr, []).append((g, self.read_guard(fn, me, g, gm, n)))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and not n.keywords \
                            and isinstance(n.args[0], ast.Name) and n.args[0].id == gm and not (guards(n, g.node) & (CATCHALL | {'AttributeError'})):
                        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == 'hasattr' or x.func.id == 'getattr' and len(x.args) == 3
                                                                                             and ast.dump(x.args[1]) == ast.dump(n.args[1])) for x in ast.walk(g.node)):
                            continue
                        for a in named(n.args[1], g.node):
                            if a in own:
                                read.setdefault(a, []).append((g, self.read_guard(fn, me, g, gm, n)))
        inherited = set()
        for k in m.mro(c)[1:]:
            if isinstance(k, Cls):
                inherited |= set(k.attrs)
        for a in sorted(own & set(read)):
            if a in c.attrs or a in inherited or a in c.props or any(isinstance(k, Cls) and a in k.props for k in m.mro(c)):
                continue
            tree = with_exit_use(fn.node, me, a, lambda call: self.sets(c, fn, call, a), [w for _, w in read[a]])
            hits, gave = bound.check(tree, self.noreturn(fn), self.registry_loop(fn), True, only={'self.' + a}, notnone=lambda call: self.notnone(fn, call))
            hits = [n for n in hits.values() if n.id == 'self.' + a]
            ctx.ob('initialised', '{}.{}'.format(c.name, a), not hits, 'the constructor can end without setting {}, which {} reads'.format(a, read[a][0][0].qual), fn.where())

    def read_guard(self, fn, me, g, gm, node):
        """the conditions around a read of an attribute, said in the constructor's words: parameters the constructor stores
        unchanged and module-level settings; conditions that cannot be said that way are left out"""
        params = {x.arg for x in fn.node.args.args + fn.node.args.kwonlyargs}
        stored = {}
        for s in fn.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in params:
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        stored[t.attr] = s.value.id
        loc = fn_locals(g)[0]

        def say(e):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                x = say(e.operand)
                return x and ast.UnaryOp(ast.Not(), x)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                if e.value.id == gm:
                    return ast.Name(stored[e.attr], ast.Load()) if e.attr in stored else None
                return e if e.value.id not in loc else None
            if isinstance(e, ast.Name):
                return e if e.id not in loc else None
            if isinstance(e, ast.Compare) and all(isinstance(x, ast.Constant) for x in e.comparators):
                x = say(e.left)
                return x and ast.Compare(x, e.ops, e.comparators)
            return None

        def conj(e, val):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return conj(e.operand, not val)
            if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == val:
                return [y for x in e.values for y in conj(x, val)]
            x = say(e)
            return [] if x is None else [x if val else ast.UnaryOp(ast.Not(), x)]
        out = []
        child, p = node, getattr(node, '_parent', None)
        while p is not None and child is not g.node:
            if isinstance(p, (ast.If, ast.IfExp)) and child is not p.test:
                body = p.body if isinstance(p.body, list) else [p.body]
                out += conj(spelled(p.test, g.node, p), child in body)
            blk = [getattr(p, k, None) for k in ('body', 'orelse', 'finalbody')]
            for b in blk:
                if isinstance(b, list) and child in b:
                    for s in b[:b.index(child)]:
                        if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not s.orelse:
                            out += conj(spelled(s.test, g.node, s), False)
            child, p = p, getattr(p, '_parent', None)
        return out

    def notnone(self, f, call):
        """a call that makes an object: of a class, or of a package function whose every return is a value"""
        r = self.m.resolve_expr(f.mod, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] == 'x':
            o = outside(r[1])
            return isinstance(o, type)
        t = self.target(f, call)
        if t is None:
            return False
        if t[0] == 'k':
            return True
        g = t[1].node
        if isinstance(g, ast.Lambda) or not g.body:
            return False
        rets = [n for n in own_nodes(t[1]) if isinstance(n, ast.Return)]
        last = g.body[-1]
        ends = isinstance(last, (ast.Return, ast.Raise)) or isinstance(last, ast.If) and last.orelse
        return bool(rets) and bool(ends) and all(n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in rets)

    def sets(self, c, fn, call, a, depth=0):
        """does this call in the constructor set attribute a?"""
        t = self.target(fn, call)
        if t is None or t[0] != 'f' or depth > 3:
            return False
        g = t[1]
        if g.cls is None or not g.node.args.args:
            return False
        gm = g.node.args.args[0].arg
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == gm and n.attr == a:
                return True
            if isinstance(n, ast.Call) and n is not call and self.sets(c, g, n, a, depth + 1):
                return True
        return False


def named(e, fn):
    """the strings a name stands for: itself, or the elements of the constant list a loop goes through"""
    def strings(x):
        if isinstance(x, ast.Name):
            vals = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets)]
            stores = [t for t in ast.walk(fn) if isinstance(t, ast.Name) and t.id == x.id and isinstance(t.ctx, ast.Store)]
            return strings(vals[0]) if len(vals) == 1 == len(stores) and not isinstance(vals[0], ast.Name) else []
        if isinstance(x, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in x.elts):
            return [y.value for y in x.elts]
        return []
    if isinstance(e, ast.Constant):
        return [e.value] if isinstance(e.value, str) else []
    if isinstance(e, ast.Name):
        loops = [s for s in ast.walk(fn) if isinstance(s, (ast.For, ast.comprehension)) and isinstance(s.target, ast.Name) and s.target.id == e.id]
        return [a for s in loops for a in strings(s.iter)]
    return []


class Exit(ast.NodeTransformer):
    def __init__(self, me, a, setter):
        self.me, self.a, self.setter = me, a, setter

    def name(self, ctx, like):
        n = ast.Name('self.' + self.a, ctx)
        return ast.copy_location(n, like)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == self.me and n.attr == self.a and isinstance(n.ctx, (ast.Store, ast.Del)):
            return self.name(n.ctx, n)
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        return [ast.copy_location(ast.Expr(self.name(ast.Load(), n)), n), n]

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and self.setter(n.value):
            return [n, ast.copy_location(ast.Assign([self.name(ast.Store(), n)], ast.copy_location(ast.Constant(None), n)), n)]
        return self.generic_visit(n)

    def visit_If(self, n):
        # `if not self._loadFromCache(...)`: a method that fills the object
        calls = [x for x in ast.walk(n.test) if isinstance(x, ast.Call) and self.setter(x)]
        self.generic_visit(n)
        if calls:
            bind = ast.copy_location(ast.Assign([self.name(ast.Store(), n)], ast.copy_location(ast.Constant(None), n)), n)
            n.body = [bind] + n.body
        return n


def with_exit_use(node, me, a, setter, whens):
    import copy

    class Keep(dict):
        pass
    t = Exit(me, a, setter)
    new = ast.FunctionDef(name=node.name, args=node.args, body=[], decorator_list=[], returns=None, type_comment=None, type_params=[])
    ast.copy_location(new, node)
    body = []
    for s in node.body:
        s2 = shallow(s)
        r = t.visit(s2)
        body += r if isinstance(r, list) else [r]
    done = set()
    for w in whens:
        last = ast.Expr(ast.Name('self.' + a, ast.Load()))
        if w:
            last = ast.If(w[0] if len(w) == 1 else ast.BoolOp(ast.And(), w), [last], [])
        if ast.unparse(last) in done:
            continue
        done.add(ast.unparse(last))
        for x in ast.walk(last):
            ast.copy_location(x, node)
        body.append(last)
    new.body = body
    return new


def shallow(n):
    """copy of a tree without its _parent links, remembering the originals of calls"""
    if isinstance(n, ast.AST):
        c = type(n)()
        for k in n._fields:
            if hasattr(n, k):
                v = getattr(n, k)
                setattr(c, k, [shallow(x) for x in v] if isinstance(v, list) else shallow(v))
        for k in n._attributes:
            if hasattr(n, k):
                setattr(c, k, getattr(n, k))
        return c
    return n


def misfit(g, off, call):
    a = g.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][off:]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not a.vararg:
        return '{} takes {} positional arguments, {} given'.format(g.qual, len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return '{} gets {} twice'.format(g.qual, k.arg)
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return '{} has no parameter {}'.format(g.qual, k.arg)
        given.add(k.arg)
    if not star and not dstar:
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        miss = [x for x in need if x not in given] + [x for x, d in zip(kwonly, a.kw_defaults) if d is None and x not in given]
        if miss:
            return '{} is called without {}'.format(g.qual, ', '.join(miss))
    return None


def misformat(text, call):
    try:
        fields = [f for _, f, _, _ in string.Formatter().parse(text) if f is not None]
        for _, f, spec, _ in string.Formatter().parse(text):
            if spec and '{' in spec:
                fields += [x for _, x, _, _ in string.Formatter().parse(spec) if x is not None]
    except ValueError as e:
        return 'the text is no format: {}'.format(e)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    kws = {k.arg for k in call.keywords}
    auto = 0
    for f in fields:
        base = re.split(r'[.\[]', f)[0]
        if base == '':
            i = auto
            auto += 1
        elif base.isdigit():
            i = int(base)
        else:
            if base not in kws and None not in kws:
                return 'no value for {{{}}}'.format(base)
            continue
        if i >= len(call.args) and not star:
            return '{} places, {} values'.format(i + 1, len(call.args))
    return None


_out = {}


def outside(dotted):
    """the object an outside dotted name denotes (standard library and builtins only)"""
    if dotted in _out:
        return _out[dotted]
    r = None
    if hasattr(builtins, dotted):
        r = getattr(builtins, dotted)
    elif dotted.split('.')[0] in sys.stdlib_module_names:
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:i]))
            except Exception:
                continue
            try:
                for p in parts[i:]:
                    o = getattr(o, p)
                r = o
            except AttributeError:
                r = None
            break
    _out[dotted] = r
    return r


def run(ctx):
    ctx.rule('bound', 'every local name is bound on every path to a use of it')
    ctx.rule('defined', 'every other name and every name imported from the package is defined')
    ctx.rule('attribute', 'every attribute read of self, a module, a class or a networkx graph exists')
    ctx.rule('initialised', 'every attribute the constructor sets and other methods read is set on every path through the constructor')
    ctx.rule('call', 'every call of a package function fits its parameters')
    ctx.rule('message', 'every message can be formatted')
    ctx.rule('raised', 'only exceptions are raised and caught')
    ctx.rule('divided', 'no number is divided by a count that is 0 when there is nothing to count')
    ck = Check(ctx)
    n = 0
    for fid, f in sorted(ctx.model.funcs.items()):
        n += 1
        ctx.saw(f)
        if not isinstance(f.node, ast.Lambda):
            ck.bound(f)
        ck.free(f)
        ck.attributes(f)
        ck.calls(f)
        ck.formats(f)
        ck.raises(f)
        divided.check(ctx, f)
    ck.imports()
    for c in ctx.model.classes.values():
        ck.init(c)
    ctx.need('functions', n, 300)
