"""Source model of the analysed package.

Parses every module of /repo/metaknowledge (the current working tree, nothing is
imported or run) and answers name questions: which package function, class,
module global or outside name does an identifier denote in a given module;
method resolution order; the functions nested in a function.
"""
import ast
import os
import warnings


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: no verdict can be given."""


class Func:
    __slots__ = ('fid', 'name', 'qual', 'node', 'mod', 'cls', 'parent', 'kind', 'nested')

    def __init__(self, fid, name, qual, node, mod, cls, parent, kind):
        self.fid, self.name, self.qual, self.node = fid, name, qual, node
        self.mod, self.cls, self.parent, self.kind = mod, cls, parent, kind
        self.nested = {}

    @property
    def file(self):
        return self.mod.rel

    @property
    def is_gen(self):
        return is_generator(self.node)

    def where(self, node=None):
        line = getattr(node, 'lineno', None) or self.node.lineno
        return '{}:{} in {}'.format(self.mod.rel, line, self.qual)

    def __repr__(self):
        return '<Func {}>'.format(self.fid)


class Cls:
    __slots__ = ('cid', 'name', 'node', 'mod', 'bases', 'methods', 'props', 'attrs')

    def __init__(self, cid, name, node, mod):
        self.cid, self.name, self.node, self.mod = cid, name, node, mod
        self.bases, self.methods, self.props, self.attrs = [], {}, {}, {}

    def __repr__(self):
        return '<Cls {}>'.format(self.cid)


class Module:
    __slots__ = ('name', 'rel', 'path', 'tree', 'src', 'funcs', 'classes', 'imports', 'assigns', 'pkg')

    def __init__(self, name, rel, path, tree, src, pkg):
        self.name, self.rel, self.path, self.tree, self.src = name, rel, path, tree, src
        self.funcs, self.classes, self.imports, self.assigns, self.pkg = {}, {}, {}, {}, pkg


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def toplevel(stmts):
    """Statements of a module or class body, looking through if/try/with."""
    for s in stmts:
        yield s
        if isinstance(s, (ast.If, ast.With)):
            yield from toplevel(s.body)
            if isinstance(s, ast.If):
                yield from toplevel(s.orelse)
        elif isinstance(s, ast.Try):
            yield from toplevel(s.body)
            for h in s.handlers:
                yield from toplevel(h.body)
            yield from toplevel(s.orelse)
            yield from toplevel(s.finalbody)


class Model:
    def __init__(self, root, pkg='metaknowledge', overlay=None):
        self.root, self.pkg = root, pkg
        self.mods, self.funcs, self.classes = {}, {}, {}
        self.overlay = overlay or {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory {} is missing'.format(base))
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for m in self.mods.values():
            self._link(m)
        self._mro_cache = {}

    # ---- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        pkg = False
        if parts[-1] == '__init__':
            parts, pkg = parts[:-1], True
        name = '.'.join(parts)
        if rel in self.overlay:
            src = self.overlay[rel]
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisBroken('{} does not parse: {}'.format(rel, e))
        m = Module(name, rel, path, tree, src, pkg)
        self.mods[name] = m
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        for s in toplevel(tree.body):
            if isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = self._func(s, m, None, None)
            elif isinstance(s, ast.ClassDef):
                c = Cls(name + ':' + s.name, s.name, s, m)
                m.classes[s.name] = c
                self.classes[c.cid] = c
                for t in toplevel(s.body):
                    if isinstance(t, ast.FunctionDef):
                        fn = self._func(t, m, c, None)
                        decs = [self._decname(d) for d in t.decorator_list]
                        if 'property' in decs or 'cached_property' in decs:
                            c.props[t.name] = fn
                        elif any(d.endswith('.setter') or d.endswith('.deleter') for d in decs):
                            c.props.setdefault('=' + t.name, fn)
                        else:
                            c.methods[t.name] = fn
                    elif isinstance(t, ast.Assign):
                        for tg in t.targets:
                            if isinstance(tg, ast.Name):
                                c.attrs[tg.id] = t.value
                                # alias of a method: __radd__ = __add__
                                if isinstance(t.value, ast.Name) and t.value.id in c.methods:
                                    c.methods[tg.id] = c.methods[t.value.id]
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        m.assigns.setdefault(tg.id, []).append(s)
                    elif isinstance(tg, (ast.Tuple, ast.List)):
                        for e in tg.elts:
                            if isinstance(e, ast.Name):
                                m.assigns.setdefault(e.id, []).append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.assigns.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                m.assigns.setdefault(s.target.id, []).append(s)
        # imports anywhere in the module (function level imports included)
        for s in ast.walk(tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                        if '.' in a.name:
                            m.imports.setdefault('.' + a.name, ('mod', a.name))
            elif isinstance(s, ast.ImportFrom):
                src = self._absmod(m, s)
                for a in s.names:
                    m.imports[a.asname or a.name] = ('from', src, a.name)

    @staticmethod
    def _decname(d):
        parts = []
        while isinstance(d, ast.Attribute):
            parts.append(d.attr)
            d = d.value
        if isinstance(d, ast.Call):
            return Model._decname(d.func)
        if isinstance(d, ast.Name):
            parts.append(d.id)
        return '.'.join(reversed(parts))

    def _absmod(self, m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        if not m.pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        return '.'.join(parts + ([s.module] if s.module else []))

    def _func(self, node, m, cls, parent):
        qual = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        kind = 'func'
        if cls is not None and parent is None:
            qual = cls.name + '.' + qual
            kind = 'method'
            decs = [self._decname(d) for d in node.decorator_list]
            if 'staticmethod' in decs:
                kind = 'static'
            elif 'classmethod' in decs:
                kind = 'class'
        if parent is not None:
            qual = parent.qual + '.' + qual
        fid = m.name + ':' + qual
        base, i = fid, 1
        while fid in self.funcs:
            i += 1
            fid = '{}#{}'.format(base, i)
        f = Func(fid, getattr(node, 'name', '<lambda>'), qual, node, m, cls, parent, kind)
        node._func = f
        self.funcs[fid] = f
        stack = list(ast.iter_child_nodes(node))
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                f.nested[id(n)] = self._func(n, m, cls, f)
                continue
            stack.extend(ast.iter_child_nodes(n))
        return f

    def _link(self, m):
        for c in m.classes.values():
            for b in c.node.bases:
                c.bases.append(self.resolve_expr(m, b))

    # ---- resolution
    def resolve(self, m, name, depth=0):
        """What `name` denotes at module level of m:
        ('f', Func) ('k', Cls) ('m', modname) ('g', modname, name) ('x', dotted) or None"""
        if depth > 12:
            return None
        if name in m.funcs:
            return ('f', m.funcs[name])
        if name in m.classes:
            return ('k', m.classes[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.mods:
                    return ('m', imp[1])
                return ('x', imp[1])
            return self._from(imp[1], imp[2], depth)
        if name in m.assigns:
            return ('g', m.name, name)
        return None

    def _from(self, src, name, depth=0):
        if src in self.mods:
            sub = src + '.' + name
            r = self.resolve(self.mods[src], name, depth + 1)
            if r is not None:
                return r
            if sub in self.mods:
                return ('m', sub)
            return None
        return ('x', src + '.' + name if src else name)

    def attr_of(self, r, name):
        """Attribute of a resolved module-ish thing."""
        if r is None:
            return None
        if r[0] == 'm':
            return self._from(r[1], name)
        if r[0] == 'x':
            return ('x', r[1] + '.' + name)
        if r[0] == 'k':
            fn = self.method(r[1], name)
            if fn is not None:
                return ('f', fn)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            return r if r is not None else ('x', e.id)
        if isinstance(e, ast.Attribute):
            r = self.attr_of(self.resolve_expr(m, e.value), e.attr)
            return r
        return None

    # ---- classes
    def mro(self, c):
        if c.cid in self._mro_cache:
            return self._mro_cache[c.cid]
        seqs = []
        for b in c.bases:
            if b and b[0] == 'k':
                seqs.append(list(self.mro(b[1])))
            elif b and b[0] == 'x':
                seqs.append([b[1]])
        seqs.append([b[1] for b in c.bases if b and b[0] in ('k', 'x')])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro_cache[c.cid] = out
        return out

    def method(self, c, name, after=None):
        seen = after is None
        for k in self.mro(c):
            if not seen:
                if k is after:
                    seen = True
                continue
            if isinstance(k, Cls) and name in k.methods:
                return k.methods[name]
        return None

    def prop(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls):
                if name in k.props:
                    return k.props[name]
                if name in k.methods:
                    return None
        return None

    def is_subclass(self, c, d):
        """c, d: Cls or dotted outside names"""
        if isinstance(c, Cls):
            return any(k is d or k == d for k in self.mro(c))
        return c == d

    def subclasses(self, c):
        return [k for k in self.classes.values() if k is not c and self.is_subclass(k, c)]

    def cls(self, name):
        hits = [c for c in self.classes.values() if c.name == name]
        if not hits:
            raise AnalysisBroken('class {} not found'.format(name))
        return hits[0]

    def func(self, qual, mod=None, missing_ok=False):
        hits = [f for f in self.funcs.values() if f.qual == qual and (mod is None or f.mod.name.endswith(mod))]
        if not hits:
            if missing_ok:
                return None
            raise AnalysisBroken('function {} not found'.format(qual))
        return hits[0]

    def meth(self, clsname, name, missing_ok=False):
        f = self.method(self.cls(clsname), name) or self.prop(self.cls(clsname), name)
        if f is None and not missing_ok:
            raise AnalysisBroken('method {}.{} not found'.format(clsname, name))
        return f

    def public_functions(self):
        """Module-level functions and methods with public names (and dunders)."""
        for f in self.funcs.values():
            if f.parent is None:
                yield f
