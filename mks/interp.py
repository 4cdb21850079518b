"""Path-sensitive abstract interpreter over the package's syntax trees.

No analysed code is executed: values are interned terms (value numbers), heap
objects are allocation sites, branches on undecided atoms are followed both
ways with the atom recorded, loops over unknown data are analysed for one
arbitrary iteration (loop-carried variables are forgotten first), and calls to
package functions are interpreted in place up to a depth, so extracting a
helper or rewriting a loop does not change what is concluded.  Rule clients
receive events (calls, mutations, stores, returns, raises) together with the
abstract state at that point.
"""
import ast

from .model import Cls, Func, is_generator

_intern = {}


class Term(tuple):
    """interned tuple: compared by identity, hashed by creation number"""

    def __hash__(self):
        return self.n

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def T(*a):
    t = _intern.get(a)
    if t is None:
        t = Term(a)
        t.n = len(_intern) + 1
        _intern[a] = t
    return t


def order(t):
    return t.n


def C(v):
    return T('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
UNDEF = T('undef')
NOTIMPL = T('x', 'NotImplemented')


def is_c(t):
    return t[0] == 'c'


def cval(t):
    return t[2]


def J(vals):
    s = set()
    for v in vals:
        if v[0] == 'j':
            s |= v[1]
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    return T('j', frozenset(s))


def alts(t):
    return list(t[1]) if t[0] == 'j' else [t]


_subcache = {}


def subterms(t):
    """all sub-terms of t (t included)"""
    r = _subcache.get(t)
    if r is None:
        out = {t}
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= subterms(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= subterms(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and z and isinstance(z[0], str):
                                out |= subterms(z)
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, tuple):
                        out |= subterms(y)
        _subcache[t] = r = frozenset(out)
    return r


def outside_el(t, sub):
    """sub occurs in t other than inside `an element of ...`"""
    if t == sub:
        return True
    if t[0] == 'el':
        return False
    return any(outside_el(x, sub) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or any(
        outside_el(y, sub) for x in t[1:] if isinstance(x, (tuple, frozenset)) and not (x and isinstance(x, tuple) and isinstance(x[0], str))
        for y in x if isinstance(y, tuple) and y and isinstance(y[0], str))


def mentions(t, sub):
    return sub in subterms(t)


_depth = {}


def depth(t):
    d = _depth.get(t)
    if d is None:
        d = 1
        for x in t[1:]:
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    d = max(d, depth(x) + 1)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            d = max(d, depth(y) + 1)
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, tuple) and y:
                        d = max(d, depth(y) + 1)
        _depth[t] = d
    return d


def show(t, n=0):
    """short readable rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if n > 6:
        return '...'
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 'p':
        return t[1]
    if k == 'at':
        return '{}.{}'.format(show(t[1], n + 1), t[2])
    if k == 'it':
        return '{}[{}]'.format(show(t[1], n + 1), show(t[2], n + 1))
    if k == 'el':
        return 'each({})'.format(show(t[1], n + 1))
    if k == 'cmp':
        return '({} {} {})'.format(show(t[2], n + 1), t[1], show(t[3], n + 1))
    if k == 'truth':
        return 'bool({})'.format(show(t[1], n + 1))
    if k == 'meth':
        return '{}.{}'.format(show(t[1], n + 1), t[2])
    if k == 'call':
        return '{}({})'.format(show(t[1], n + 1), ', '.join(show(x, n + 1) for x in t[2]))
    if k == 'x':
        return t[1]
    if k == 'tup':
        return '({})'.format(', '.join(show(x, n + 1) for x in t[1:]))
    if k == 'j':
        return '{' + ' | '.join(sorted(show(x, n + 1) for x in t[1])) + '}'
    if k == 'f':
        return t[1].split(':')[-1]
    if k == 'k':
        return t[1].split(':')[-1]
    if k == 'r':
        return '<{}>'.format(t[1][0])
    if k == 'bin':
        return '({} {} {})'.format(show(t[2], n + 1), t[1], show(t[3], n + 1))
    if k == 'kw':
        return '{}={}'.format(t[1], show(t[2], n + 1))
    return '{}{}'.format(k, tuple(show(x, n + 1) if isinstance(x, tuple) else x for x in t[1:2]))


def either(common, a, b):
    """the condition that the rest of a or the rest of b holds (None: too large)"""
    conj = set()
    for c in (a, b):
        rest = {k: v for k, v in c.items() if common.get(k) != v}
        if len(rest) == 1 and next(iter(rest))[0] == 'dnf':
            conj |= set(next(iter(rest))[1:])
        else:
            conj.add(T('conj', *[T('lit', k, C(v)) for k, v in sorted(rest.items(), key=lambda x: order(x[0]))]))
    if len(conj) > 24 or sum(len(x) for x in conj) > 80:
        return None
    return T('dnf', *sorted(conj, key=order))


class HObj:
    __slots__ = ('kind', 'cls', 'seq', 'slots', 'bag', 'src', 'alg', 'depth', 'node', 'exact')

    def __init__(self, kind, cls=None, seq=None, slots=None, bag=frozenset(), src=None, alg=None, depth=0, node=None, exact=True):
        self.kind, self.cls, self.seq, self.slots, self.bag = kind, cls, seq, slots or {}, bag
        self.src, self.alg, self.depth, self.node, self.exact = src, alg, depth, node, exact

    def replace(self, **kw):
        o = HObj.__new__(HObj)
        for s in HObj.__slots__:
            setattr(o, s, kw[s] if s in kw else getattr(self, s))
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.seq == o.seq and self.slots == o.slots and self.bag == o.bag
                             and self.src == o.src and self.alg == o.alg and self.exact == o.exact)


class State:
    __slots__ = ('frames', 'cur', 'heap', 'sym', 'conds', 'facts', 'loops')

    def __init__(self):
        self.frames, self.cur, self.heap, self.sym = {}, None, {}, {}
        self.conds, self.facts, self.loops = {}, {}, ()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.sym = dict(self.sym)
        s.conds = dict(self.conds)
        s.facts = dict(self.facts)
        s.loops = self.loops
        return s

    def getvar(self, fid, name):
        return self.frames[fid][1].get(name)

    def setvar(self, name, v, fid=None):
        fid = self.cur if fid is None else fid
        parent, env = self.frames[fid]
        env = dict(env)
        env[name] = v
        self.frames[fid] = (parent, env)

    def delvar(self, name):
        parent, env = self.frames[self.cur]
        env = dict(env)
        env.pop(name, None)
        self.frames[self.cur] = (parent, env)

    def same(self, o):
        if self.cur != o.cur or self.facts != o.facts or self.sym != o.sym:
            return False
        if self.frames != o.frames:
            return False
        if self.heap.keys() != o.heap.keys():
            return False
        return all(v.same(o.heap[k]) for k, v in self.heap.items())


class Flow:
    __slots__ = ('normal', 'brk', 'cont')

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.brk, self.cont = [], []


class Act:
    """one activation of a function being interpreted"""
    __slots__ = ('fn', 'fid', 'returns', 'globals', 'nonlocals', 'gen', 'locals', 'callsite')

    def __init__(self, fn, fid, callsite=None):
        self.fn, self.fid = fn, fid
        self.returns = []
        self.globals, self.nonlocals = set(), set()
        self.gen = None
        self.callsite = callsite
        self.locals = local_names(fn.node)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)


_locals_cache = {}


def local_names(node):
    r = _locals_cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    glob = set()
    stack = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to the comprehension: keep walking for walrus only
            stack.extend(c for c in ast.iter_child_nodes(n) if not isinstance(c, ast.comprehension))
            for g in n.generators:
                stack.append(g.iter)
                stack.extend(g.ifs)
            continue
        stack.extend(ast.iter_child_nodes(n))
    names -= glob
    _locals_cache[id(node)] = (node, names)
    return names


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            stack.extend(c for c in ast.iter_child_nodes(n) if not isinstance(c, ast.comprehension))
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse'}
SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update',
           'symmetric_difference_update'}
GROW = {'append', 'add', 'extend', 'insert', 'remove', 'discard'}
DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__', 'move_to_end'}
GRAPH_MUT = {'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'add_weighted_edges_from', 'remove_node',
             'remove_nodes_from', 'remove_edge', 'remove_edges_from', 'clear_edges', 'add_star', 'add_path', 'add_cycle'}
MUTATORS = LIST_MUT | SET_MUT | DICT_MUT | GRAPH_MUT
SETOPS = {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
STR_METHODS = {'upper', 'lower', 'title', 'strip', 'rstrip', 'lstrip', 'replace', 'format', 'join', 'rjust', 'ljust',
               'encode', 'decode', 'capitalize', 'startswith', 'endswith', 'split', 'rsplit', 'splitlines', 'isspace',
               'isdigit', 'partition', 'center', 'swapcase', 'expandtabs', 'zfill'}
FRESH_FUNCS = {'list', 'dict', 'set', 'tuple', 'sorted', 'frozenset', 'str', 'int', 'float', 'len', 'bytes', 'bool', 'repr',
               'collections.OrderedDict', 'range', 'min', 'max', 'sum', 'abs', 'format', 'hash'}
NORAISE = {'append', 'add', 'discard', 'len', 'str', 'repr', 'isinstance', 'print', 'type', 'bool', 'keys', 'values', 'items',
           'format', 'upper', 'lower', 'strip', 'startswith', 'endswith', 'enumerate', 'zip', 'hasattr', 'id', 'range',
           'get', 'replace', 'setdefault', 'has_edge', 'has_node', 'list', 'dict', 'set', 'tuple', 'copy', 'join'}


class Client:
    """default client: override what a rule needs"""
    max_states = 48
    handler_states = 6     # paths kept into an exception handler
    exact_conds = False    # never merge paths whose conditions say different things
    max_depth = 5
    unroll = 14

    def inline(self, eng, fn, st):
        return True

    def on_call(self, eng, st, node, name, recv, args, kw):
        return None

    def on_enter(self, eng, st, fn, args):
        pass

    def on_mutate(self, eng, st, node, target, how, value=None):
        pass

    def on_put(self, eng, st, r, k, v, node):
        """a key of a dictionary comprehension"""

    def on_add(self, eng, st, r, v, node):
        """an element goes into a container the code made"""

    def on_return(self, eng, st, fn, value, node):
        pass

    def on_raise(self, eng, st, node, exc):
        pass

    def on_global_store(self, eng, st, node, mod, name, value):
        pass

    def on_undef(self, eng, st, node, name, maybe):
        pass

    def on_loop(self, eng, st, node, phase, it):
        pass

    def on_with(self, eng, st, node, phase, ctx):
        pass

    def on_branch(self, eng, st, node, atom, val):
        pass

    def on_handler(self, eng, st, handler, exc):
        pass

    def on_stmt(self, eng, st, node):
        pass

    def join_fact(self, k, a, b):
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a | b
        return None

    def type_of(self, eng, st, term):
        return None

    def const_global(self, eng, modname, name):
        return None

    def fork_item(self, eng, st, b, k):
        """should a lookup nobody guards be analysed with the key missing, too?"""
        return False

    def decide(self, eng, st, atom):
        """fix the truth of an atom (None: follow both ways)"""
        return None


PYTYPES = {'list', 'set', 'dict', 'tuple', 'str', 'int', 'float', 'bool', 'bytes', 'frozenset'}


class Budget(Exception):
    pass


class Engine:
    def __init__(self, model, client, max_steps=250000):
        self.lossy = 0
        self.slices = {}       # partial copies of lists: {ref: {(list, slice)}}
        self.made = {}         # how lists were made from others: {ref: {(how, iterable, node)}}
        self.m, self.c = model, client
        self.acts = []
        self.raisers = []        # stack of (list, set-of-handled-names or None)
        self.steps = 0
        self.max_steps = max_steps
        self.ptypes = {}
        self.ctxpath = ()
        self.carried = {}      # loop -> containers that its iterations add to
        self.undecided = []

    # ------------------------------------------------------------------ utils
    @property
    def fn(self):
        return self.acts[-1].fn

    def where(self, node):
        return '{}:{} in {}'.format(self.fn.mod.rel, getattr(node, 'lineno', '?'), self.fn.qual)

    def site(self, node):
        return (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.fn.fid, self.ctxpath)

    def alloc(self, st, node, kind, tag='', **kw):
        oid = (kind + tag,) + self.site(node)
        kw.setdefault('depth', len(st.loops))
        st.heap[oid] = HObj(kind, node=node, **kw)
        # a fresh object: forget what was known about the previous iteration's one
        for k in [k for k in st.sym if k[0] == T('r', oid)]:
            del st.sym[k]
        return T('r', oid)

    def obj(self, st, t):
        return st.heap.get(t[1]) if t[0] == 'r' else None

    def setobj(self, st, t, o):
        st.heap[t[1]] = o

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()

    # ------------------------------------------------------------------ types
    def type_of(self, st, t):
        """Cls | builtin type name string | None"""
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'tup':
            return 'tuple'
        if k == 'r':
            o = st.heap.get(t[1])
            if o is None:
                return None
            return o.cls if o.kind == 'inst' and o.cls is not None else o.kind
        if k == 'p' and t[1] in self.ptypes:
            return self.ptypes[t[1]]
        if k == 'fstr':
            return 'str'
        if k == 'cmp' or k == 'truth':
            return 'bool'
        if k == 'j':
            ts = {self.type_of(st, x) for x in t[1]}
            return next(iter(ts)) if len(ts) == 1 else None
        if k in ('enum', 'zip', 'range'):
            return k
        if k == 'call':
            f = t[1]
            if f[0] == 'x' and f[1] in ('len', 'int', 'hash', 'abs'):
                return 'int'
            if f[0] == 'x' and f[1] in ('str', 'repr', 'os.path.join', 'os.path.abspath', 'os.path.expanduser', 'os.path.realpath',
                                        'os.path.normpath', 'os.path.basename', 'os.path.dirname'):
                return 'str'
            if f[0] == 'x' and f[1] in ('float', 'bool', 'bytes'):
                return f[1]
            if f[0] == 'meth' and f[2] in STR_METHODS and f[2] not in ('split', 'rsplit', 'splitlines', 'partition', 'startswith',
                                                                     'endswith', 'isspace', 'isdigit', 'encode', 'decode'):
                return 'str'
        if k == 'bin':
            if t[1] == '+':
                a, b = self.type_of(st, t[2]), self.type_of(st, t[3])
                return a if a in ('str', 'list', 'tuple') else b if b in ('str', 'list', 'tuple') else (a if a == b else None)
            if t[1] == '%' and self.type_of(st, t[2]) == 'str':
                return 'str'
        r = self.c.type_of(self, st, t)
        return r

    # ------------------------------------------------------------------ conds
    def norm_atom(self, st, t):
        """(atom, polarity)"""
        pol = True
        while t[0] == 'not':
            t, pol = t[1], not pol
        if t[0] == 'call' and t[1] == T('x', 'bool') and len(t[2]) == 1:
            return self.norm_atom2(st, t[2][0], pol)
        return self.norm_atom2(st, t, pol)

    def norm_atom2(self, st, t, pol):
        while t[0] == 'not':
            t, pol = t[1], not pol
        if t[0] == 'cmp':
            op, a, b = t[1], t[2], t[3]
            if op == '!=':
                op, pol = '==', not pol
            elif op == 'is not':
                op, pol = 'is', not pol
            elif op == 'not in':
                op, pol = 'in', not pol
            elif op == '>':
                op, a, b = '<', b, a
            elif op == '>=':
                op, a, b = '<=', b, a
            if op == '==' and b == NONE:
                op = 'is'
            if op == '==' and a == NONE:
                op, a, b = 'is', b, a
            if op in ('==', 'is') and is_c(a) and not is_c(b):
                a, b = b, a
            # len comparisons
            la = a[0] == 'call' and a[1] == T('x', 'len') and len(a[2]) == 1
            lb = b[0] == 'call' and b[1] == T('x', 'len') and len(b[2]) == 1
            if la and is_c(b) and isinstance(b[2], int):
                n = b[2]
                if (op == '<' and n == 1) or (op == '<=' and n == 0) or (op == '==' and n == 0):
                    return T('truth', a[2][0]), not pol
            if lb and is_c(a) and isinstance(a[2], int):
                n = a[2]
                if (op == '<' and n == 0) or (op == '<=' and n == 1):
                    return T('truth', b[2][0]), pol
            return T('cmp', op, a, b), pol
        if t[0] == 'call' and t[1] == T('x', 'len') and len(t[2]) == 1:
            return T('truth', t[2][0]), pol
        if t[0] in ('call', 'truth'):
            return t, pol
        return T('truth', t), pol

    def known(self, st, t):
        """True/False/None"""
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k == 'not':
            r = self.known(st, t[1])
            return None if r is None else not r
        if k in ('f', 'k', 'm', 'bm'):
            return True
        if k == 'tup':
            return len(t) > 1
        if k == 'r':
            v = self.known_obj(st, t)
            if v is not None:
                return v
        if k == 'j':
            rs = {self.known(st, x) for x in t[1]}
            return next(iter(rs)) if len(rs) == 1 else None
        if k == 'undef':
            return None
        atom, pol = self.norm_atom(st, t)
        r = self.atom_value(st, atom)
        return None if r is None else (r == pol)

    def known_obj(self, st, t):
        o = st.heap.get(t[1])
        if o is None:
            return None
        if o.kind in ('list', 'set', 'dict'):
            if o.exact and o.seq is not None:
                if not o.seq and any(t[1] in self.carried.get(x, ()) for x in st.loops):
                    return None         # earlier iterations may have added to it
                return len(o.seq) > 0
            if o.kind == 'dict' and o.exact and not o.bag and o.src is None:
                return len(o.slots) > 0
        elif o.kind == 'file':
            return True
        elif o.kind == 'inst' and isinstance(o.cls, Cls) and not self.m.method(o.cls, '__bool__') \
                and not self.m.method(o.cls, '__len__'):
            return True
        return None

    def atom_value(self, st, atom):
        if atom in st.conds:
            return st.conds[atom]
        v = self.c.decide(self, st, atom)
        if v is not None:
            return v
        if atom[0] == 'truth' and atom[1][0] == 'r':
            v = self.known_obj(st, atom[1])
            if v is not None:
                return v
        if atom[0] == 'truth' and is_c(atom[1]):
            return bool(atom[1][2])
        if atom[0] == 'truth' and atom[1][0] == 'excval':
            return True
        if atom[0] == 'truth' and st.conds.get(T('cmp', 'is', atom[1], NONE)) is True:
            return False
        if atom[0] == 'truth':
            for tv in (True, False):
                if st.conds.get(T('cmp', 'is', atom[1], C(tv))) is True or st.conds.get(T('cmp', '==', atom[1], C(tv))) is True:
                    return tv
        if atom[0] == 'cmp':
            op, a, b = atom[1], atom[2], atom[3]
            v = self.fold_cmp(st, op, a, b)
            if v is not None:
                return v
            if op == 'is' and b == NONE:
                if a[0] == 'excval':
                    return False
                if st.conds.get(T('truth', a)) is True:
                    return False
                for k, v in st.conds.items():
                    if v and k[0] == 'cmp' and k[1] == '==' and k[2] == a and is_c(k[3]):
                        return False
            if op == '==' and is_c(b):
                for k, v in st.conds.items():
                    if v and k[0] == 'cmp' and k[1] in ('==', 'is') and k[2] == a and is_c(k[3]) and k[3] != b:
                        return False
                if b[2] and st.conds.get(T('truth', a)) is False:
                    return False
            if op == '==' and a == b:
                return True
            if op == '<=' and a == b:
                return True
            if op == '<' and a == b:
                return False
            if op == '<=' and st.conds.get(T('cmp', '<', a, b)) is True:
                return True
            if op == '<=' and st.conds.get(T('cmp', '<', b, a)) is not None:
                return not st.conds[T('cmp', '<', b, a)]
            if op == '<' and st.conds.get(T('cmp', '<=', b, a)) is not None:
                return not st.conds[T('cmp', '<=', b, a)]
        return None

    def fold_cmp(self, st, op, a, b):
        if is_c(a) and is_c(b):
            x, y = a[2], b[2]
            try:
                if op == '==':
                    return x == y
                if op == 'is':
                    return a == b
                if op == '<':
                    return x < y
                if op == '<=':
                    return x <= y
                if op == 'in':
                    return x in y
            except TypeError:
                return None
        if op in ('is', '=='):
            if b == NONE:
                ty = self.type_of(st, a)
                if ty == 'NoneType':
                    return True
                if a[0] in ('r', 'tup', 'f', 'k', 'm', 'bm', 'fstr', 'cmp') or (ty is not None and a[0] != 'j'):
                    return False
            if a[0] == 'k' and b[0] == 'k':
                return a == b
            if a[0] in 'kx' and b[0] in 'kx' and (a[0] == 'k' or a[1] in PYTYPES) and (b[0] == 'k' or b[1] in PYTYPES):
                return a == b
            if a == b and op == 'is':
                return True
        if op == 'in':
            els = None
            if b[0] == 'tup':
                els = b[1:]
            elif b[0] == 'r':
                o = st.heap.get(b[1])
                if o is not None and o.kind in ('list', 'set') and o.exact and o.seq is not None:
                    if a in o.seq:
                        return True
                    if not any(b[1] in self.carried.get(x, ()) for x in st.loops):
                        els = o.seq
                elif o is not None and o.kind == 'dict' and o.exact and not o.bag and o.src is None:
                    els = tuple(o.slots)
                    if a in o.slots:
                        return True
            if els is not None:
                if a in els:
                    return True
                if is_c(a) and all(is_c(e) for e in els):
                    return any(cval(e) == cval(a) for e in els)
                if not els:
                    return False
                if all(is_c(e) for e in els):
                    vals = [self.atom_value(st, T('cmp', '==', a, e)) for e in els]
                    if any(v is True for v in vals):
                        return True
                    if all(v is False for v in vals):
                        return False
        return None

    def assume(self, st, t, val):
        """state copies in which t has truth value val (possibly empty)"""
        k = self.known(st, t)
        if k is not None:
            return [st] if k == val else []
        atom, pol = self.norm_atom(st, t)
        v = val == pol
        # membership in a literal collection of constants: split
        if atom[0] == 'cmp' and atom[1] == 'in' and v:
            els = None
            b = atom[3]
            if b[0] == 'tup':
                els = b[1:]
            elif b[0] == 'r':
                o = st.heap.get(b[1])
                if o is not None and o.kind in ('list', 'set') and o.exact and o.seq is not None:
                    els = o.seq
            if els and len(els) <= 8 and all(is_c(e) for e in els):
                out = []
                for e in els:
                    if self.atom_value(st, T('cmp', '==', atom[2], e)) is False:
                        continue
                    s = st.copy()
                    s.conds[T('cmp', '==', atom[2], e)] = True
                    s.conds[atom] = True
                    out.append(s)
                return out
        s = st.copy()
        s.conds[atom] = v
        return [s]

    def drop_conds(self, st, t):
        # an element taken out earlier keeps its own properties when its container changes
        dead = [a for a in st.conds if t in subterms(a) and outside_el(a, t) and not (a[0] == 'cmp' and a[1] == 'is' and a[3] == NONE)
                and not (a[0] == 'call' and a[1] == T('x', 'isinstance'))]
        for a in dead:
            del st.conds[a]

    def fork(self, st, t, node=None):
        """[(True, state), (False, state)] for the truth of t"""
        k = self.known(st, t)
        if k is not None:
            return [(k, st)]
        out = []
        for v in (True, False):
            for s in self.assume(st, t, v):
                out.append((v, s))
        return out

    # ------------------------------------------------------------------ joins
    def join2(self, a, b):
        s = a.copy()
        for fid in list(s.frames):
            if fid not in b.frames:
                continue
            pa, ea = a.frames[fid]
            pb, eb = b.frames[fid]
            if ea is eb or ea == eb:
                continue
            e = {}
            for n in set(ea) | set(eb):
                va, vb = ea.get(n, UNDEF), eb.get(n, UNDEF)
                e[n] = va if va == vb else J([va, vb])
            s.frames[fid] = (pa, e)
        for fid in b.frames:
            if fid not in s.frames:
                s.frames[fid] = b.frames[fid]
        for oid, ob in b.heap.items():
            oa = s.heap.get(oid)
            if oa is None:
                s.heap[oid] = ob
            elif not oa.same(ob):
                s.heap[oid] = self.join_obj(oa, ob)
        sym = {}
        for k in set(a.sym) | set(b.sym):
            va, vb = a.sym.get(k), b.sym.get(k)
            if va == vb:
                sym[k] = va
            else:
                if k[1][0] == 'alg':
                    base = T('base', k[0])
                    sym[k] = T('alt', va or base, vb or base)
                elif k[1][0] == 'glob':
                    sym[k] = J([va if va is not None else k[0], vb if vb is not None else k[0]])
                else:
                    dflt = T('at', k[0], k[1][1]) if k[1][0] == 'a' else T('it', k[0], k[1][1])
                    sym[k] = J([va if va is not None else dflt, vb if vb is not None else dflt])
        s.sym = sym
        s.conds = {k: v for k, v in a.conds.items() if b.conds.get(k) == v}
        facts = {}
        for k in set(a.facts) | set(b.facts):
            va, vb = a.facts.get(k), b.facts.get(k)
            if va == vb:
                facts[k] = va
            else:
                j = self.c.join_fact(k, va, vb)
                if j is not None:
                    facts[k] = j
        s.facts = facts
        return s

    def join_obj(self, a, b):
        if a.seq is not None and a.seq == b.seq:
            seq, bag = a.seq, a.bag | b.bag
        else:
            bag = a.bag | b.bag
            for o in (a, b):
                if o.seq is not None:
                    bag |= frozenset((x, frozenset()) for x in o.seq)
            seq = None
        slots = {}
        for k in list(a.slots) + [k for k in b.slots if k not in a.slots]:
            va, vb = a.slots.get(k), b.slots.get(k)
            slots[k] = va if va == vb else J([v if v is not None else UNDEF for v in (va, vb)])
        alg = a.alg if a.alg == b.alg else T('alt', a.alg or T('top'), b.alg or T('top'))
        return a.replace(seq=seq, bag=bag, slots=slots, src=a.src if a.src == b.src else None, alg=alg,
                         exact=a.exact and b.exact and (seq is not None or a.kind == 'inst'))

    def prune(self, states, cap=None):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for i, o in enumerate(out):
                if s.same(o):
                    if s.conds != o.conds:
                        common = {k: v for k, v in s.conds.items() if o.conds.get(k) == v}
                        if self.c.exact_conds and len(common) < min(len(s.conds), len(o.conds)) and not (
                                len(s.conds) == len(o.conds) == len(common) + 1 and s.conds.keys() == o.conds.keys()):
                            d = either(common, s.conds, o.conds)
                            if d is None:
                                continue
                            common[d] = True
                        n = o.copy()
                        n.conds = common
                        out[i] = n
                    break
            else:
                out.append(s)
        cap = cap or self.c.max_states
        if len(out) > cap:
            self.lossy += 1
            groups = {}
            for s in out:
                groups.setdefault(tuple(sorted((str(k), str(v)) for k, v in s.facts.items())), []).append(s)
            res = []
            share = max(1, cap // len(groups))
            for g in groups.values():
                while len(g) > share:
                    g.sort(key=lambda s: len(s.conds))
                    a = g.pop(0)
                    b = g.pop(0)
                    g.append(self.join2(a, b))
                res += g
            if len(res) > cap * 2:
                while len(res) > cap:
                    res.append(self.join2(res.pop(0), res.pop(0)))
            out = res
        return out

    # ------------------------------------------------------------------ raising
    def do_raise(self, st, exc, node, implicit=False):
        """exc: exception description ('KeyError' | Cls | 'ANY')"""
        if not implicit:
            self.c.on_raise(self, st, node, exc)
        self.raisers[-1][0].append((st, exc, node, implicit))

    def handled_here(self, name):
        for lst, names in reversed(self.raisers):
            if names is None:
                continue
            if 'ANY' in names or name in names or 'Exception' in names:
                return True
            if name in ('KeyError', 'IndexError') and 'LookupError' in names:
                return True
        return False

    def exc_matches(self, exc, handler_types):
        """does a handler catching handler_types (list of names/Cls, None=bare) take exc? True/False/'maybe'"""
        if handler_types is None:
            return True
        if exc == 'ANY':
            return 'maybe'
        for h in handler_types:
            hn = h.name if isinstance(h, Cls) else h
            if hn in ('Exception', 'BaseException'):
                if exc in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit') and hn == 'Exception':
                    continue
                return True
            if isinstance(exc, Cls):
                if isinstance(h, Cls) and self.m.is_subclass(exc, h):
                    return True
                for k in self.m.mro(exc):
                    n = k.name if isinstance(k, Cls) else k
                    if n == hn:
                        return True
            else:
                if exc == hn or hn in BUILTIN_EXC.get(exc, ()):
                    return True
        return False

    # ------------------------------------------------------------------ expressions
    def lookup(self, st, name, node):
        fid = st.cur
        act = self.acts[-1]
        if name in act.globals:
            return self.global_term(st, act.fn.mod, name)
        first = True
        while fid is not None:
            parent, env = st.frames[fid]
            if name in env:
                v = env[name]
                if v == UNDEF:
                    self.c.on_undef(self, st, node, name, False)
                    return T('unk', self.site(node))
                if v[0] == 'j' and UNDEF in v[1]:
                    self.c.on_undef(self, st, node, name, True)
                    rest = [x for x in v[1] if x != UNDEF]
                    return J(rest)
                return v
            if first and name in act.locals and act.fid == fid:
                self.c.on_undef(self, st, node, name, False)
                return T('unk', self.site(node))
            first = False
            fid = parent
        return self.global_term(st, self.fn.mod, name)

    def global_term(self, st, mod, name):
        key = (T('g', mod.name, name), ('glob',))
        if key in st.sym:
            return st.sym[key]
        r = self.m.resolve(mod, name)
        if r is None:
            return T('x', name)
        return self.res_term(r)

    def res_term(self, r):
        if r is None:
            return T('unk', 'res')
        if r[0] == 'f':
            return T('f', r[1].fid, None)
        if r[0] == 'k':
            return T('k', r[1].cid)
        if r[0] == 'm':
            return T('m', r[1])
        if r[0] == 'g':
            c = self.c.const_global(self, r[1], r[2])
            return c if c is not None else T('g', r[1], r[2])
        return T('x', r[1])

    def ev(self, e, st):
        """evaluate expression -> [(term, state)]"""
        self.tick()
        meth = getattr(self, 'ev_' + type(e).__name__, None)
        if meth is None:
            return [(T('unk', self.site(e)), st)]
        return meth(e, st)

    def ev1(self, e, st):
        """evaluate, keep a single state by preferring the first"""
        r = self.ev(e, st)
        return r[0]

    def ev_list(self, es, st):
        acc = [((), st)]
        for e in es:
            nxt = []
            for vals, s in acc:
                for v, s2 in self.ev(e, s):
                    nxt.append((vals + (v,), s2))
            acc = nxt
        return acc

    def ev_Constant(self, e, st):
        return [(C(e.value) if e.value is not Ellipsis else T('x', 'Ellipsis'), st)]

    def ev_Name(self, e, st):
        return [(self.lookup(st, e.id, e), st)]

    def ev_JoinedStr(self, e, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(T('fstr', tuple(self.with_spec(x, v) for x, v in zip(e.values, vals))), s) for vals, s in self.ev_list(parts, st)]

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def with_spec(self, e, v):
        """a value shown in a width or form of its own"""
        sp = e.format_spec if isinstance(e, ast.FormattedValue) else None
        if sp is not None and all(isinstance(x, ast.Constant) for x in sp.values) and ''.join(x.value for x in sp.values):
            return T('fmtv', v, C(''.join(x.value for x in sp.values)))
        return v

    def ev_NamedExpr(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            s = s.copy()
            s.setvar(e.target.id, v)
            out.append((v, s))
        return out

    def ev_Tuple(self, e, st):
        out = []
        for vals, s in self.ev_elts(e.elts, st):
            if any(v[0] == 'star' for v in vals):
                r = self.alloc(s, e, 'list', seq=None, bag=frozenset((v[1] if v[0] == 'star' else v, frozenset()) for v in vals), exact=False)
                out.append((r, s))
            else:
                out.append((T('tup', *vals), s))
        return out

    def ev_elts(self, elts, st):
        acc = [((), st)]
        for e in elts:
            nxt = []
            for vals, s in acc:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s):
                        ex = self.exact_elems(s2, v)
                        if ex is not None:
                            nxt.append((vals + tuple(ex), s2))
                        else:
                            nxt.append((vals + (T('star', self.elem(s2, v, e)),), s2))
                else:
                    for v, s2 in self.ev(e, s):
                        nxt.append((vals + (v,), s2))
            acc = nxt
        return acc

    def _mkseq(self, e, st, kind):
        out = []
        for vals, s in self.ev_elts(e.elts, st):
            s = s.copy()
            if any(v[0] == 'star' for v in vals):
                r = self.alloc(s, e, kind, seq=None, bag=frozenset((v[1] if v[0] == 'star' else v, frozenset()) for v in vals),
                               alg=T('top'), exact=False)
            else:
                r = self.alloc(s, e, kind, seq=vals, alg=T('lit', frozenset(vals)))
            out.append((r, s))
        return out

    def ev_List(self, e, st):
        return self._mkseq(e, st, 'list')

    def ev_Set(self, e, st):
        return self._mkseq(e, st, 'set')

    def ev_Dict(self, e, st):
        acc = [([], st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for items, s in acc:
                if k is None:
                    for vt, s2 in self.ev(v, s):
                        nxt.append((items + [(None, vt)], s2))
                else:
                    for kt, s1 in self.ev(k, s):
                        for vt, s2 in self.ev(v, s1):
                            nxt.append((items + [(kt, vt)], s2))
            acc = nxt
        out = []
        for items, s in acc:
            s = s.copy()
            slots, bag, exact = {}, frozenset(), True
            alg = T('lit', frozenset(k for k, v in items if k is not None))
            for k, v in items:
                if k is None:
                    alg = T('sop', '|', alg, self.content(s, v))
                    o = self.obj(s, v)
                    if o is not None and o.kind == 'dict' and o.exact:
                        slots.update(o.slots)
                    else:
                        exact = False
                        bag |= frozenset([(T('it', v, T('any')), frozenset())])
                else:
                    slots[k] = v
            out.append((self.alloc(s, e, 'dict', slots=slots, bag=bag, exact=exact, alg=alg), s))
        return out

    def ev_Lambda(self, e, st):
        return [(T('f', e._func.fid, st.cur), st)]

    def ev_IfExp(self, e, st):
        out = []
        for v, s in self.branch(e.test, st):
            out += self.ev(e.body if v else e.orelse, s)
        return out

    def branch(self, test, st):
        """[(bool, state)] for evaluating test as a condition"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            out, pend = [], [st]
            for i, sub in enumerate(test.values):
                nxt = []
                for s in pend:
                    for v, s2 in self.branch(sub, s):
                        if v != isand:
                            out.append((v, s2))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(isand, s) for s in pend]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not v, s) for v, s in self.branch(test.operand, st)]
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            out = []
            for vals, s in self.ev_list([test.left] + test.comparators, st):
                pend = [s]
                for i, op in enumerate(test.ops):
                    c = T('cmp', CMPS[type(op)], vals[i], vals[i + 1])
                    nxt = []
                    for p in pend:
                        for v, s2 in self.fork(p, c, test):
                            if v:
                                nxt.append(s2)
                            else:
                                out.append((False, s2))
                    pend = nxt
                out += [(True, p) for p in pend]
            return out
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ('any', 'all') and len(test.args) == 1 \
                and isinstance(test.args[0], (ast.GeneratorExp, ast.ListComp)) and self.m.resolve(self.fn.mod, test.func.id) is None:
            r = self.branch_anyall(test, st)
            if r is not None:
                return r
        out = []
        for t, s in self.ev(test, st):
            fk = self.fork(s, t, test)
            for v, s2 in fk:
                self.c.on_branch(self, s2, test, t, v)
                out.append((v, s2))
        return out

    def branch_anyall(self, test, st):
        g = test.args[0]
        if len(g.generators) != 1:
            return None
        gen = g.generators[0]
        isany = test.func.id == 'any'
        out = []
        for it, s in self.ev(gen.iter, st):
            ex = self.exact_elems(s, it)
            if ex is None or len(ex) > self.c.unroll:
                out += self.branch_exists(test, g, gen, it, s, isany)
                continue
            pend = [s]
            for x in ex:
                nxt = []
                for p in pend:
                    p = p.copy()
                    for p2 in self.bind(gen.target, x, p, g):
                        ok = [(True, p2)]
                        for cnd in gen.ifs:
                            ok = [(v and b, q2) for v, q in ok for b, q2 in (self.branch(cnd, q) if v else [(False, q)])]
                        for keep, q in ok:
                            if not keep:
                                nxt.append(q)
                                continue
                            for v, q2 in self.branch(g.elt, q):
                                if v == isany:
                                    out.append((isany, q2))
                                else:
                                    nxt.append(q2)
                pend = nxt
            out += [(not isany, p) for p in pend]
        return out

    def branch_exists(self, test, g, gen, it, s, isany):
        """any(...) over unknown data: some element passes (its conditions hold), or none does"""
        out = []
        n = len(s.loops)
        inner = s.copy()
        inner.loops = inner.loops + (self.site(g) + (0,),)
        x = self.elem(inner, it, gen.iter)
        for a in [a for a in inner.conds if any(y in subterms(a) for y in subterms(x) if y[0] == 'el' and y not in subterms(it))]:
            del inner.conds[a]
        self.c.on_loop(self, inner, g, 'enter', it)
        names = {y.id for y in ast.walk(gen.target) if isinstance(y, ast.Name)}
        env = s.frames[s.cur][1]
        saved = {y: env.get(y) for y in names}
        def leave(q):
            q = q.copy()
            q.loops = q.loops[:n]
            for y, v in saved.items():
                if v is None:
                    q.delvar(y)
                else:
                    q.setvar(y, v)
            return q
        rest = False
        for p in self.bind(gen.target, x, inner, g):
            ok = [(True, p)]
            for cnd in gen.ifs:
                ok = [(v and b, q2) for v, q in ok for b, q2 in (self.branch(cnd, q) if v else [(False, q)])]
            for keep, q in ok:
                if not keep:
                    continue
                for v, q2 in self.branch(g.elt, q):
                    if v == isany:
                        out.append((isany, leave(q2)))
        q = s.copy()
        none = self.none_of(it, x, s, [p for v, p in out if v == isany])
        if none is not None:
            q.conds[none] = True
        out.append((not isany, q))
        return out

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, pend = [], [st]
        for i, sub in enumerate(e.values):
            nxt = []
            for s in pend:
                for t, s2 in self.ev(sub, s):
                    if i == len(e.values) - 1:
                        out.append((t, s2))
                        continue
                    for v, s3 in self.fork(s2, t, sub):
                        if v != isand:
                            out.append((t if not self._boolish(t) else C(v), s3))
                        else:
                            nxt.append(s3)
            pend = nxt
        return out

    @staticmethod
    def _boolish(t):
        return t[0] in ('cmp', 'truth', 'not')

    def ev_UnaryOp(self, e, st):
        out = []
        for t, s in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                k = self.known(s, t)
                out.append((C(not k) if k is not None else T('not', t), s))
            elif isinstance(e.op, ast.USub):
                if is_c(t) and isinstance(t[2], (int, float)):
                    out.append((C(-t[2]), s))
                else:
                    out.append((T('un', '-', t), s))
            else:
                out.append((T('un', type(e.op).__name__, t), s))
        return out

    def ev_Compare(self, e, st):
        out = []
        for vals, s in self.ev_list([e.left] + e.comparators, st):
            if len(e.ops) == 1:
                c = T('cmp', CMPS[type(e.ops[0])], vals[0], vals[1])
                k = self.known(s, c)
                if k is None and c[1] in ('in', 'not in') and vals[1][0] == 'r':
                    # a finished selection: keep what it holds, not its name
                    o = s.heap.get(vals[1][1])
                    if o is not None and o.kind in ('list', 'set') and o.alg is not None and clean(o.alg) and any(
                            x[0] == 'filt' for x in subterms(o.alg)):
                        c = T('cmp', c[1], vals[0], T('cont', o.alg))
                out.append((C(k) if k is not None else c, s))
            else:
                pend = [s]
                for i, op in enumerate(e.ops):
                    c = T('cmp', CMPS[type(op)], vals[i], vals[i + 1])
                    nxt = []
                    for p in pend:
                        for v, s2 in self.fork(p, c, e):
                            if v:
                                nxt.append(s2)
                            else:
                                out.append((FALSE, s2))
                    pend = nxt
                out += [(TRUE, p) for p in pend]
        return out

    def ev_BinOp(self, e, st):
        out = []
        for (a, b), s in self.ev_list([e.left, e.right], st):
            out.append(self.binop(e, type(e.op), a, b, s))
        return out

    def content(self, st, t):
        """symbolic set expression for the current content of a container term"""
        if t[0] == 'r':
            o = st.heap.get(t[1])
            if o is None:
                return T('top')
            if o.alg is not None:
                return o.alg
            if o.kind == 'inst':
                return T('base', t)
            return T('top')
        if t[0] == 'tup':
            return T('lit', frozenset(t[1:]))
        if t[0] == 'cont':
            return t[1]
        k = (t, ('alg',))
        return st.sym.get(k) or T('base', t)

    def set_content(self, st, t, alg):
        if t[0] == 'r':
            o = st.heap.get(t[1])
            if o is not None:
                st.heap[t[1]] = o.replace(alg=alg, seq=None, exact=False)
        else:
            st.sym[(t, ('alg',))] = alg

    def binop(self, e, op, a, b, st):
        sym = BINOPS.get(op, '?')
        if is_c(a) and is_c(b):
            try:
                x, y = a[2], b[2]
                if sym == '+' and (isinstance(x, str) == isinstance(y, str)):
                    return (C(x + y), st)
                if sym == '-':
                    return (C(x - y), st)
                if sym == '*' and (isinstance(y, int) and (not isinstance(x, str) or y < 200)):
                    return (C(x * y), st)
            except Exception:
                pass
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if sym == '+' and ta == 'tuple' and tb == 'tuple' and a[0] == 'tup' and b[0] == 'tup':
            return (T('tup', *(a[1:] + b[1:])), st)
        if sym == '+' and (ta == 'list' or tb == 'list'):
            s = st.copy()
            oa, ob = self.obj(s, a), self.obj(s, b)
            if oa is not None and ob is not None and oa.seq is not None and ob.seq is not None and oa.exact and ob.exact:
                return (self.alloc(s, e, 'list', seq=oa.seq + ob.seq, alg=T('sop', '|', self.content(s, a), self.content(s, b))), s)
            bag = self.bag_of(s, a, e) | self.bag_of(s, b, e)
            return (self.alloc(s, e, 'list', seq=None, bag=bag, alg=T('sop', '|', self.content(s, a), self.content(s, b)), exact=False), s)
        if op in SETOPS:
            setty = ('set', 'frozenset')
            if ta in setty or tb in setty or (sym in '|&^' and self._setlike(st, a) and self._setlike(st, b)) \
                    or (sym == '-' and self._setlike(st, a) and self._setlike(st, b)):
                s = st.copy()
                alg = T('sop', sym, self.content(s, a), self.content(s, b))
                bag = self.bag_of(s, a, e) | (self.bag_of(s, b, e) if sym in '|^' else frozenset())
                return (self.alloc(s, e, 'set', seq=None, bag=bag, alg=alg, exact=False), s)
            if isinstance(ta, Cls):
                fn = self.m.method(ta, {'|': '__or__', '&': '__and__', '-': '__sub__', '^': '__xor__'}[sym])
                if fn is not None:
                    r = self.call_func(fn, None, (a, b), {}, e, st)
                    if r:
                        return r[0]
        t = T('bin', sym, a, b)
        if depth(t) > 24:
            t = T('unk', self.site(e))
        return (t, st)

    def _setlike(self, st, t):
        ty = self.type_of(st, t)
        return ty in ('set', 'frozenset')

    def bag_of(self, st, t, node):
        o = self.obj(st, t)
        if o is not None:
            if o.seq is not None:
                return frozenset((x, frozenset()) for x in o.seq) | o.bag
            if o.bag or o.src is None:
                return o.bag
        return frozenset([(self.elem(st, t, node), frozenset())])

    def ev_Attribute(self, e, st):
        out = []
        for b, s in self.ev(e.value, st):
            out += self.getattr(b, e.attr, s, e)
        return out

    def getattr(self, b, name, st, node):
        k = b[0]
        if k == 'm':
            key = (T('g', b[1], name), ('glob',))
            if key in st.sym:
                return [(st.sym[key], st)]
            r = self.m.attr_of(('m', b[1]), name)
            return [(self.res_term(r) if r else T('x', b[1] + '.' + name), st)]
        if k == 'x':
            return [(T('x', b[1] + '.' + name), st)]
        if k == 'k':
            c = self.m.classes[b[1]]
            fn = self.m.method(c, name)
            if fn is not None:
                return [(T('f', fn.fid, None), st)]
            if name in ('__name__',):
                return [(C(c.name), st)]
            for kk in self.m.mro(c):
                if isinstance(kk, Cls) and name in kk.attrs:
                    v = kk.attrs[name]
                    if isinstance(v, ast.Constant):
                        return [(C(v.value), st)]
            return [(T('at', b, name), st)]
        if k == 'j' and len(b[1]) <= 4:
            acc = []
            s = st
            vals = []
            for x in sorted(b[1], key=order):
                if x == NONE or x == UNDEF:
                    continue
                r = self.getattr(x, name, s, node)
                v, s = r[0]
                vals.append(v)
            return [(J(vals) if vals else T('unk', self.site(node)), s)]
        if k == 'super':
            c, cur = self.m.classes[b[1]], b[2]
            rc = self.type_of(st, cur)
            if isinstance(rc, Cls):
                fn = self.m.method(rc, name, after=c)
            else:
                fn = self.m.method(c, name, after=c)
            if fn is not None:
                return [(T('bm', cur, fn.fid), st)]
            return [(T('x', 'super.' + name), st)]
        key = (b, ('a', name))
        if key in st.sym:
            return [(st.sym[key], st)]
        ty = self.type_of(st, b)
        if k == 'r':
            o = st.heap.get(b[1])
            if o is not None and o.kind == 'inst':
                if name in o.slots:
                    v = o.slots[name]
                    if v[0] == 'j' and UNDEF in v[1]:
                        v = J([x for x in v[1] if x != UNDEF])
                    return [(v, st)]
                if o.src is not None and not (isinstance(o.cls, Cls) and (self.m.method(o.cls, name) or self.m.prop(o.cls, name))):
                    return self.getattr(o.src, name, st, node)
        if name == '__dict__':
            return [(T('at', b, '__dict__'), st)]
        if isinstance(ty, Cls):
            p = self.m.prop(ty, name)
            if p is not None and self.should_inline(p, st):
                return self.call_func(p, None, (b,), {}, node, st)
            fn = self.m.method(ty, name)
            if fn is not None:
                return [(T('bm', b, fn.fid), st)]
            if name == '__class__':
                return [(T('k', ty.cid), st)]
        if self.raisers and self.handled_here('AttributeError') and not isinstance(ty, str) and k != 'r':
            atom = T('hasattr', b, name)
            kn = st.conds.get(atom)
            out = []
            if kn is not True:
                r = st.copy()
                r.conds[atom] = False
                self.do_raise(r, 'AttributeError', node, implicit=True)
            if kn is not False:
                s = st.copy()
                s.conds[atom] = True
                out.append((T('at', b, name), s))
            return out
        return [(T('at', b, name), st)]

    def ev_Slice(self, e, st):
        parts = [x for x in (e.lower, e.upper, e.step)]
        out = [((), st)]
        for p in parts:
            nxt = []
            for vals, s in out:
                if p is None:
                    nxt.append((vals + (NONE,), s))
                else:
                    for v, s2 in self.ev(p, s):
                        nxt.append((vals + (v,), s2))
            out = nxt
        return [(T('slice', *vals), s) for vals, s in out]

    def ev_Subscript(self, e, st):
        out = []
        for (b, k), s in self.ev_list([e.value, e.slice], st):
            out += self.getitem(b, k, s, e)
        return out

    def getitem(self, b, k, st, node):
        if b[0] == 'tup':
            if is_c(k) and isinstance(k[2], int) and -len(b) + 1 <= k[2] < len(b) - 1:
                return [(b[1:][k[2]], st)]
            if k[0] == 'slice' and all(is_c(x) for x in k[1:]):
                return [(T('tup', *b[1:][slice(*[x[2] for x in k[1:]])]), st)]
        if b[0] == 'c' and isinstance(b[2], str) and is_c(k) and isinstance(k[2], int):
            try:
                return [(C(b[2][k[2]]), st)]
            except IndexError:
                pass
        if b[0] == 'c' and isinstance(b[2], str) and k[0] == 'slice' and all(is_c(x) for x in k[1:]):
            return [(C(b[2][slice(*[x[2] for x in k[1:]])]), st)]
        o = self.obj(st, b)
        if k[0] == 'slice':
            if o is not None and o.kind == 'list':
                s = st.copy()
                if o.exact and o.seq is not None and all(is_c(x) for x in k[1:]):
                    return [(self.alloc(s, node, 'list', '[:]', seq=o.seq[slice(*[x[2] for x in k[1:]])], alg=T('top')), s)]
                whole = all(x == NONE for x in k[1:])
                v = self.alloc(s, node, 'list', '[:]', seq=o.seq if whole else None, bag=self.bag_of(s, b, node), src=(o.src if whole else None),
                               alg=self.content(s, b) if whole else T('sub', self.content(s, b)), exact=whole and o.exact)
                self.slices.setdefault(v, set()).add((b, k))
                return [(v, s)]
            return [(T('it', b, k), st)]
        key = (b, ('i', k))
        if key in st.sym:
            return [(st.sym[key], st)]
        if o is not None:
            if k in o.slots:
                v = o.slots[k]
                if v[0] == 'j' and UNDEF in v[1]:
                    v = J([x for x in v[1] if x != UNDEF])
                if v != UNDEF:
                    return [(v, st)]
            if o.kind in ('list',) and o.exact and o.seq is not None and is_c(k) and isinstance(k[2], int) and -len(o.seq) <= k[2] < len(o.seq):
                return [(o.seq[k[2]], st)]
        v = T('it', b, k)
        if o is not None and o.kind == 'dict' and o.src is not None and o.src != b:
            # a shallow copy holds the very objects of what it was copied from
            v = st.sym.get((o.src, ('i', k))) or T('it', o.src, k)
        if depth(v) > 24:
            v = T('unk', self.site(node))
        if o is not None and o.kind in ('list', 'dict'):
            vals = [x for x, g in self.bag_of(st, b, node)] if o.kind == 'list' else \
                ([x for x, g in o.bag] + [x for w in o.slots.values() for x in alts(w) if x != UNDEF])
            if vals:
                v = J(vals[:8] + [v])
        ty = self.type_of(st, b)
        exc = 'IndexError' if ty in ('list', 'str', 'tuple') else 'KeyError'
        if isinstance(ty, Cls):
            fn = self.m.method(ty, '__getitem__')
            if fn is not None and self.c.inline(self, fn, st) and self.should_inline(fn, st):
                return self.call_func(fn, None, (b, k), {}, node, st)
        forced = self.c.fork_item(self, st, b, k)
        if self.raisers and (forced or self.handled_here(exc) or (ty is None and self.handled_here('IndexError'))):
            atom = T('cmp', 'in', k, b)
            kn = self.atom_value(st, atom)
            out = []
            if kn is not True:
                r = st.copy()
                r.conds[atom] = False
                self.do_raise(r, exc if forced or self.handled_here(exc) else 'IndexError', node, implicit=True)
            if kn is not False:
                s = st.copy()
                s.conds[atom] = True
                out.append((v, s))
            return out
        return [(v, st)]

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        out = []
        for v, s in (self.ev(e.value, st) if e.value is not None else [(NONE, st)]):
            act = self.acts[-1]
            g = T('r', ('gen',) + act.fid)
            o = s.heap.get(g[1])
            s = s.copy()
            if o is None:
                o = HObj('list', seq=None, exact=False, alg=T('top'))
            self.c.on_add(self, s, g, v, e)
            s.heap[g[1]] = o.replace(bag=o.bag | frozenset([(v, self.guards_for(s, v))]), alg=self.alg_add(s, o.alg if o.bag else T('lit', frozenset()), v))
            out.append((T('unk', self.site(e)), s))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            act = self.acts[-1]
            g = T('r', ('gen',) + act.fid)
            s = s.copy()
            o = s.heap.get(g[1]) or HObj('list', seq=None, exact=False, alg=T('lit', frozenset()))
            s.heap[g[1]] = o.replace(bag=o.bag | self.bag_of(s, v, e), alg=T('sop', '|', o.alg, self.content(s, v)))
            out.append((NONE, s))
        return out

    # comprehensions -------------------------------------------------------
    def comp(self, e, st, kind):
        st = st.copy()
        r = self.alloc(st, e, kind, 'c', seq=(), alg=T('lit', frozenset()))
        saved = {}
        names = set()
        for g in e.generators:
            names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        env = st.frames[st.cur][1]
        saved = {n: env.get(n) for n in names}
        states = self.comp_gen(e, 0, [st], r, kind)
        states = self.prune(states, 12)
        out = []
        for s in states:
            for n, v in saved.items():
                if v is None:
                    s.delvar(n)
                else:
                    s.setvar(n, v)
            out.append((r, s))
        return out

    def comp_gen(self, e, i, states, r, kind):
        if i == len(e.generators):
            out = []
            for s in states:
                if kind == 'dict':
                    for (k, v), s2 in self.ev_list([e.key, e.value], s):
                        s2 = s2.copy()
                        o = self.obj(s2, r)
                        exact = o.exact and not s2.loops_in_comp if False else o.exact
                        slots = dict(o.slots)
                        slots[k] = v
                        s2.heap[r[1]] = o.replace(slots=slots, exact=exact and is_c(k), alg=self.alg_add(s2, o.alg, k))
                        self.c.on_put(self, s2, r, k, v, e)
                        out.append(s2)
                else:
                    for v, s2 in self.ev(e.elt, s):
                        s2 = s2.copy()
                        self.add_elem(s2, r, v, e)
                        out.append(s2)
            return out
        g = e.generators[i]
        out = []
        for s in states:
            for it, s2 in self.ev(g.iter, s):
                self.made.setdefault(r, set()).add(('dedup' if kind in ('set', 'dict') else 'filter' if g.ifs else 'map', it, e))
                ex = self.exact_elems(s2, it)
                if ex is not None and len(ex) <= self.c.unroll:
                    pend = [s2]
                    for x in ex:
                        nxt = []
                        for p in pend:
                            for p2 in self.bind(g.target, x, p.copy(), e):
                                nxt += self.comp_ifs(e, g, i, p2, r, kind)
                        pend = self.prune(nxt)
                    out += pend
                else:
                    s3 = s2.copy()
                    s3.loops = s3.loops + (self.site(e) + (i,),)
                    base = len(s2.loops)
                    self.c.on_loop(self, s3, e, 'enter', it)
                    x = self.elem(s3, it, g.iter)
                    res = []
                    for p in self.bind(g.target, x, s3, e):
                        res += self.comp_ifs(e, g, i, p, r, kind)
                    o0 = self.obj(s2, r)
                    for p in res:
                        self.c.on_loop(self, p, e, 'exit', it)
                        p.loops = p.loops[:base]
                        p.conds = {k: v for k, v in p.conds.items() if k in s2.conds or x not in subterms(k)}
                    for p in res:
                        o = self.obj(p, r)
                        if o is not None and o.seq is not None and (o.seq or o.kind != 'dict'):
                            p.heap[r[1]] = o.replace(seq=None, bag=o.bag | frozenset((y, frozenset()) for y in o.seq), exact=False)
                        elif o is not None and o.kind == 'dict':
                            p.heap[r[1]] = o.replace(exact=False)
                    # no-iteration state joins in: keep alternatives in one state
                    if res:
                        j = res[0]
                        for p in res[1:]:
                            j = self.join_comp(j, p, r)
                        out.append(j)
                    else:
                        s2 = s2.copy()
                        o = self.obj(s2, r)
                        s2.heap[r[1]] = o.replace(exact=False)
                        out.append(s2)
        return out

    def join_comp(self, a, b, r):
        oa, ob = self.obj(a, r), self.obj(b, r)
        j = self.join2(a, b)
        if oa is not None and ob is not None:
            # both adds happen over the iteration: union rather than alternative
            alg = oa.alg if oa.alg == ob.alg else T('sop', '|', oa.alg or T('top'), ob.alg or T('top'))
            j.heap[r[1]] = j.heap[r[1]].replace(alg=alg)
        return j

    def comp_ifs(self, e, g, i, st, r, kind):
        oks, nots = [st], []
        for cnd in g.ifs:
            nxt = []
            for s in oks:
                for v, s2 in self.branch(cnd, s):
                    (nxt if v else nots).append(s2)
            oks = nxt
        return self.comp_gen(e, i + 1, oks, r, kind) + nots

    def ev_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def ev_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, 'list')

    def ev_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def guards_for(self, st, v):
        """conditions in force that speak about loop elements occurring in v"""
        els = [x for x in subterms(v) if x[0] == 'el']
        if not els:
            return frozenset()
        return frozenset((a, b) for a, b in st.conds.items() if any(x in subterms(a) for x in els))

    def alg_add(self, st, alg, v):
        alg = alg if alg is not None else T('top')
        if v[0] == 'el' and len(st.loops) > 0:
            return T('sop', '|', alg, T('filt', v[1], v, self.guards_for(st, v), st.loops[-1]))
        return T('sop', '|', alg, T('lit', frozenset([v])))

    def add_elem(self, st, r, v, node):
        """add v to container r (heap)"""
        o = self.obj(st, r)
        if o is None:
            return
        self.c.on_add(self, st, r, v, node)
        alg = self.alg_add(st, o.alg, v)
        if o.seq is not None and o.exact and o.depth >= len(st.loops) and len(o.seq) < 64:
            if o.kind == 'set' and v in o.seq:
                return
            st.heap[r[1]] = o.replace(seq=o.seq + (v,), alg=alg)
        else:
            bag = o.bag | frozenset([(v, self.guards_for(st, v))])
            if o.seq is not None:
                bag |= frozenset((x, frozenset()) for x in o.seq)
            st.heap[r[1]] = o.replace(seq=None, bag=bag, alg=alg, exact=False)

    # iteration ------------------------------------------------------------
    def exact_elems(self, st, t):
        if t[0] == 'tup':
            return list(t[1:])
        if t[0] == 'c' and isinstance(t[2], str) and len(t[2]) <= 30:
            return [C(x) for x in t[2]]
        if t[0] == 'r':
            o = st.heap.get(t[1])
            if o is None:
                return None
            if o.kind in ('list', 'set') and o.exact and o.seq is not None and not o.bag:
                return list(o.seq)
            if o.kind == 'dict' and o.exact and not o.bag and o.src is None:
                return list(o.slots)
        if t[0] == 'enum':
            ex = self.exact_elems(st, t[1])
            if ex is not None and is_c(t[2]):
                return [T('tup', C(i + t[2][2]), x) for i, x in enumerate(ex)]
        if t[0] == 'zip':
            cols = [self.exact_elems(st, x) for x in t[1:]]
            if all(c is not None for c in cols):
                return [T('tup', *xs) for xs in zip(*cols)]
        if t[0] == 'range' and all(is_c(x) and isinstance(x[2], int) for x in t[1:]):
            return [C(i) for i in list(range(*[x[2] for x in t[1:]]))[:200]]
        if t[0] == 'dview':
            o = st.heap.get(t[2][1]) if t[2][0] == 'r' else None
            if o is not None and o.kind == 'dict' and o.exact and not o.bag and o.src is None:
                if any(v[0] == 'j' and UNDEF in v[1] for v in o.slots.values()):
                    return None
                if t[1] == 'keys':
                    return list(o.slots)
                if t[1] == 'values':
                    return list(o.slots.values())
                return [T('tup', k, v) for k, v in o.slots.items()]
        return None

    def elem(self, st, t, node):
        """an arbitrary element of iterable t"""
        k = t[0]
        if k == 'enum':
            i = T('idx', t[1])
            return T('tup', i if len(t) < 3 or t[2] == C(0) else T('bin', '+', i, t[2]), self.elem(st, t[1], node))
        if k == 'zip':
            return T('tup', *[self.elem(st, x, node) for x in t[1:]])
        if k == 'range':
            return T('el', t)
        if k == 'dview':
            d = t[2]
            o = self.obj(st, d)
            if o is not None and o.kind == 'dict' and not (o.src is not None):
                ks = [x for x in o.slots]
                vs = [x for w in o.slots.values() for x in alts(w) if x != UNDEF] + [x for x, g in o.bag]
                kt = J(ks) if ks else T('el', d)
                vt = J(vs) if vs else T('it', d, T('el', d))
                if len(ks) > 1 or len(vs) > 1:
                    kt, vt = T('el', d), J(vs + [T('it', d, T('el', d))])
            else:
                base = o.src if o is not None and o.src is not None else d
                kt = T('el', base)
                vt = T('it', base, kt)
            return kt if t[1] == 'keys' else vt if t[1] == 'values' else T('tup', kt, vt)
        if k == 'r':
            o = st.heap.get(t[1])
            if o is not None:
                if o.kind in ('list', 'set'):
                    if o.src is not None and not o.seq:
                        return T('el', o.src)
                    vals = [x for x, g in o.bag] + list(o.seq or ())
                    if vals:
                        if o.alg is not None and o.alg[0] != 'top' and all(
                                y[0] == 'el' for x in vals for y in alts(x)) and clean(o.alg):
                            # a selection of other containers' elements: keep the set expression
                            return T('el', T('cont', o.alg))
                        return J(vals)
                if o.kind == 'dict':
                    if o.src is not None:
                        return T('el', o.src)
                if o.kind == 'file':
                    return T('el', t)
                if o.kind == 'inst' and o.cls is not None:
                    if o.src is not None:
                        return self.elem(st, o.src, node)
        if k == 'it' and t[2][0] == 'slice':
            return T('el', t)
        if k == 'j':
            return J([self.elem(st, x, node) for x in t[1] if x != UNDEF and x != NONE] or [T('el', t)])
        if k == 'call' and t[1][0] == 'x' and t[1][1] in ('iter', 'reversed') and t[2]:
            return self.elem(st, t[2][0], node)
        return self.c_elem(st, t)

    def c_elem(self, st, t):
        # iterating a collection object is iterating the set inside it
        ty = self.type_of(st, t)
        if isinstance(ty, Cls) and self.m.method(ty, '__iter__') is not None and any(
                isinstance(k, Cls) and k.name == 'Collection' for k in self.m.mro(ty)):
            inner = st.sym.get((t, ('a', '_collection')), T('at', t, '_collection'))
            if t[0] == 'r':
                o = st.heap.get(t[1])
                if o is not None and '_collection' in o.slots:
                    inner = o.slots['_collection']
            if inner[0] == 'r':
                return self.elem(st, inner, None)
            return T('el', inner)
        return T('el', t)

    # calls ----------------------------------------------------------------
    def ev_Call(self, e, st):
        out = []
        # callee first
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            cur = self.acts[-1].fn
            while cur.parent is not None:
                cur = cur.parent
            selfname = cur.node.args.args[0].arg if cur.node.args.args else None
            if cur.cls is not None and selfname:
                return [(T('super', cur.cls.cid, self.lookup(st, selfname, e)), st)]
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(e.args) == 1 and not e.keywords and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and self.m.resolve(self.fn.mod, f.id) is None:
            r = self.branch_anyall(e, st)
            if r is not None:
                return [(C(bool(v)), s) for v, s in r]
        if isinstance(f, ast.Attribute):
            heads = []
            for b, s in self.ev(f.value, st):
                heads.append((('meth', b, f.attr), s))
        else:
            heads = [(t, s) for t, s in self.ev(f, st)]
        for h, s in heads:
            for args, kw, s2 in self.ev_args(e, s):
                if h[0] == 'meth':
                    out += self.call_method(h[1], h[2], args, kw, e, s2)
                else:
                    out += self.call_term(h, args, kw, e, s2)
        return out

    def ev_args(self, e, st):
        acc = [((), {}, st)]
        for a in e.args:
            nxt = []
            for args, kw, s in acc:
                if isinstance(a, ast.Starred):
                    for v, s2 in self.ev(a.value, s):
                        ex = self.exact_elems(s2, v)
                        if ex is not None:
                            nxt.append((args + tuple(ex), kw, s2))
                        else:
                            nxt.append((args + (T('star', v),), kw, s2))
                else:
                    for v, s2 in self.ev(a, s):
                        nxt.append((args + (v,), kw, s2))
            acc = nxt
        for k in e.keywords:
            nxt = []
            for args, kw, s in acc:
                for v, s2 in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is None:
                        o = self.obj(s2, v)
                        if o is not None and o.kind == 'dict':
                            for kk, vv in o.slots.items():
                                if is_c(kk):
                                    if vv[0] == 'j' and UNDEF in vv[1]:
                                        kw2['?' + str(kk[2])] = J([x for x in vv[1] if x != UNDEF])
                                    else:
                                        kw2[kk[2]] = vv
                                else:
                                    kw2['**'] = v
                            if o.bag or not o.exact:
                                kw2['**'] = v
                        else:
                            kw2['**'] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((args, kw2, s2))
            acc = nxt
        return acc

    def call_method(self, recv, name, args, kw, node, st):
        k = recv[0]
        if k in ('m', 'x', 'k', 'super'):
            out = []
            for t, s in self.getattr(recv, name, st, node):
                out += self.call_term(t, args, kw, node, s)
            return out
        if k == 'j':
            # call on each alternative that is a container/inst; keep the joined term otherwise
            if all(x[0] in ('r',) for x in recv[1]) and len(recv[1]) <= 3 and not (name in MUTATORS):
                outs = []
                for x in sorted(recv[1], key=order):
                    outs += self.call_method(x, name, args, kw, node, st.copy())
                return outs
            if name in MUTATORS:
                s = st
                for x in sorted(recv[1], key=order):
                    if x not in (UNDEF, NONE):
                        r = self.call_method(x, name, args, kw, node, s)
                        if r:
                            s = r[0][1]
                return [(T('call', T('meth', recv, name), args), s)]
        r = self.c.on_call(self, st, node, name, recv, args, kw)
        if r is not None:
            return r
        # attribute holding a function value (slot or overwritten attribute)
        o = self.obj(st, recv)
        if o is not None and o.kind == 'inst' and name in o.slots:
            return self.call_term(o.slots[name], args, kw, node, st)
        key = (recv, ('a', name))
        if key in st.sym:
            return self.call_term(st.sym[key], args, kw, node, st)
        ty = self.type_of(st, recv)
        if isinstance(ty, Cls):
            fn = self.m.method(ty, name)
            if fn is not None:
                if fn.kind == 'static':
                    return self.call_func(fn, None, args, kw, node, st, via=('static', recv))
                return self.call_func(fn, None, (recv,) + args, kw, node, st)
        if o is not None and o.kind in ('list', 'set', 'dict'):
            r = self.container_method(recv, o, name, args, kw, node, st)
            if r is not None:
                return r
        return self.opaque_method(recv, name, args, kw, node, st)

    def opaque_method(self, recv, name, args, kw, node, st):
        st = st.copy()
        if recv[0] == 'c' and isinstance(recv[2], str) and name in STR_METHODS and all(is_c(a) for a in args) and not kw:
            try:
                v = getattr(recv[2], name)(*[a[2] for a in args])
                if isinstance(v, (str, bool, int)):
                    return [(C(v), st)]
                if isinstance(v, list) and len(v) < 40:
                    return [(self.alloc(st, node, 'list', seq=tuple(C(x) for x in v)), st)]
            except Exception:
                pass
        if name in ('keys', 'values', 'items') and not args and self.type_of(st, recv) != 'str':
            self.c.on_call(self, st, node, 'view:' + name, recv, args, kw)
            return [(T('dview', name, recv), st)]
        if name == 'copy' and not args:
            ty = self.type_of(st, recv)
            kind = ty if ty in ('list', 'set', 'dict') else 'dict'
            return [(self.alloc(st, node, kind, seq=None, src=recv, alg=self.content(st, recv), exact=False), st)]
        if name == '__iter__' and not args:
            return [(recv, st)]
        if name in ('union', 'intersection', 'difference', 'symmetric_difference') and self._setlike(st, recv):
            op = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[name]
            alg = self.content(st, recv)
            bag = self.bag_of(st, recv, node)
            for a in args:
                alg = T('sop', op, alg, self.content(st, a))
                if op in '|^':
                    bag |= self.bag_of(st, a, node)
            return [(self.alloc(st, node, 'set', seq=None, bag=bag, alg=alg, exact=False), st)]
        if name in MUTATORS and self.type_of(st, recv) not in ('str', 'int', 'float', 'bool', 'NoneType', 'file'):
            self.c_set_mut(st, recv, name, args, node)
            self.mutate(st, node, recv, name, args)
            if name in ('pop', 'popitem'):
                return [(T('call', T('meth', recv, name), args + (T('site', self.site(node)),)), st)]
            if name == 'setdefault':
                return [(T('call', T('meth', recv, name), args), st)]
            if name in ('append', 'add', 'extend', 'update', 'clear', 'sort', 'reverse', 'insert', 'remove', 'discard'):
                self.maybe_raise(st, name, node)
                return [(NONE, st)]
        self.maybe_raise(st, name, node)
        kwt = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        t = T('call', T('meth', recv, name), args + kwt)
        if name in ('next', '__next__', 'read', 'readline', 'readlines', 'popleft'):
            t = T('call', T('meth', recv, name), args + (T('site', self.site(node)),))
        if depth(t) > 24:
            t = T('unk', self.site(node))
        return [(t, st)]

    def c_set_mut(self, st, recv, name, args, node):
        """content effect of a mutator on a symbolic container"""
        alg = None
        cur = self.content(st, recv)
        if name == 'add' and args:
            alg = self.alg_add(st, cur, args[0])
        elif name == 'update' and args:
            alg = cur
            for a in args:
                alg = T('sop', '|', alg, self.content(st, a))
        elif name in ('discard', 'remove') and args:
            if args[0][0] == 'el' and st.loops:
                alg = T('sop', '-', cur, T('filt', args[0][1], args[0], self.guards_for(st, args[0]), st.loops[-1]))
            else:
                alg = T('sop', '-', cur, T('lit', frozenset([args[0]])))
        elif name == 'difference_update' and args:
            alg = T('sop', '-', cur, self.content(st, args[0]))
        elif name == 'intersection_update' and args:
            alg = T('sop', '&', cur, self.content(st, args[0]))
        elif name == 'symmetric_difference_update' and args:
            alg = T('sop', '^', cur, self.content(st, args[0]))
        elif name == 'clear':
            alg = T('lit', frozenset())
        elif name in ('pop', 'popitem'):
            alg = T('sub', cur)
        if alg is not None:
            self.set_content(st, recv, alg)

    def mutate(self, st, node, target, how, value=None):
        for t in alts(target):
            if t in (UNDEF, NONE):
                continue
            self.c.on_mutate(self, st, node, t, how, value)
            self.drop_conds(st, t)

    def maybe_raise(self, st, name, node):
        """opaque call inside a try: hand a copy of the state to the handlers"""
        if not self.raisers or name in NORAISE:
            return
        if any(names is not None for lst, names in self.raisers[-1:]):
            self.do_raise(st.copy(), 'ANY', node, implicit=True)

    def container_method(self, recv, o, name, args, kw, node, st):
        st = st.copy()
        kind = o.kind
        if name in ('append', 'add') and len(args) == 1 and kind in ('list', 'set'):
            self.mutate(st, node, recv, name, args)
            self.add_elem(st, recv, args[0], node)
            return [(NONE, st)]
        if name in ('extend', 'update') and args and kind in ('list', 'set'):
            self.mutate(st, node, recv, name, args)
            for a in args:
                ex = self.exact_elems(st, a)
                if ex is not None:
                    for x in ex:
                        self.add_elem(st, recv, x, node)
                else:
                    o = self.obj(st, recv)
                    bag = o.bag | self.bag_of(st, a, node)
                    if o.seq is not None:
                        bag |= frozenset((x, frozenset()) for x in o.seq)
                    st.heap[recv[1]] = o.replace(seq=None, bag=bag, alg=T('sop', '|', o.alg or T('top'), self.content(st, a)), exact=False)
            return [(NONE, st)]
        if kind == 'dict' and name == 'update':
            self.mutate(st, node, recv, name, args)
            slots, bag, exact = dict(o.slots), o.bag, o.exact
            for a in args:
                oa = self.obj(st, a)
                if oa is not None and oa.kind == 'dict':
                    slots.update(oa.slots)
                    bag |= oa.bag
                    exact = exact and oa.exact
                    if oa.src is not None:
                        bag |= frozenset([(T('it', oa.src, T('el', oa.src)), frozenset())])
                else:
                    bag |= frozenset([(T('it', a, T('el', a)), frozenset())])
                    exact = False
            alg = o.alg or T('top')
            for a in args:
                alg = T('sop', '|', alg, self.content(st, a))
            for k, v in kw.items():
                slots[C(k)] = v
                alg = T('sop', '|', alg, T('lit', frozenset([C(k)])))
            st.heap[recv[1]] = o.replace(slots=slots, bag=bag, exact=exact, alg=alg)
            return [(NONE, st)]
        if kind == 'dict' and name in ('keys', 'values', 'items') and not args:
            return [(T('dview', name, recv), st)]
        if kind == 'dict' and name == 'get' and args:
            k = args[0]
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            if k in o.slots:
                v = o.slots[k]
                if v[0] == 'j' and UNDEF in v[1]:
                    return [(J([x for x in v[1] if x != UNDEF] + [d]), st)]
                if v == UNDEF:
                    return [(J([T('it', recv, k), d]), st)]
                return [(v, st)]
            if o.exact and not o.bag and is_c(k) and all(is_c(x) for x in o.slots) and o.src is None:
                return [(d, st)]
            vals = [x for w in o.slots.values() for x in alts(w) if x != UNDEF][:6] + [x for x, g in o.bag][:6]
            if o.src is not None:
                vals.append(T('it', o.src, k))
            return [(J(vals + [T('it', recv, k), d]), st)]
        if kind == 'dict' and name == 'setdefault' and args:
            self.mutate(st, node, recv, name, args)
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            if k in o.slots:
                return [(J([o.slots[k], d]), st)]
            slots = dict(o.slots)
            if not o.exact or o.bag or o.src is not None or not (is_c(k) and all(is_c(x) for x in o.slots)):
                d = J([d, T('it', recv, k)])
            slots[k] = d
            st.heap[recv[1]] = o.replace(slots=slots, alg=self.alg_add(st, o.alg, k))
            return [(d, st)]
        if kind == 'dict' and name in ('pop',) and args:
            self.mutate(st, node, recv, name, args)
            k = args[0]
            v = o.slots.get(k, T('it', recv, k))
            slots = dict(o.slots)
            slots.pop(k, None)
            st.heap[recv[1]] = o.replace(slots=slots, alg=T('sop', '-', o.alg or T('top'), T('lit', frozenset([k]))))
            if v[0] == 'j' and UNDEF in v[1]:
                v = J([x for x in v[1] if x != UNDEF])
            return [(v, st)]
        if name == 'copy' and not args:
            return [(self.alloc(st, node, kind, 'cp', seq=o.seq, slots=dict(o.slots), bag=o.bag, src=o.src, alg=self.content(st, recv), exact=o.exact), st)]
        if kind == 'list' and name == 'pop':
            self.mutate(st, node, recv, name, args)
            if o.exact and o.seq and (not args or (is_c(args[0]) and args[0][2] in (0, -1))) and o.depth >= len(st.loops):
                i = args[0][2] if args else -1
                v = o.seq[i]
                seq = o.seq[1:] if i == 0 else o.seq[:-1]
                st.heap[recv[1]] = o.replace(seq=seq)
                return [(v, st)]
            vals = [x for x, g in self.bag_of(st, recv, node)]
            st.heap[recv[1]] = o.replace(seq=None, bag=self.bag_of(st, recv, node), exact=False, alg=T('sub', o.alg or T('top')))
            self.maybe_raise(st, name, node)
            return [(J(vals) if vals else T('unk', self.site(node)), st)]
        if kind == 'set' and name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return None
        if name in ('clear',):
            self.mutate(st, node, recv, name, args)
            st.heap[recv[1]] = o.replace(seq=() if o.depth >= len(st.loops) else None, slots={}, bag=frozenset(), src=None, alg=T('lit', frozenset()))
            return [(NONE, st)]
        if kind == 'list' and name in ('sort', 'reverse'):
            self.mutate(st, node, recv, name, args)
            st.heap[recv[1]] = o.replace(seq=None, bag=self.bag_of(st, recv, node), exact=False)
            return [(NONE, st)]
        if kind == 'list' and name == 'insert' and len(args) == 2:
            self.mutate(st, node, recv, name, args)
            if is_c(args[0]) and args[0][2] == 0 and o.exact and o.seq is not None and o.depth >= len(st.loops):
                st.heap[recv[1]] = o.replace(seq=(args[1],) + o.seq, alg=self.alg_add(st, o.alg, args[1]))
            else:
                self.add_elem(st, recv, args[1], node)
            return [(NONE, st)]
        if name in ('remove', 'discard') and args and kind in ('list', 'set'):
            self.mutate(st, node, recv, name, args)
            if o.exact and o.seq is not None and args[0] in o.seq and o.depth >= len(st.loops):
                seq = list(o.seq)
                seq.remove(args[0])
                st.heap[recv[1]] = o.replace(seq=tuple(seq))
            else:
                self.c_set_mut(st, recv, name, args, node)
                o2 = self.obj(st, recv)
                st.heap[recv[1]] = o2.replace(seq=None, bag=self.bag_of(st, recv, node) if o.seq is None else frozenset((x, frozenset()) for x in o.seq), exact=False)
            self.maybe_raise(st, name, node)
            return [(NONE, st)]
        if kind == 'set' and name in ('difference_update', 'intersection_update', 'symmetric_difference_update') and args:
            self.mutate(st, node, recv, name, args)
            self.c_set_mut(st, recv, name, args, node)
            return [(NONE, st)]
        return None

    def call_term(self, f, args, kw, node, st):
        k = f[0]
        if k == 'f':
            return self.call_func(self.m.funcs[f[1]], f[2], args, kw, node, st)
        if k == 'bm':
            fn = self.m.funcs[f[2]]
            if fn.kind == 'static':
                return self.call_func(fn, None, args, kw, node, st)
            return self.call_func(fn, None, (f[1],) + args, kw, node, st)
        if k == 'k':
            return self.construct(self.m.classes[f[1]], args, kw, node, st)
        if k == 'x':
            return self.call_ext(f[1], args, kw, node, st)
        if k == 'at':
            return self.call_method(f[1], f[2], args, kw, node, st)
        if k == 'j':
            out = []
            for x in sorted(f[1], key=order)[:5]:
                if x != UNDEF:
                    out += self.call_term(x, args, kw, node, st.copy())
            return out
        if k == 'call' and f[1] == T('x', 'type') and len(f[2]) == 1:
            ty = self.type_of(st, f[2][0])
            if isinstance(ty, Cls):
                return self.construct(ty, args, kw, node, st)
        r = self.c.on_call(self, st, node, '<dyn>', f, args, kw)
        if r is not None:
            return r
        self.maybe_raise(st, '<dyn>', node)
        return [(T('call', f, args + tuple(T('kw', a, b) for a, b in sorted(kw.items()))), st)]

    def should_inline(self, fn, st):
        if len(self.acts) >= self.c.max_depth + 1:
            return False
        if sum(1 for a in self.acts if a.fn is fn) >= 1:
            return False
        return True

    def bind_params(self, fn, args, kw, node, st):
        """parameter name -> term; None when the call cannot be matched"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        star = None
        if any(p[0] == 'star' for p in pos):
            i = next(i for i, p in enumerate(pos) if p[0] == 'star')
            star = pos[i][1]
            pos = pos[:i]
        for n, v in zip(names, pos):
            out[n] = v
        extra = pos[len(names):]
        for k, v in kw.items():
            if k.startswith('?'):
                k = k[1:]
                if k not in out:
                    out[k] = v
            elif k != '**' and (k in names or k in [x.arg for x in a.kwonlyargs]):
                out[k] = v
        if a.vararg:
            if star is not None:
                out[a.vararg.arg] = star if not extra else T('unk', self.site(node))
            else:
                out[a.vararg.arg] = T('tup', *extra)
        elif star is not None:
            for n in names:
                if n not in out:
                    out[n] = T('it', star, T('any'))
        if a.kwarg:
            known = set(names) | {x.arg for x in a.kwonlyargs}
            rest = {C(k.lstrip('?')): v for k, v in kw.items() if k != '**' and k.lstrip('?') not in known}
            out[a.kwarg.arg] = self.alloc(st, node, 'dict', 'kw', slots=rest, exact='**' not in kw,
                                          bag=frozenset([(T('it', kw['**'], T('any')), frozenset())]) if '**' in kw else frozenset())
        # defaults
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if '**' in kw and n in defs:
                    out[n] = J([T('it', kw['**'], C(n)), self.default(fn, defs[n])])
                elif n in defs:
                    out[n] = self.default(fn, defs[n])
                else:
                    out[n] = T('unk', self.site(node) + (n,))
        return out

    def default(self, fn, e):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return C(-e.operand.value)
        if isinstance(e, ast.Name):
            return self.res_term(self.m.resolve(fn.mod, e.id) or ('x', e.id))
        if isinstance(e, ast.Tuple) and all(isinstance(x, ast.Constant) for x in e.elts):
            return T('tup', *[C(x.value) for x in e.elts])
        return T('dflt', fn.fid, e.lineno, e.col_offset)

    def call_func(self, fn, closure, args, kw, node, st, via=None):
        name = fn.qual
        recv = args[0] if fn.kind == 'method' and args else None
        r = self.c.on_call(self, st, node, name, recv, args, kw)
        if r is not None:
            return r
        if fn.parent is None and fn.kind == 'class':
            pass
        if not (self.should_inline(fn, st) and self.c.inline(self, fn, st)):
            self.maybe_raise(st, '<pkg>', node)
            kwt = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
            t = T('call', T('f', fn.fid, None), tuple(args) + kwt)
            if depth(t) > 24:
                t = T('unk', self.site(node))
            return [(t, st)]
        return self.invoke(fn, closure, args, kw, node, st)

    def invoke(self, fn, closure, args, kw, node, st):
        st = st.copy()
        binds = self.bind_params(fn, args, kw, node, st)
        saved_cur, saved_loops, saved_path = st.cur, st.loops, self.ctxpath
        lam = isinstance(fn.node, ast.Lambda)
        path = saved_path + ((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
        fid = (fn.fid,) + path
        st.frames[fid] = (closure, dict(binds))
        st.cur = fid
        act = Act(fn, fid, node)
        self.acts.append(act)
        self.ctxpath = path
        gen = (not lam) and is_generator(fn.node)
        if gen:
            st.heap[('gen',) + fid] = HObj('list', seq=None, exact=False, alg=T('lit', frozenset()), depth=len(st.loops))
        self.c.on_enter(self, st, fn, binds)
        nr = len(self.raisers[-1][0]) if self.raisers else 0
        try:
            if lam:
                outs = self.ev(fn.node.body, st)
                rets = [(s, v) for v, s in outs]
            else:
                fl = self.block(fn.node.body, [st])
                rets = act.returns + [(s, NONE) for s in fl.normal]
                for s in fl.normal:
                    self.c.on_return(self, s, fn, NONE, None)
        finally:
            self.acts.pop()
            self.ctxpath = saved_path
        # restore frames; merge equal results
        res = []
        for s, v in rets:
            s.cur, s.loops = saved_cur, saved_loops
            if gen:
                v = T('r', ('gen',) + fid)
            res.append((v, s))
        if self.raisers:
            for i in range(nr, len(self.raisers[-1][0])):
                s, x, nd, im = self.raisers[-1][0][i]
                s.loops = saved_loops
        return self.merge_results(res, fid)

    def merge_results(self, res, fid=None):
        if len(res) <= 1:
            return res
        by = {}
        for v, s in res:
            if fid is not None and not self.frame_captured(s, fid, v):
                s.frames.pop(fid, None)
            by.setdefault(v, []).append(s)
        out = []
        for v, ss in by.items():
            for s in self.prune(ss):
                out.append((v, s))
        if len(out) > self.c.max_states:
            ss = self.prune([s for v, s in out], 4)
            vals = J([v for v, s in out])
            out = [(vals, s) for s in ss]
        return out

    def frame_captured(self, s, fid, v):
        if v[0] == 'f' and v[2] == fid:
            return True
        return any(p == fid for f, (p, e) in s.frames.items()) or any(
            isinstance(x, tuple) and x and x[0] == 'f' and len(x) > 2 and x[2] == fid
            for f, (p, e) in s.frames.items() if f != fid for x in e.values())

    def construct(self, cls, args, kw, node, st):
        r = self.c.on_call(self, st, node, cls.name, T('k', cls.cid), args, kw)
        if r is not None:
            return r
        st = st.copy()
        ref = self.alloc(st, node, 'inst', ':' + cls.name, cls=cls)
        init = self.m.method(cls, '__init__')
        o = self.obj(st, ref)
        slots = {'$args': T('tup', *args), '$kw': T('tup', *[T('kw', k, v) for k, v in sorted(kw.items())])}
        st.heap[ref[1]] = o.replace(slots=slots)
        if init is None or not (self.should_inline(init, st) and self.c.inline(self, init, st)):
            if self.exc_class(cls) is None:
                self.maybe_raise(st, '<ctor>', node)
            return [(ref, st)]
        return [(ref, s) for v, s in self.invoke(init, None, (ref,) + tuple(args), kw, node, st)]

    def exc_class(self, cls):
        for k in self.m.mro(cls):
            n = k if not isinstance(k, Cls) else k.name
            if n in BUILTIN_EXC or n in ('Exception', 'BaseException', 'Warning'):
                return n
        return None

    # calls to things outside the package -----------------------------------
    def call_ext(self, name, args, kw, node, st):
        r = self.c.on_call(self, st, node, name, None, args, kw)
        if r is not None:
            return r
        short = name.split('.')[-1]
        st = st.copy()
        a0 = args[0] if args else None
        if name == 'len' and a0 is not None:
            ex = self.exact_elems(st, a0)
            if ex is not None and not (a0[0] == 'r' and self.obj(st, a0).kind == 'set') and not (
                    a0[0] == 'r' and any(a0[1] in self.carried.get(x, ()) for x in st.loops)):
                return [(C(len(ex)), st)]
            if isinstance(self.type_of(st, a0), Cls) and a0[0] != 'r':
                pass
            return [(T('call', T('x', 'len'), (a0,)), st)]
        if name in ('list', 'tuple', 'set', 'sorted', 'frozenset', 'collections.deque', 'reversed', 'iter') and len(args) >= 1:
            kind = {'set': 'set', 'frozenset': 'set'}.get(name, 'list')
            if name == 'iter' and len(args) == 1:
                return [(a0, st)]
            ex = self.exact_elems(st, a0)
            if ex is not None and name != 'sorted' and name != 'reversed':
                if name == 'tuple':
                    return [(T('tup', *ex), st)]
                if kind == 'set':
                    ex = list(dict.fromkeys(ex))
                return [(self.alloc(st, node, kind, seq=tuple(ex), alg=self.content(st, a0)), st)]
            o = self.obj(st, a0)
            bag = o.bag if o is not None and (o.bag or o.seq is not None) else frozenset()
            if o is not None and o.seq:
                bag |= frozenset((x, frozenset()) for x in o.seq)
            src = None
            if o is None:
                src = a0 if a0[0] not in ('enum', 'zip', 'dview', 'j') else None
                inner = self.elem(st, a0, node)
                if inner[0] == 'el':
                    src = inner[1]
                bag = frozenset([(inner, frozenset())])
            elif o.src is not None:
                src = o.src
                if not bag:
                    bag = frozenset([(T('el', src), frozenset())])
            elif o.kind == 'inst':
                inner = self.elem(st, a0, node)
                bag = frozenset([(inner, frozenset())])
            alg = self.content_iter(st, a0)
            new = self.alloc(st, node, kind, seq=None, bag=bag, src=src, alg=alg, exact=False)
            self.made.setdefault(new, set()).add(('dedup' if kind == 'set' else 'copy', a0, node))
            return [(new, st)]
        if name in ('list', 'set', 'frozenset', 'collections.deque') and not args:
            return [(self.alloc(st, node, 'set' if 'set' in name else 'list', seq=(), alg=T('lit', frozenset())), st)]
        if name == 'tuple' and not args:
            return [(T('tup'), st)]
        if name in ('dict', 'collections.OrderedDict', 'OrderedDict', 'collections.defaultdict', 'collections.Counter'):
            slots = {C(k): v for k, v in kw.items() if k != '**'}
            src, bag, exact = None, frozenset(), '**' not in kw
            base = a0 if name != 'collections.defaultdict' else (args[1] if len(args) > 1 else None)
            if base is not None:
                o = self.obj(st, base)
                if o is not None and o.kind == 'dict':
                    slots = dict(o.slots, **{}) if not slots else {**o.slots, **slots}
                    bag, src, exact = o.bag, o.src, exact and o.exact
                else:
                    ex = self.exact_elems(st, base)
                    if ex is not None and all(x[0] == 'tup' and len(x) == 3 for x in ex):
                        for x in ex:
                            slots[x[1]] = x[2]
                    else:
                        src, exact = base, False
            if name in ('collections.defaultdict', 'collections.Counter'):
                exact = False
            return [(self.alloc(st, node, 'dict', slots=slots, src=src, bag=bag, exact=exact), st)]
        if name == 'enumerate' and a0 is not None:
            start = kw.get('start', args[1] if len(args) > 1 else C(0))
            return [(T('enum', a0, start), st)]
        if name == 'zip':
            if any(x[0] == 'star' for x in args):
                return [(T('unk', self.site(node)), st)]
            return [(T('zip', *args), st)]
        if name == 'range':
            return [(T('range', *args), st)]
        if name in ('copy.copy', 'copy.deepcopy') and a0 is not None:
            o = self.obj(st, a0)
            ty = self.type_of(st, a0)
            if o is not None:
                return [(self.alloc(st, node, o.kind, 'cp', cls=o.cls, seq=o.seq, slots=dict(o.slots), bag=o.bag, src=o.src, alg=o.alg, exact=o.exact), st)]
            if isinstance(ty, Cls):
                n = self.alloc(st, node, 'inst', 'cp', cls=ty, src=a0)
                # a copied instance has its own __dict__: carry over overwritten attributes
                slots = {k[1][1]: v for k, v in st.sym.items() if k[0] == a0 and k[1][0] == 'a'}
                if slots:
                    st.heap[n[1]] = self.obj(st, n).replace(slots=slots)
                return [(n, st)]
            kind = ty if ty in ('list', 'set', 'dict') else None
            if kind:
                return [(self.alloc(st, node, kind, 'cp', seq=None, src=a0, alg=self.content(st, a0), exact=False), st)]
            return [(self.alloc(st, node, 'inst', 'cp', src=a0, alg=self.content(st, a0)), st)]
        if name == 'type' and len(args) == 1:
            ty = self.type_of(st, a0)
            if isinstance(ty, Cls):
                return [(T('k', ty.cid), st)]
            if ty in PYTYPES:
                return [(T('x', ty), st)]
            return [(T('call', T('x', 'type'), args), st)]
        if name == 'isinstance' and len(args) == 2:
            v = self.isinstance(st, a0, args[1])
            if v is not None:
                return [(C(v), st)]
            # tuples of classes: canonical order
            t = args[1]
            return [(T('call', T('x', 'isinstance'), (a0, t)), st)]
        if name == 'hasattr' and len(args) == 2 and is_c(args[1]):
            o = self.obj(st, a0)
            if o is not None and o.kind == 'inst' and args[1][2] in o.slots:
                return [(TRUE, st)]
            return [(T('hasattr', a0, args[1][2]), st)]
        if name == 'getattr' and len(args) >= 2:
            if is_c(args[1]):
                if len(args) == 2:
                    return self.getattr(a0, args[1][2], st, node)
                out = []
                for v, s in self.getattr(a0, args[1][2], st, node):
                    out.append((J([v, args[2]]) if args[2] != v else v, s))
                return out
            if len(args) == 2 and self.raisers and self.raisers[-1][1] and {'AttributeError', 'Exception', 'ANY'} & set(self.raisers[-1][1]):
                self.do_raise(st.copy(), 'AttributeError', node, implicit=True)
            return [(T('call', T('x', 'getattr'), args), st)]
        if name == 'setattr' and len(args) == 3:
            if is_c(args[1]):
                self.setattr(a0, args[1][2], args[2], st, node)
            else:
                self.mutate(st, node, a0, 'setattr', args[2])
            return [(NONE, st)]
        if name == 'delattr' and len(args) == 2:
            self.mutate(st, node, a0, 'delattr')
            return [(NONE, st)]
        if name in ('open', 'io.open', 'codecs.open'):
            mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
            enc = kw.get('encoding', NONE)
            self.maybe_raise(st, 'open', node)
            return [(self.alloc(st, node, 'file', slots={'path': a0 if a0 is not None else NONE, 'mode': mode, 'encoding': enc}), st)]
        if name in ('next',):
            self.maybe_raise(st, 'next', node)
            if a0 is not None and a0[0] in ('enum',):
                return [(T('tup', T('idx', a0[1]), T('call', T('x', 'next'), (a0[1], T('site', self.site(node))))), st)]
            return [(T('call', T('x', 'next'), args + (T('site', self.site(node)),)), st)]
        if name == 'map' and len(args) == 2:
            r = self.alloc(st, node, 'list', 'map', seq=None, exact=False, alg=T('lit', frozenset()))
            self.made.setdefault(r, set()).add(('map', args[1], node))
            s = st.copy()
            s.loops = s.loops + (self.site(node),)
            x = self.elem(s, args[1], node)
            outs = self.call_term(args[0], (x,), {}, node, s)
            for v, s2 in outs[:1]:
                s2 = s2.copy()
                self.add_elem(s2, r, v, node)
                s2.loops = st.loops
                return [(r, s2)]
            return [(r, st)]
        if name == 'filter' and len(args) == 2:
            r = self.alloc(st, node, 'list', 'flt', seq=None, exact=False, alg=T('lit', frozenset()))
            self.made.setdefault(r, set()).add(('filter', args[1], node))
            s = st.copy()
            s.loops = s.loops + (self.site(node),)
            x = self.elem(s, args[1], node)
            outs = self.call_term(args[0], (x,), {}, node, s) if args[0] != NONE else [(x, s)]
            res = None
            for v, s2 in outs:
                for b, s3 in self.fork(s2, v, node):
                    if b:
                        s3 = s3.copy()
                        self.add_elem(s3, r, x, node)
                        s3.loops = st.loops
                        res = s3 if res is None else self.join_comp(res, s3, r)
            return [(r, res if res is not None else st)]
        if name.startswith('itertools.chain') and args and 'from_iterable' not in name:
            bag = frozenset()
            alg = T('lit', frozenset())
            for a in args:
                bag |= self.bag_of(st, a, node)
                alg = T('sop', '|', alg, self.content_iter(st, a))
            return [(self.alloc(st, node, 'list', 'chain', seq=None, bag=bag, exact=False, alg=alg), st)]
        if name == 'bool' and len(args) == 1:
            k = self.known(st, a0)
            return [(C(k) if k is not None else T('truth', a0), st)]
        if name in ('str', 'int', 'float') and len(args) == 1 and is_c(a0):
            try:
                return [(C({'str': str, 'int': int, 'float': float}[name](a0[2])), st)]
            except Exception:
                pass
        if name in ('float',) and len(args) == 1 and not is_c(a0):
            pass
        if short in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph') and ('networkx' in name or name.startswith('nx')):
            if not args:
                return [(self.alloc(st, node, 'graph', ':' + short, cls=None, slots={'gtype': C(short)}), st)]
        self.maybe_raise(st, short, node)
        kwt = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        t = T('call', T('x', name), tuple(args) + kwt)
        if depth(t) > 24:
            t = T('unk', self.site(node))
        return [(t, st)]

    def content_iter(self, st, t):
        """content of iterating t"""
        if t[0] == 'r':
            o = st.heap.get(t[1])
            if o is not None and o.kind == 'inst':
                inner = o.slots.get('_collection')
                if inner is not None:
                    return self.content(st, inner)
                if o.src is not None:
                    return self.content_iter(st, o.src)
            return self.content(st, t)
        el = self.elem(st, t, None)
        if el[0] == 'el' and el[1] != t:
            return self.content(st, el[1])
        return self.content(st, t)

    ABCS = {'Iterable': {'list', 'set', 'dict', 'tuple', 'str', 'frozenset', 'bytes', 'enum', 'zip', 'range', 'file'},
            'Container': {'list', 'set', 'dict', 'tuple', 'str', 'frozenset', 'bytes', 'range'},
            'Callable': set(), 'Hashable': {'str', 'int', 'float', 'tuple', 'frozenset', 'bool', 'NoneType', 'bytes'}}

    def isinstance(self, st, v, c):
        if c[0] == 'tup':
            rs = [self.isinstance(st, v, x) for x in c[1:]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        ty = self.type_of(st, v)
        if ty is None:
            return None
        if c[0] == 'k':
            cls = self.m.classes[c[1]]
            if isinstance(ty, Cls):
                if self.m.is_subclass(ty, cls):
                    return True
                if v[0] == 'r':
                    return False
                return None if self.m.is_subclass(cls, ty) else False
            return False if ty in ('list', 'set', 'dict', 'tuple', 'str', 'int', 'float', 'bool', 'NoneType', 'bytes', 'file', 'graph') else None
        if c[0] == 'x':
            n = c[1].split('.')[-1]
            if isinstance(ty, Cls):
                names = [k if not isinstance(k, Cls) else k.name for k in self.m.mro(ty)]
                if any(x.split('.')[-1] == n for x in names):
                    return True
                if n in ('str', 'list', 'dict', 'int', 'float', 'tuple', 'set', 'bytes'):
                    return False
                if n == 'Iterable' and self.m.method(ty, '__iter__'):
                    return True
                return None
            if ty == 'bool' and n == 'int':
                return True
            if n == ty:
                return True
            if n in self.ABCS:
                return ty in self.ABCS[n] if ty in ('list', 'set', 'dict', 'tuple', 'str', 'int', 'float', 'bool', 'NoneType') else None
            if n in ('str', 'list', 'dict', 'int', 'float', 'tuple', 'set', 'bytes', 'bool'):
                return False
        return None

    # ------------------------------------------------------------------ stores
    def bind(self, target, v, st, node):
        """assign v to target in st -> [states]"""
        if isinstance(target, ast.Name):
            act = self.acts[-1]
            if target.id in act.globals:
                st.sym[(T('g', self.fn.mod.name, target.id), ('glob',))] = v
                self.c.on_global_store(self, st, node, self.fn.mod.name, target.id, v)
                return [st]
            if target.id in act.nonlocals:
                fid = st.frames[st.cur][0]
                while fid is not None and target.id not in st.frames[fid][1]:
                    fid = st.frames[fid][0]
                if fid is not None:
                    st.setvar(target.id, v, fid)
                    return [st]
            st.setvar(target.id, v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            stars = [i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
            ex = self.exact_elems(st, v)
            if v[0] == 'j':
                tups = [x for x in v[1] if x[0] == 'tup' and len(x) == n + 1]
                if tups and not stars:
                    others = [x for x in v[1] if x not in tups and x not in (NONE, UNDEF)]
                    cols = [[t[i + 1] for t in tups] + [T('it', o, C(i)) for o in others] for i in range(n)]
                    states = [st]
                    for x, col in zip(target.elts, cols):
                        states = [s2 for s in states for s2 in self.bind(x, J(col), s, node)]
                    return states
            if ex is not None and ((len(ex) == n and not stars) or (len(stars) == 1 and len(ex) >= n - 1)):
                if stars:
                    i = stars[0]
                    k = len(ex) - (n - 1)
                    mid = self.alloc(st, target, 'list', 'star', seq=tuple(ex[i:i + k]))
                    vals = ex[:i] + [mid] + ex[i + k:]
                else:
                    vals = ex
            else:
                vals = []
                for i in range(n):
                    if i in stars:
                        vals.append(T('it', v, T('slice', C(i), NONE if i == n - 1 else C(i - n + 1), NONE)))
                    elif stars and i > stars[0]:
                        vals.append(T('it', v, C(i - n)))
                    else:
                        key = (v, ('i', C(i)))
                        vals.append(st.sym.get(key) or T('it', v, C(i)))
            states = [st]
            for x, val in zip(target.elts, vals):
                x = x.value if isinstance(x, ast.Starred) else x
                states = [s2 for s in states for s2 in self.bind(x, val, s, node)]
            return states
        if isinstance(target, ast.Starred):
            return self.bind(target.value, v, st, node)
        if isinstance(target, ast.Attribute):
            out = []
            for b, s in self.ev(target.value, st):
                s = s.copy()
                self.setattr(b, target.attr, v, s, node)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for (b, k), s in self.ev_list([target.value, target.slice], st):
                s = s.copy()
                out += self.setitem(b, k, v, s, node)
            return out
        return [st]

    def setattr(self, b, name, v, st, node):
        self.c.on_mutate(self, st, node, b, 'attr:' + name, v)
        for t in alts(b):
            o = self.obj(st, t)
            if o is not None and o.kind == 'inst':
                slots = dict(o.slots)
                if b[0] == 'j' and name in slots:
                    slots[name] = J([slots[name], v])
                else:
                    slots[name] = v
                st.heap[t[1]] = o.replace(slots=slots)
            elif t[0] == 'm':
                st.sym[(T('g', t[1], name), ('glob',))] = v
                self.c.on_global_store(self, st, node, t[1], name, v)
            else:
                st.sym[(t, ('a', name))] = v
                self.drop_conds(st, T('at', t, name))

    def setitem(self, b, k, v, st, node):
        for t in alts(b):
            if t in (NONE, UNDEF):
                continue
            self.c.on_mutate(self, st, node, t, 'item', (k, v))
            self.drop_conds(st, t)
            o = self.obj(st, t)
            if o is not None and o.kind in ('dict', 'list'):
                if o.kind == 'list':
                    if is_c(k) and o.exact and o.seq is not None and isinstance(k[2], int) and -len(o.seq) <= k[2] < len(o.seq) and len(alts(b)) == 1:
                        seq = list(o.seq)
                        seq[k[2]] = v
                        st.heap[t[1]] = o.replace(seq=tuple(seq))
                    else:
                        bag = self.bag_of(st, t, node) | frozenset([(v, frozenset())])
                        st.heap[t[1]] = o.replace(seq=None, bag=bag, exact=False)
                else:
                    slots = dict(o.slots)
                    slots[k] = v if len(alts(b)) == 1 or k not in slots else J([v, slots[k]])
                    if len(slots) > 80:
                        slots = {}
                    st.heap[t[1]] = o.replace(slots=slots, exact=o.exact and is_c(k), alg=self.alg_add(st, o.alg, k))
            else:
                st.sym[(t, ('i', k))] = v
            st.conds[T('cmp', 'in', k, t)] = True
        return [st]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, states):
        fl = Flow(states)
        for s in stmts:
            if not fl.normal:
                break
            nxt = []
            for st in fl.normal:
                self.tick()
                self.c.on_stmt(self, st, s)
                r = self.stmt(s, st)
                nxt += r.normal
                fl.brk += r.brk
                fl.cont += r.cont
            fl.normal = self.prune(nxt)
        fl.brk, fl.cont = self.prune(fl.brk), self.prune(fl.cont)
        return fl

    def stmt(self, s, st):
        meth = getattr(self, 'st_' + type(s).__name__, None)
        if meth is None:
            return Flow([st])
        return meth(s, st)

    def st_Expr(self, s, st):
        return Flow([s2 for v, s2 in self.ev(s.value, st)])

    def st_Pass(self, s, st):
        return Flow([st])

    def st_Assign(self, s, st):
        out = []
        for v, s2 in self.ev(s.value, st):
            states = [s2.copy()]
            for t in s.targets:
                states = [q for p in states for q in self.bind(t, v, p, s)]
            out += states
        return Flow(out)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return Flow([st])
        out = []
        for v, s2 in self.ev(s.value, st):
            out += self.bind(s.target, v, s2.copy(), s)
        return Flow(out)

    def st_AugAssign(self, s, st):
        out = []
        tgt = s.target
        load = ast.copy_location(ast.parse('0', mode='eval').body, tgt)
        if isinstance(tgt, ast.Name):
            cur = [(self.lookup(st, tgt.id, tgt), st)]
        elif isinstance(tgt, ast.Attribute):
            cur = []
            for b, q in self.ev(tgt.value, st):
                cur += self.getattr(b, tgt.attr, q, tgt)
        else:
            cur = []
            for (b, k), q in self.ev_list([tgt.value, tgt.slice], st):
                cur += self.getitem(b, k, q, tgt)
        for old, s1 in cur:
            for v, s2 in self.ev(s.value, s1):
                s2 = s2.copy()
                res = self.augassign(s, old, v, s2)
                for nv, s3 in res:
                    if nv is None:
                        out.append(s3)       # updated in place, binding unchanged
                    else:
                        out += self.bind(tgt, nv, s3, s)
        return Flow(out)

    def augassign(self, s, old, v, st):
        op = type(s.op)
        sym = BINOPS.get(op, '?')
        inplace = False
        for t in alts(old):
            ty = self.type_of(st, t)
            vt = self.type_of(st, v)
            if ty in ('list', 'set') or (ty == 'dict' and sym == '|'):
                inplace = True
            elif ty is None and t[0] not in ('unk', 'c') and vt in ('list', 'set') and sym in '+|&-^':
                inplace = True
        ty = self.type_of(st, old)
        if isinstance(ty, Cls) and sym in '|&-^':
            nm = {'|': '__ior__', '&': '__iand__', '-': '__isub__', '^': '__ixor__'}[sym]
            fn = self.m.method(ty, nm)
            if fn is not None:
                return [(r, q) for r, q in self.call_func(fn, None, (old, v), {}, s, st)]
        if not inplace:
            r, q = self.binop(s, op, old, v, st)
            return [(r, q)]
        for t in alts(old):
            if t in (NONE, UNDEF):
                continue
            self.mutate(st, s, t, 'aug' + sym, v)
            o = self.obj(st, t)
            if o is not None and o.kind == 'list' and sym == '+':
                ex = self.exact_elems(st, v)
                if ex is not None:
                    for x in ex:
                        self.add_elem(st, t, x, s)
                else:
                    o = self.obj(st, t)
                    bag = o.bag | self.bag_of(st, v, s)
                    if o.seq is not None:
                        bag |= frozenset((x, frozenset()) for x in o.seq)
                    st.heap[t[1]] = o.replace(seq=None, bag=bag, exact=False, alg=T('sop', '|', o.alg or T('top'), self.content(st, v)))
            else:
                cur = self.content(st, t)
                oo = sym if sym in '|&-^' else '|'
                alg = T('sop', oo, cur, self.content_iter(st, v))
                if o is not None:
                    bag = self.bag_of(st, t, s) | (self.bag_of(st, v, s) if oo in '|^' else frozenset())
                    st.heap[t[1]] = o.replace(seq=None, bag=bag, alg=alg, exact=False)
                else:
                    self.set_content(st, t, alg)
        return [(None, st)]

    def st_Delete(self, s, st):
        states = [st.copy()]
        for t in s.targets:
            nxt = []
            for q in states:
                if isinstance(t, ast.Name):
                    q.setvar(t.id, UNDEF)
                    nxt.append(q)
                elif isinstance(t, ast.Attribute):
                    for b, p in self.ev(t.value, q):
                        p = p.copy()
                        self.c.on_mutate(self, p, s, b, 'delattr:' + t.attr)
                        nxt.append(p)
                elif isinstance(t, ast.Subscript):
                    for (b, k), p in self.ev_list([t.value, t.slice], q):
                        p = p.copy()
                        for x in alts(b):
                            self.c.on_mutate(self, p, s, x, 'delitem', k)
                            self.drop_conds(p, x)
                            o = self.obj(p, x)
                            if o is not None and o.kind == 'dict' and k in o.slots:
                                slots = dict(o.slots)
                                slots.pop(k)
                                p.heap[x[1]] = o.replace(slots=slots)
                            p.sym.pop((x, ('i', k)), None)
                        nxt.append(p)
                else:
                    nxt.append(q)
            states = nxt
        return Flow(states)

    def st_If(self, s, st):
        fl = Flow()
        for v, s2 in self.branch(s.test, st):
            body = s.body if v else s.orelse
            if not body:
                fl.normal.append(s2)
                continue
            r = self.block(body, [s2])
            fl.normal += r.normal
            fl.brk += r.brk
            fl.cont += r.cont
        fl.normal = self.prune(fl.normal)
        return fl

    def st_Return(self, s, st):
        for v, s2 in (self.ev(s.value, st) if s.value is not None else [(NONE, st)]):
            self.c.on_return(self, s2, self.fn, v, s)
            self.acts[-1].returns.append((s2, v))
        return Flow([])

    def st_Raise(self, s, st):
        if s.exc is None:
            exc = st.facts.get('$exc', 'ANY')
            self.do_raise(st.copy(), exc, s)
            return Flow([])
        for v, s2 in self.ev(s.exc, st):
            self.do_raise(s2.copy(), self.exc_of(s2, v), s)
        return Flow([])

    def exc_of(self, st, v):
        if v[0] == 'k':
            return self.m.classes[v[1]]
        if v[0] == 'x':
            return v[1].split('.')[-1]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and isinstance(o.cls, Cls):
                return o.cls
        if v[0] == 'call':
            f = v[1]
            if f[0] == 'x':
                return f[1].split('.')[-1]
            if f[0] == 'k':
                return self.m.classes[f[1]]
        if v[0] == 'excval':
            return v[1] if isinstance(v[1], str) and not v[1].startswith('#') else self.m.classes.get(v[1][1:], 'ANY')
        return 'ANY'

    def st_Break(self, s, st):
        f = Flow([])
        f.brk = [st]
        return f

    def st_Continue(self, s, st):
        f = Flow([])
        f.cont = [st]
        return f

    def st_FunctionDef(self, s, st):
        st = st.copy()
        st.setvar(s.name, T('f', s._func.fid, st.cur))
        return Flow([st])

    def st_ClassDef(self, s, st):
        st = st.copy()
        st.setvar(s.name, T('unk', self.site(s)))
        return Flow([st])

    def st_Import(self, s, st):
        st = st.copy()
        for a in s.names:
            nm = (a.asname or a.name).split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.setvar(nm, T('m', full) if full in self.m.mods else T('x', full))
        return Flow([st])

    def st_ImportFrom(self, s, st):
        st = st.copy()
        src = self.m._absmod(self.fn.mod, s)
        for a in s.names:
            st.setvar(a.asname or a.name, self.res_term(self.m._from(src, a.name)))
        return Flow([st])

    def st_Assert(self, s, st):
        out = []
        for v, s2 in self.branch(s.test, st):
            if v:
                out.append(s2)
            else:
                self.do_raise(s2.copy(), 'AssertionError', s)
        return Flow(out)

    def st_With(self, s, st):
        states = [st]
        ctxs = []
        for item in s.items:
            nxt = []
            for q in states:
                for v, q2 in self.ev(item.context_expr, q):
                    q2 = q2.copy()
                    self.c.on_with(self, q2, s, 'enter', v)
                    q2.facts['$with', id(item)] = v
                    if item.optional_vars is not None:
                        nxt += self.bind(item.optional_vars, v, q2, s)
                    else:
                        nxt.append(q2)
            states = nxt
        mark = [len(l) for l, n in self.raisers]
        nret = len(self.acts[-1].returns)
        fl = self.block(s.body, states)
        def leave(q):
            for item in reversed(s.items):
                v = q.facts.get(('$with', id(item)))
                if v is not None:
                    self.c.on_with(self, q, s, 'exit', v)
                    q.facts = {k: x for k, x in q.facts.items() if k != ('$with', id(item))}
        for q in fl.normal + fl.brk + fl.cont:
            leave(q)
        for q, v in self.acts[-1].returns[nret:]:
            leave(q)
        for i, (l, n) in enumerate(self.raisers):
            for q, x, nd, im in l[(mark[i] if i < len(mark) else 0):]:
                leave(q)
        return fl

    def loop_targets(self, st, s):
        return assigned_names(s.body + ([s.target] if isinstance(s, ast.For) else []))

    def havoc(self, st, s):
        """forget variables carried around the loop"""
        st = st.copy()
        names = self.loop_targets(st, s)
        body_nodes = s.body
        env = st.frames[st.cur][1]
        for n in names:
            v = env.get(n)
            if v is None:
                continue
            alt = T('phi', self.site(s), n)
            ty = self.type_of(st, v)
            if ty in ('list', 'set', 'dict', 'tuple') or isinstance(ty, Cls):
                st.setvar(n, J([v, alt]) if self.rebound(s, n) else v)
            elif v[0] == 'undef':
                st.setvar(n, J([v, alt]))
            elif v[0] == 'j' and UNDEF in v[1]:
                st.setvar(n, J([UNDEF, alt]))
            elif v[0] in ('p', 'at', 'el', 'it', 'j', 'call'):
                st.setvar(n, J([v, alt]) if self.rebound(s, n) else v)
            else:
                st.setvar(n, alt)
        # conditions about phis of an earlier visit are void
        return st

    def rebound(self, s, n):
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                continue
            if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
                p = getattr(x, '_parent', None)
                if isinstance(p, ast.AugAssign) and p.target is x:
                    continue
                return True
        return False

    def st_For(self, s, st):
        fl = Flow()
        for it, s1 in self.ev(s.iter, st):
            ex = self.exact_elems(s1, it)
            self.c.on_call(self, s1, s, 'for:', it, (), {})
            if ex is not None and len(ex) <= self.c.unroll:
                pend, broke = [s1], []
                for x in ex:
                    nxt = []
                    for p in pend:
                        for p2 in self.bind(s.target, x, p.copy(), s):
                            r = self.block(s.body, [p2])
                            nxt += r.normal + r.cont
                            broke += r.brk
                    pend = self.prune(nxt)
                r = self.block(s.orelse, pend) if s.orelse else Flow(pend)
                fl.normal += r.normal + broke
                fl.brk += r.brk
                fl.cont += r.cont
                continue
            if self.raisers and self.raisers[-1][1] is not None and not isinstance(it, str):
                ty = self.type_of(s1, it)
                if ty is None or ty == 'file':
                    self.do_raise(s1.copy(), 'ANY', s, implicit=True)
            zero = s1.copy()
            inner = self.havoc(s1, s)
            inner.loops = inner.loops + (self.site(s),)
            n = len(s1.loops)
            x = self.elem(inner, it, s.iter)
            old = subterms(it)
            stale = [a for a in inner.conds if any(y in subterms(a) for y in subterms(x) if y[0] == 'el' and y not in old)]
            for a in stale:
                del inner.conds[a]
            self.grown(s, inner, n)
            self.c.on_loop(self, inner, s, 'enter', it)
            ends, broke = [], []
            nret = len(self.acts[-1].returns)
            start = dict(inner.frames[inner.cur][1])
            for p in self.bind(s.target, x, inner, s):
                r = self.block(s.body, [p])
                ends += r.normal + r.cont
                broke += r.brk
            stops = broke + [p for p, v in self.acts[-1].returns[nret:]]
            for p in ends:
                self.c.on_loop(self, p, s, 'iter-end', it)
            for p in broke:
                self.c.on_loop(self, p, s, 'break', it)
            none = self.none_of(it, x, zero, stops) if stops else None
            after = self.after_loop(s, zero, ends, n, start, it, x)
            for p in after:
                if none is not None:
                    p.conds[none] = True
                self.c.on_loop(self, p, s, 'exit', it)
            for p in broke:
                p.loops = p.loops[:n]
            r = self.block(s.orelse, after) if s.orelse else Flow(after)
            fl.normal += r.normal + self.prune(broke, 8)
            fl.brk += r.brk
            fl.cont += r.cont
        fl.normal = self.prune(fl.normal)
        return fl

    def none_of(self, it, x, zero, stops):
        """the fact that no element took one of the paths that end the loop early"""
        els = {y for y in subterms(x) if y[0] == 'el' and y not in subterms(it)}
        alls = set()
        for p in stops:
            lits = [T('lit', a, C(v)) for a, v in p.conds.items() if zero.conds.get(a) is not v and any(y in els for y in subterms(a))]
            if not lits or any(y[0] == 'phi' for l in lits for y in subterms(l)):
                return None
            alls.add(T('all', *sorted(lits, key=order)))
        return T('none', it, *sorted(alls, key=order))

    def after_loop(self, s, zero, ends, n, start=None, it=None, x=None):
        """states after the loop ran out: no iteration, or some"""
        for p in ends:
            p.loops = p.loops[:n]
        if not ends:
            return [zero]
        split = []
        if start is not None:
            env0 = zero.frames[zero.cur][1]
            for nm in sorted(start):
                if nm not in env0 or env0[nm] == start[nm]:
                    continue
                vals = [p.frames[p.cur][1].get(nm) for p in ends]
                if all(v == start[nm] for v in vals):
                    for p in ends:
                        p.setvar(nm, env0[nm])       # never changed by an iteration that goes on
                elif not split and is_c(env0[nm]) and isinstance(env0[nm][2], bool):
                    other = C(not env0[nm][2])
                    if all(v in (start[nm], other, env0[nm]) for v in vals) and env0[nm] not in vals and start[nm] in vals:
                        split = [nm, other]
        if split:
            nm, other = split
            hit = [p for p in ends if p.frames[p.cur][1].get(nm) == other]
            rest = [p for p in ends if p not in hit]
            none = self.none_of(it, x, zero, hit)
            wit = [frozenset((a, v) for a, v in p.conds.items()) for p in hit]
            for p in rest:
                p.setvar(nm, zero.frames[zero.cur][1][nm])
            s1 = self.after_loop2(s, zero, [p.copy() for p in ends])
            s0 = self.after_loop2(s, zero, rest) if rest else zero.copy()
            s1.setvar(nm, other)
            for a, v in frozenset.intersection(*wit):
                s1.conds.setdefault(a, v)
            s0.setvar(nm, zero.frames[zero.cur][1][nm])
            if none is not None:
                s0.conds[none] = True
            return [s0, s1]
        return [self.after_loop2(s, zero, ends)]

    def after_loop2(self, s, zero, ends):
        ends = self.prune(ends, 6)
        res = None
        for p in ends:
            p.conds = {k: v for k, v in p.conds.items() if zero.conds.get(k) == v or not any(
                y[0] == 'el' or y[0] == 'phi' for y in subterms(k))}
            res = p if res is None else self.join_loop(res, p)
        return self.join_zero(zero, res)

    def join_loop(self, a, b):
        j = self.join2(a, b)
        # contents accumulate over iterations: union, not alternative
        for oid, oj in list(j.heap.items()):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is not None and ob is not None and oa.alg != ob.alg and oa.alg is not None and ob.alg is not None:
                j.heap[oid] = oj.replace(alg=T('sop', '|', oa.alg, ob.alg) if grows(oa.alg) and grows(ob.alg) else oj.alg)
        for k in j.sym:
            if k[1][0] == 'alg':
                base = T('base', k[0])
                va, vb = a.sym.get(k, base), b.sym.get(k, base)
                if va != vb:
                    ca, cb = minus_parts(va, base), minus_parts(vb, base)
                    if ca is not None and cb is not None:
                        e = base
                        for x in ca + [y for y in cb if y not in ca]:
                            e = T('sop', x[0], e, x[1])
                        j.sym[k] = e
        return j

    def join_zero(self, zero, res):
        j = self.join2(zero, res)
        for oid, oj in list(j.heap.items()):
            oz, orr = zero.heap.get(oid), res.heap.get(oid)
            if oz is not None and orr is not None and oz.alg != orr.alg:
                # zero iterations of the same data is the empty case of the loop's own content
                j.heap[oid] = oj.replace(alg=orr.alg)
        for k in list(j.sym):
            if k[1][0] == 'alg' and res.sym.get(k) is not None:
                j.sym[k] = res.sym[k]
        return j

    def st_While(self, s, st):
        fl = Flow()
        n = len(st.loops)
        inner = self.havoc(st, s)
        inner.loops = inner.loops + (self.site(s),)
        names = self.loop_targets(st, s)
        # first test from the entry state tells whether the body can be skipped
        skipped = [q for v, q in self.branch(s.test, st.copy()) if not v]
        # heap objects changed in the body are no longer exact: approximate by one pass
        self.c.on_loop(self, inner, s, 'enter', None)
        for oid, o in list(inner.heap.items()):
            if o.kind in ('list', 'set') and o.seq is not None and o.exact and self.touched(s, inner, oid):
                inner.heap[oid] = o.replace(seq=None, bag=o.bag | frozenset((x, frozenset()) for x in o.seq), exact=False)
        ends, broke, exits = [], [], []
        for v, q in self.branch(s.test, inner):
            if not v:
                exits.append(q)
                continue
            r = self.block(s.body, [q])
            ends += r.normal + r.cont
            broke += r.brk
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for p in ends:
            self.c.on_loop(self, p, s, 'iter-end', None)
        for p in broke:
            self.c.on_loop(self, p, s, 'break', None)
        for p in ends + broke + exits:
            p.loops = p.loops[:n]
        after = list(skipped)
        if not const_true:
            for p in self.prune(ends, 6):
                # the loop is left when the test fails on a later visit
                p = self.havoc(p, s)
                for v, q in self.branch(s.test, p):
                    if not v:
                        after.append(q)
        for p in after:
            self.c.on_loop(self, p, s, 'exit', None)
        after = self.prune(after, 8)
        r = self.block(s.orelse, after) if s.orelse else Flow(after)
        fl.normal += r.normal + self.prune(broke, 8)
        fl.brk += r.brk
        fl.cont += r.cont
        return fl

    def grown(self, s, st, n):
        """containers of the function that an earlier iteration may have added to are not known exactly"""
        env = st.frames[st.cur][1]
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                nm = x.target.id
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                nm = x.value.id
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in DICT_MUT or x.func.attr in GROW) and isinstance(x.func.value, ast.Name):
                nm = x.func.value.id
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and isinstance(x.func.value, ast.Subscript) and isinstance(x.func.value.value, ast.Name):
                v = env.get(x.func.value.value.id)
                o = self.obj(st, v) if v is not None and v[0] == 'r' else None
                if o is not None and o.depth <= n:
                    for w in list(o.slots.values()) + [y for y, g in o.bag] + list(o.seq or ()):
                        i = self.obj(st, w) if w[0] == 'r' else None
                        if i is not None and i.kind in ('list', 'set') and i.exact and i.depth <= n:
                            self.carried.setdefault(self.site(s), set()).add(w[1])
                continue
            else:
                continue
            v = env.get(nm)
            o = self.obj(st, v) if v is not None and v[0] == 'r' else None
            if o is not None and o.kind == 'dict' and o.exact and o.depth <= n:
                st.heap[v[1]] = o.replace(exact=False)
            elif o is not None and o.kind in ('list', 'set') and o.exact and o.depth <= n:
                self.carried.setdefault(self.site(s), set()).add(v[1])

    def touched(self, s, st, oid):
        names = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                names.add(x.id)
        env = st.frames[st.cur][1]
        return any(T('r', oid) in alts(env[n]) for n in names if n in env)

    def handler_types(self, h, st):
        if h.type is None:
            return None
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in es:
            v, _ = self.ev(e, st)[0]
            if v[0] == 'k':
                out.append(self.m.classes[v[1]])
            elif v[0] == 'x':
                out.append(v[1].split('.')[-1])
            elif v[0] == 'tup':
                for x in v[1:]:
                    out.append(self.m.classes[x[1]] if x[0] == 'k' else x[1].split('.')[-1] if x[0] == 'x' else 'ANY')
            else:
                out.append('ANY')
        return out

    def st_Try(self, s, st):
        names = set()
        htypes = []
        for h in s.handlers:
            ht = self.handler_types(h, st)
            htypes.append(ht)
            if ht is None:
                names.add('ANY')
            else:
                for x in ht:
                    n = x.name if isinstance(x, Cls) else x
                    names.add(n)
                    if n in ('Exception', 'BaseException'):
                        names.add('ANY')
        nret = len(self.acts[-1].returns)
        self.raisers.append(([], names if s.handlers else None))
        cur, loops = st.cur, st.loops
        try:
            fl = self.block(s.body, [st])
        finally:
            raised = self.raisers.pop()[0]
        if s.orelse and fl.normal:
            r = self.block(s.orelse, fl.normal)
            fl.normal = r.normal
            fl.brk += r.brk
            fl.cont += r.cont
        out_raise = []
        # route raised states
        if raised and s.handlers:
            buckets = [[] for _ in s.handlers]
            for q, exc, nd, implicit in raised:
                q.cur, q.loops = cur, loops
                taken = False
                for i, ht in enumerate(htypes):
                    m = self.exc_matches(exc, ht)
                    if m:
                        buckets[i].append((q, exc, nd, implicit))
                        if m is True:
                            taken = True
                            break
                if not taken and not (implicit and exc == 'ANY'):
                    out_raise.append((q, exc, nd, implicit))
            for h, b, ht in zip(s.handlers, buckets, htypes):
                if not b:
                    continue
                by = {}
                for q, exc, nd, im in b:
                    by.setdefault((exc if not isinstance(exc, Cls) else exc, im), []).append(q)
                for (exc, im), qs in by.items():
                    for q in self.prune(qs, self.c.handler_states):
                        q = q.copy()
                        eff = exc
                        if exc == 'ANY':
                            eff = ht[0] if ht and len(ht) == 1 else 'ANY'
                        old = q.facts.get('$exc')
                        q.facts['$exc'] = eff
                        if h.name:
                            q.setvar(h.name, T('excval', '#' + eff.cid if isinstance(eff, Cls) else eff))
                        self.c.on_handler(self, q, h, eff)
                        r = self.block(h.body, [q])
                        for z in r.normal + r.brk + r.cont:
                            z.facts.pop('$exc', None)
                            if old is not None:
                                z.facts['$exc'] = old
                            if h.name:
                                z.setvar(h.name, UNDEF)
                        fl.normal += r.normal
                        fl.brk += r.brk
                        fl.cont += r.cont
        elif raised:
            for q, exc, nd, im in raised:
                q.cur, q.loops = cur, loops
                out_raise.append((q, exc, nd, im))
        if s.finalbody:
            self.fin(s, fl, nret, out_raise)
        else:
            for x in out_raise:
                self.raisers[-1][0].append(x) if self.raisers else None
        fl.normal = self.prune(fl.normal)
        return fl

    def fin(self, s, fl, nret, out_raise):
        act = self.acts[-1]
        rets = act.returns[nret:]
        del act.returns[nret:]
        for kind in ('normal', 'brk', 'cont'):
            lst = getattr(fl, kind)
            if lst:
                r = self.block(s.finalbody, self.prune(lst))
                setattr(fl, kind, r.normal)
                if kind == 'normal':
                    fl.brk += r.brk
                    fl.cont += r.cont
        for q, v in rets:
            r = self.block(s.finalbody, [q])
            for z in r.normal:
                act.returns.append((z, v))
        for q, exc, nd, im in out_raise:
            q = q.copy()
            q.facts['$finexc'] = exc if isinstance(exc, str) else exc.name
            n0 = len(act.returns)
            r = self.block(s.finalbody, [q])
            for z in r.normal:
                z.facts.pop('$finexc', None)
                if self.raisers:
                    self.raisers[-1][0].append((z, exc, nd, im))

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None, selfcls=None, ptypes=None, setup=None):
        """Interpret fn from symbolic parameters. Returns (returns, raises):
        [(state, value)], [(state, exc, node, implicit)]"""
        st = State()
        a = fn.node.args
        binds = {}
        self.ptypes = dict(ptypes or {})
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            binds[n] = (args or {}).get(n, T('p', n))
        if a.vararg:
            binds[a.vararg.arg] = (args or {}).get(a.vararg.arg, T('p', a.vararg.arg))
        if a.kwarg:
            binds[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, T('p', a.kwarg.arg))
        if selfcls is not None and fn.kind == 'method' and names:
            self.ptypes[names[0]] = selfcls
        fid = (fn.fid,)
        st.frames[fid] = (None, binds)
        st.cur = fid
        act = Act(fn, fid)
        self.acts = [act]
        self.ctxpath = ()
        self.raisers = [([], None)]
        if setup:
            setup(st)
        self.c.on_enter(self, st, fn, binds)
        if isinstance(fn.node, ast.Lambda):
            rets = [(s, v) for v, s in self.ev(fn.node.body, st)]
        else:
            if is_generator(fn.node):
                st.heap[('gen',) + fid] = HObj('list', seq=None, exact=False, alg=T('lit', frozenset()))
            fl = self.block(fn.node.body, [st])
            for s in fl.normal:
                self.c.on_return(self, s, fn, NONE, None)
            rets = act.returns + [(s, NONE) for s in fl.normal]
        raises = self.raisers[0][0]
        self.acts = []
        return rets, raises


def grows(alg):
    """an expression built only by adding to an empty/literal start"""
    if alg[0] in ('lit', 'filt', 'base', 'alt'):
        return True
    if alg[0] == 'sop' and alg[1] == '|':
        return True
    return False


def clean(alg):
    return not any(x[0] == 'top' for x in subterms(alg))


def minus_parts(e, base):
    parts = []
    while e != base:
        if e[0] == 'sop':
            parts.insert(0, (e[1], e[3]))
            e = e[2]
        else:
            return None
    return parts


BUILTIN_EXC = {
    'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'UnicodeDecodeError': ('UnicodeError', 'ValueError'),
    'UnicodeEncodeError': ('UnicodeError', 'ValueError'), 'ValueError': (), 'TypeError': (), 'AttributeError': (),
    'StopIteration': (), 'OSError': ('IOError', 'EnvironmentError'), 'FileNotFoundError': ('OSError', 'IOError'),
    'PermissionError': ('OSError', 'IOError'), 'EOFError': (), 'PickleError': (), 'UnpicklingError': ('PickleError',),
    'NotImplementedError': ('RuntimeError',), 'RuntimeError': (), 'ImportError': (), 'ZeroDivisionError': ('ArithmeticError',),
    'KeyboardInterrupt': (), 'AssertionError': (), 'NameError': (), 'Error': (), 'GeneratorExit': (), 'SystemExit': (),
    'UnboundLocalError': ('NameError',), 'LookupError': (), 'Exception': (), 'Warning': (),
}
