"""C12: a directory cache is used only for exactly the collection that would be
built again, and a cache that does not fit leaves no trace."""
import ast

from ..files import Client, explore
from ..interp import C, NONE, T, alts, Term, is_c, show, subterms

LOADS = ('load', 'loads')
DUMPS = ('dump', 'dumps')


def swap(t, table):
    """t with the given sub-terms replaced"""
    if t in table:
        return table[t]
    if isinstance(t, tuple):
        r = tuple(swap(x, table) if isinstance(x, tuple) else x for x in t)
        return T(*r) if r and isinstance(r[0], str) and isinstance(t, Term) else r
    return t


def inner(t):
    """functions nested in or called by name from a method body"""
    return {n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id for n in ast.walk(t.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))}


def uses(f, names):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in names and isinstance(n.func.value, ast.Name) and n.func.value.id in ('pickle', 'cPickle', '_pickle', 'dill') or
                                            isinstance(n.func, ast.Name) and n.func.id in names) for n in ast.walk(f.node))


def reaches(m, f, names, seen=None):
    """does the method, or a helper it calls by name, (un)pickle?"""
    seen = seen if seen is not None else set()
    if f.fid in seen or len(seen) > 40:
        return False
    seen.add(f.fid)
    if uses(f, names):
        return True
    for n in inner(f):
        for g in m.funcs.values():
            if g.name == n and g.name.startswith('_') and not g.name.startswith('__') and g.mod is f.mod and reaches(m, g, names, seen):
                return True
    return False


def unpickled(t):
    """is the term a part of what was read from the cache file?"""
    return any(x[0] == 'call' and x[1][0] == 'x' and x[1][1].split('.')[-1] in LOADS and 'pickle' in x[1][1] or
               x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'load' for x in subterms(t) if isinstance(x, tuple) and x)


def key_of(t):
    """(key, rest) when t is <unpickled>[...]['key'] or .get('key')"""
    if t[0] == 'it' and len(t) == 3 and unpickled(t[1]):
        return t[2], t[1]
    if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'get' and t[2] and unpickled(t[1][1]):
        return t[2][0], t[1][1]
    return None, None


class Plain(Client):
    max_states = 300
    handler_states = 60


class Writer(Plain):
    def __init__(self, top, opaque=()):
        Plain.__init__(self, top, opaque)
        self.dumps = []

    def inline(self, eng, fn, st):
        return fn is self.top or fn.parent is not None or fn.name.startswith('_') and not fn.name.startswith('__')

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name.split('.')[-1] in DUMPS and 'pickle' in name and args:
            self.dumps.append((st.copy() if hasattr(st, 'copy') else st, args[0], eng.where(node), eng))
        Plain.on_call(self, eng, st, node, name, recv, args, kw)


class Loader(Plain):
    def __init__(self, top, files, opaque=()):
        Plain.__init__(self, top, opaque)
        self.filesp = files
        self.sets = []

    inline = Writer.inline

    harm = None

    lost = None

    def on_undef(self, eng, st, node, name, maybe):
        self.lost = (name, eng.where(node))

    def of_files(self, eng, st, t):
        for x in subterms(t):
            if x == self.filesp:
                return True
            o = eng.obj(st, x) if x and x[0] == 'r' else None
            if o is not None and (o.src == self.filesp or o.src is not None and o.src != x and self.of_files(eng, st, o.src) or
                                  any(self.filesp in subterms(b[0]) for b in o.bag or () if isinstance(b, tuple) and b and isinstance(b[0], tuple))):
                return True
        return False

    def timed(self, st, keys):
        """comparisons of a file's stamp known on this path"""
        out = []
        for k, v in st.conds.items():
            for a, val in atoms(k, v):
                if a[0] == 'cmp' and a[1] not in ('in', 'is', 'not in'):
                    for x, y in ((a[2], a[3]), (a[3], a[2])):
                        kk, base = key_of(x)
                        if kk is not None and not is_c(kk):
                            out.append((a[1], val, kk, base, y, x))
        return out

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if not isinstance(node, (ast.For, ast.While)):
            return
        if phase == 'exit' and isinstance(node, ast.While) and node_reads(node):
            for k, v in st.conds.items():
                for a, b in atoms(k, v):
                    if a[0] == 'cmp' and len(a) == 4:
                        for x, y, flip in ((a[2], a[3], False), (a[3], a[2], True)):
                            if x[0] == 'call' and x[1] == T('x', 'len') and is_c(y) and isinstance(y[2], int) and self.of_files(eng, st, x[2][0]):
                                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(a[1], a[1]) if flip else a[1]
                                left = {n for n in range(0, 6) if bool({'<': n < y[2], '<=': n <= y[2], '>': n > y[2], '>=': n >= y[2], '==': n == y[2], '!=': n != y[2]}.get(op, True)) == b}
                                if left - {0}:
                                    st.facts['unchecked'] = 'a loop left before every file is compared'
        if phase in ('iter-end', 'break'):
            if node_reads(node) or any(True for _ in self.timed(st, None)):
                hit = [t for t in self.timed(st, None) if t[0] == '==' and t[1]]
                if phase == 'iter-end' and not hit:
                    st.facts['unchecked'] = 'an iteration that ends without comparing the file'
                if phase == 'break' and not hit and any(isinstance(n, ast.Constant) for n in ast.walk(node)):
                    gone = any(v is False and a[0] == 'truth' for a, v in st.conds.items())
                    if not gone:
                        st.facts['unchecked'] = 'a loop left before every file is compared'
                if phase == 'break' and hit:
                    st.facts['unchecked'] = 'a loop left before every file is compared'

    def on_mutate(self, eng, st, node, t, how, value=None):
        if t is self.filesp and how not in ('sort', 'reverse'):
            self.harm = (how, eng.where(node))
        if t == T('p', 'self') and how.startswith('attr'):
            self.sets.append((how, value, eng.where(node)))
            st.facts['set'] = True

    def join_fact(self, k, a, b):
        if k in ('unchecked', 'set'):
            return a or b
        return Plain.join_fact(self, k, a, b)


def node_reads(node):
    return any(isinstance(n, ast.Attribute) and n.attr in ('st_mtime', 'getmtime', 'stat', 'st_mtime_ns', 'st_size', 'st_ctime') for n in ast.walk(node))


def atoms(k, v):
    """the literals a path condition settles"""
    if k[0] == 'dnf':
        if v is True and len(k) == 2:
            return [(l[1], l[2] == C(True)) for l in k[1][1:] if l and l[0] == 'lit' and len(l) == 3]
        return []
    return [(k, v)]


class Ctor(Plain):
    max_states = 300
    handler_states = 30

    def __init__(self, top, load, store):
        Plain.__init__(self, top, ())
        self.load, self.store = load, store
        self.bad, self.ends = [], []
        self.stored = self.loaded = 0

    def args(self, eng, fn, st, args, kw):
        names = [a.arg for a in fn.node.args.args]
        if names and names[0] == 'self' and (not args or args[0] != T('p', 'self')):
            names = names[1:]
        out = dict(zip(names, args))
        out.update(kw)
        out.pop('self', None)
        return out

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'for:' and st.facts.get('tried'):
            if any(v in subterms(recv) for k, v in st.facts['tried'] if v[0] == 'r'):
                st.facts['read'] = True
            return
        nm = name.split('.')[-1]
        where = eng.where(node)
        if nm in (self.load.name, self.store.name) and '.' not in name:
            fn = self.load if nm == self.load.name else self.store
            a = self.args(eng, fn, st, args, kw)
            cond = [v for k, v in st.conds.items() if k in (T('truth', T('p', 'cached')), T('cmp', 'is', T('p', 'cached'), C(True)))]
            if not any(cond):
                self.bad.append(('on-request', '{} is called without caching having been asked for'.format(nm), where))
            if fn is self.load:
                self.loaded += 1
                st.facts['tried'] = tuple(sorted(a.items()))
                st.facts['changed'] = None
                self.key(eng, st, a, where)
            else:
                self.stored += 1
                st.facts['stored'] = True
                if not st.facts.get('built'):
                    self.bad.append(('stored-complete', 'the cache is written before the collection is complete', where))
                self.compare(eng, st, a, where)
        elif nm == '__init__' and recv is None or nm == '__init__' and name.startswith(('Collection', 'super')):
            st.facts['built'] = True
            if st.facts.get('stored'):
                self.bad.append(('stored-complete', 'the collection is filled after its cache was written', where))
        Plain.on_call(self, eng, st, node, name, recv, args, kw)

    def files_arg(self, eng, st, a):
        for k, v in a.items():
            o = eng.obj(st, v)
            if o is not None and o.kind in ('list', 'set', 'dict', 'tuple'):
                return k, v
        return None, None

    def key(self, eng, st, a, where):
        ps = {T('p', x.arg) for x in self.top.node.args.args}
        ext = T('p', 'extension')
        names = [v for k, v in a.items() if any(is_c(x) and isinstance(x[2], str) and 'Cache' in x[2] for x in subterms(v))]
        if ext in ps and names and not any(ext in subterms(v) for v in names):
            self.bad.append(('key-extension', 'the cache file does not depend on the extension, so two extensions share one cache', where))
        if names:
            first = T('p', self.top.node.args.args[1].arg)
            if not any(first in subterms(v) for v in names):
                self.bad.append(('key-extension', 'the cache file does not depend on the directory read', where))

    def compare(self, eng, st, a, where):
        tried = st.facts.get('tried')
        if tried is None:
            self.bad.append(('same-key', 'the cache is written on a path that never looked for one', where))
            return
        la = dict(tried)
        lf = [x.arg for x in self.load.node.args.args if x.arg != 'self']
        sf = [x.arg for x in self.store.node.args.args if x.arg != 'self']
        st.facts.setdefault('pairs', frozenset())
        self.pairs = getattr(self, 'pairs', [])
        self.pairs.append((la, a, where))
        if set(la.values()) != set(a.values()):
            x = [v for v in a.values() if v not in la.values()]
            y = [v for v in la.values() if v not in a.values()]
            self.bad.append(('same-key', 'the cache is looked up with {} but written with {}'.format([show(v)[:60] for v in y], [show(v)[:60] for v in x]), where))
        if st.facts.get('changed'):
            self.bad.append(('same-key', 'the list of files changes between looking the cache up and writing it ({})'.format(st.facts['changed']), where))

    def on_mutate(self, eng, st, node, t, how, value=None):
        tried = st.facts.get('tried')
        if tried and any(t == v for k, v in tried) and not how.startswith('attr'):
            o = eng.obj(st, t)
            if o is not None and o.kind in ('list', 'set', 'dict') and how not in ('sort', 'reverse'):
                st.facts['changed'] = '{} at {}'.format(how, eng.where(node))
        if how in ('append', 'add') and t[0] == 'r':
            v = value[0] if isinstance(value, tuple) and value and isinstance(value[0], tuple) else value
            if isinstance(v, tuple):
                ends = set()
                for k, b in st.conds.items():
                    for x, val in atoms(k, b):
                        if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'endswith' and val is False:
                            ends |= {s[2] for s in subterms(T('t', *x[2])) if is_c(s) and isinstance(s[2], str)}
                        if x[0] == 'cmp' and x[1] in ('in', '==') and val is False:
                            ends |= {s[2] for s in (x[2], x[3]) if is_c(s) and isinstance(s[2], str)}
                            if x[2] == v or x[3] == v:
                                ends.add(('same', x[2], x[3]))
                self.puts = getattr(self, 'puts', {})
                self.puts.setdefault(t, []).append((ends, eng.where(node)))
        if t == T('p', 'self') and how.startswith('attr') and st.facts.get('stored'):
            self.bad.append(('stored-complete', 'the collection changes ({}) after its cache was written'.format(how), eng.where(node)))

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        pass

    def join_fact(self, k, a, b):
        if k in ('tried', 'changed', 'pairs'):
            return a if a == b else (a or b if k == 'changed' else None)
        if k in ('stored', 'built', 'read'):
            return True if a and b else None
        return Plain.join_fact(self, k, a, b)

    def on_return(self, eng, st, fn, value, node):
        if fn is self.top:
            won = None
            for k, v in st.conds.items():
                for x, val in atoms(k, v):
                    if any(y[0] == 'call' and y[1][0] in ('f', 'meth', 'bm') and self.load.name in str(y[1]) for y in subterms(x) if isinstance(y, tuple) and y):
                        won = val
            self.ends.append((won, bool(st.facts.get('built')), bool(st.facts.get('read')), bool(st.facts.get('stored')), st.facts.get('tried') is not None, eng.where(node) if node is not None else fn.where()))


def tail(t):
    """constant text the path of the cache ends with"""
    if t[0] == 'call' and t[1][0] in ('x', 'g', 'f') and t[2]:
        return tail(t[2][-1])
    if t[0] == 'bin' and t[1] == '+':
        return tail(t[3])
    if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] == 'format' and is_c(t[1][1]):
        return t[1][1][2].split('}')[-1]
    if t[0] == 'fstr' and is_c(t[-1]):
        return t[-1][2]
    if t[0] == 'bin' and t[1] == '%' and is_c(t[2]):
        return t[2][2].split('%s')[-1]
    return t[2] if is_c(t) and isinstance(t[2], str) else None


def run(ctx):
    m = ctx.model
    ctx.rule('key-compared', 'everything stored to identify a cache is compared with its present value before the cache is used')
    ctx.rule('files-compared', 'a cache is used only when it lists exactly the files read now and each has the time stamp it had then')
    ctx.rule('miss-harmless', 'a cache that does not fit, or cannot be read, leaves the collection untouched and raises nothing')
    ctx.rule('hit-complete', 'a cache that fits gives the collection that was stored')
    ctx.rule('on-request', 'caches are read and written only when caching was asked for')
    ctx.rule('same-key', 'a cache is written under the same path, files, name and extension it is looked up with')
    ctx.rule('key-extension', 'the cache file depends on the directory and the extension')
    ctx.rule('stored-complete', 'a cache is written only once the collection is complete')
    ctx.rule('not-own-input', 'cache files are not read as input')
    ctx.rule('hit-or-parse', 'with a fitting cache nothing is parsed, without one everything is parsed and the cache is written')
    n = 0
    done = set()
    for c in sorted(m.classes.values(), key=lambda c: c.cid if hasattr(c, 'cid') else c.name):
        init = c.methods.get('__init__') if hasattr(c, 'methods') else None
        if init is None or 'cached' not in [a.arg for a in init.node.args.args]:
            continue
        meths = {}
        for k in reversed(m.mro(c)):
            meths.update(getattr(k, 'methods', {}))
        called = inner(init)
        loads = [f for nme, f in meths.items() if nme in called and nme != '__init__' and reaches(m, f, LOADS)]
        stores = [f for nme, f in meths.items() if nme in called and nme != '__init__' and reaches(m, f, DUMPS)]
        if len(loads) == 1 and not stores and not reaches(m, init, DUMPS) or len(stores) == 1 and not loads and not reaches(m, init, LOADS):
            n += 1
            ctx.ob('hit-or-parse', init.fid + ' store', False, 'caching is offered but the cache is never {}'.format('written' if loads else 'read'), init.where())
            continue
        if len(loads) != 1 or len(stores) != 1:
            ctx.undecided('same-key', init.fid, 'cannot tell the cache reader and writer apart')
            continue
        n += 1
        ctor(ctx, m, c, init, loads[0], stores[0], done)
    ctx.need('constructors with a cache', n, 1)


def ctor(ctx, m, c, init, load, store, done):
    cl = Ctor(init, load, store)
    from ..interp import Budget, Engine
    eng = Engine(m, cl, max_steps=3000000)
    ctx.saw(init)
    try:
        rets, raises = eng.run(init, {}, c, {})
    except Budget:
        ctx.undecided('same-key', init.fid, 'too many paths')
        return
    bads = {}
    for r, msg, w in cl.bad:
        bads.setdefault(r, (msg, w))
    for r in ('on-request', 'same-key', 'key-extension', 'stored-complete'):
        b = bads.get(r)
        ctx.ob(r, init.fid, b is None, b[0] if b else '', b[1] if b else '')
    for won, built, read, stored, tried, w in cl.ends:
        if won is True:
            ctx.ob('hit-or-parse', init.fid, not built and not stored, 'a collection loaded from its cache is {} again'.format('built' if built else 'stored'), w)
        elif tried and won is False:
            ctx.ob('hit-or-parse', init.fid, built, 'without a fitting cache the collection is left empty', w)
            if not stored:
                ctx.ob('hit-or-parse', init.fid + ' store', False, 'a freshly parsed collection is not cached although caching was asked for', w)
            if not read:
                ctx.undecided('hit-or-parse', init.fid, 'the files listed for the cache are not seen to be the ones parsed')
    pairs = getattr(cl, 'pairs', [])
    paths = {v for la, a, w in pairs for v in la.values() if tail(v) and 'ache' in tail(v)}
    for la, a, w in pairs:
        fk, fv = next(((k, v) for k, v in la.items() if v[0] == 'r'), (None, None))
        if fv is None or not paths:
            continue
        puts = getattr(cl, 'puts', {}).get(fv)
        if not puts:
            ctx.undecided('not-own-input', init.fid, 'the list of files is built in a way that is not followed')
            continue
        for ends, pw in puts:
            strs = [e for e in ends if isinstance(e, str)]
            ok = all(any(s and tail(p).endswith(s) for s in strs) for p in paths)
            ctx.ob('not-own-input', init.fid, ok, 'files ending in {} are taken as input, so a cache changes the list it was made from'.format(sorted(tail(p) for p in paths)[0]), pw)
    roles(ctx, m, load, store, pairs, done)


def roles(ctx, m, load, store, pairs, done):
    if (load.fid, store.fid) in done or not pairs:
        return
    done.add((load.fid, store.fid))
    ctx.saw(load)
    ctx.saw(store)
    la, a, w = pairs[0]
    role_l = {T('p', k): T('role', show(v)) for k, v in la.items()}
    role_s = {T('p', k): T('role', show(v)) for k, v in a.items()}
    files_s = next((k for k, v in a.items() if v[0] == 'r'), None)
    files_l = next((k for k, v in la.items() if v[0] == 'r'), None)
    path_l = next((k for k, v in la.items() if tail(v) and 'ache' in tail(v)), None)
    if files_s is None or files_l is None:
        ctx.undecided('files-compared', load.fid, 'the list of files is not followed into the cache')
        return
    # what the writer stores
    wc, weng, wrets, wraises = explore(m, store, store.cls, cls=Writer, steps=600000)
    if wc is None or not wc.dumps:
        ctx.undecided('key-compared', store.fid, 'the stored object is not followed')
        return
    keys, stamp, fkey, pos = {}, None, None, {}
    for st, t, w, e in wc.dumps:
        parts = list(t[1:]) if t[0] == 'tup' else list((e.obj(st, t).seq or ())) if e.obj(st, t) is not None and e.obj(st, t).kind in ('tuple', 'list') else [t]
        for i, p in enumerate(parts):
            o = e.obj(st, p)
            if p == T('p', 'self'):
                pos['self'] = i
            if o is not None and o.kind == 'dict':
                pos['dat'] = i
                for k, v in o.slots.items():
                    ov = e.obj(st, v)
                    if ov is not None and ov.kind == 'dict':
                        fkey = k
                        fo = ov
                    else:
                        keys[k] = v
        if fkey is not None:
            for k, v in fo.slots.items():
                for x in alts(v):
                    if x[0] == 'undef':
                        continue
                    if k[0] == 'el' and T('p', files_s) in subterms(k):
                        stamp = swap(x, {k: T('@')})
    if fkey is None or 'self' not in pos:
        ctx.undecided('key-compared', store.fid, 'the stored object is not followed')
        return
    ctx.count('keys stored in a cache', len(keys) + 1)
    ctx.ob('files-compared', store.fid, stamp is not None and any(x[0] == 'call' for x in subterms(stamp) if isinstance(x, tuple) and x),
           'the cache does not store a time stamp for every file it was made from', store.where())
    if stamp is None:
        return
    # what the reader compares
    lf = T('p', files_l)
    cl = Loader(load, lf)
    from ..interp import Budget, Engine
    eng = Engine(m, cl, max_steps=1500000)
    try:
        rets, raises = eng.run(load, {}, load.cls, {})
    except Budget:
        ctx.undecided('key-compared', load.fid, 'too many paths')
        return
    ctx.ob('miss-harmless', load.fid + ' files', cl.harm is None, 'the list of files to read is changed ({}) while the cache is examined'.format(cl.harm[0]) if cl.harm else '', cl.harm[1] if cl.harm else '')
    if cl.lost:
        ctx.ob('miss-harmless', load.fid, False, '{} has no value on a path that gives the cache up'.format(cl.lost[0]), cl.lost[1])
    for st, exc, node, implicit in raises:
        nm = exc if isinstance(exc, str) else show(exc)
        ctx.ob('miss-harmless', load.fid, False, 'a cache that cannot be used raises {}'.format(nm[:60]), eng.where(node))
    handlers(ctx, m, load)
    looked_up(ctx, m, load)
    hits = 0
    for st, v, w in cl.rets:
        vals = set(alts(v))
        if not any(is_c(x) and x[2] is True for x in vals):
            if st.facts.get('set') and all(is_c(x) and not x[2] for x in vals):
                ctx.ob('miss-harmless', load.fid, False, 'the collection is changed although the cache is refused', w)
            continue
        if len(vals) > 1:
            ctx.undecided('key-compared', load.fid, 'cannot tell on which paths the cache is accepted')
            continue
        hits += 1
        ctx.ob('hit-complete', load.fid, bool(st.facts.get('set')), 'the cache is accepted but the collection is not filled from it', w)
        lits = [x for k, b in st.conds.items() for x in atoms(k, b)]
        for x, b in lits:
            if x[0] == 'call' and b is False and path_l and x[1][0] == 'x' and x[1][1] in ('os.path.isfile', 'os.path.exists') and x[2] == (T('p', path_l),):
                ctx.ob('hit-complete', load.fid, False, 'the cache is used when there is no cache file', w)
        for key, val in keys.items():
            con = '{} {}'.format(load.fid, show(key))
            want = swap(val, role_s)
            verdict = None
            for x, b in lits:
                if x[0] == 'cmp':
                    for p, q in ((x[2], x[3]), (x[3], x[2])):
                        kk, base = key_of(p)
                        if kk == key and x[1] in ('==', 'is'):
                            good = swap(q, role_l) == want
                            if b is True and good:
                                verdict = True
                            elif b is False and good:
                                verdict = 'the cache is used although it differs'
                            elif b is True and verdict is None and q[0] in ('p', 'g', 'c'):
                                verdict = 'it is compared with {} but stored from {}'.format(show(q), show(val))
                        elif kk == key and verdict is None and (x[1] not in ('in', 'is') or b is True):
                            verdict = 'it is not required to be equal'
                if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] in ('startswith', 'endswith', 'find', 'count', '__contains__') and verdict is None:
                    if any(key_of(y)[0] == key for y in (x[1][1],) + x[2] if isinstance(y, Term)):
                        verdict = 'it is not required to be equal'
            if verdict is None:
                loose = any(unpickled(y) and x[0] != 'cmp' or any(is_c(z) and z == key for z in subterms(x)) and not (x[0] == 'cmp' and x[1] == 'in' and x[2] == key)
                            for x, b in lits for y in [x])
                whole = any(x[0] == 'cmp' and x[1] == '==' and any(y[0] == 'it' and is_c(key_of(y)[0] or NONE) and isinstance(key_of(y)[0][2], int) for y in (x[2], x[3])) for x, b in lits)
                if loose or whole:
                    ctx.undecided('key-compared', con, 'compared in a way that is not followed')
                    continue
                verdict = 'a cache is used although {} was never compared'.format(show(key))
            ctx.ob('key-compared', con, verdict is True, '' if verdict is True else verdict, w)
        # the files
        un = st.facts.get('unchecked')
        timed = cl.timed(st, None)
        sizes = [(x, b) for x, b in lits if x[0] == 'cmp' and x[1] == '==' and b is True and
                 any(any(key_of(z)[0] == fkey for z in subterms(p) if isinstance(z, tuple) and z and z[0] in ('it', 'call')) and cl.of_files(eng, st, q) for p, q in ((x[2], x[3]), (x[3], x[2])))]
        other = [x for x, b in lits if any(isinstance(z, tuple) and z and z[0] in ('it', 'call') and key_of(z)[0] == fkey for z in subterms(x)) and
                 not (x[0] == 'cmp' and (x[1] == 'in' or any(y[0] == 'call' and y[1] == T('x', 'len') for y in (x[2], x[3]))))]
        wholesale = any(x[0] in ('call', 'truth', 'cmp') and x not in [s[0] for s in sizes] and not any(x is T('cmp', t[0], t[5], t[4]) or x is T('cmp', t[0], t[4], t[5]) for t in timed) for x in other)
        if un:
            ctx.ob('files-compared', load.fid, False, 'a cache can be used after ' + un, w)
        if not sizes and wholesale:
            ctx.undecided('files-compared', load.fid + ' number', 'compared in a way that is not followed')
        else:
            ctx.ob('files-compared', load.fid + ' number', bool(sizes), 'a cache is used although its list of files may be longer or shorter than the files there now', w)
        if timed:
            for op, b, k, base, y, x in timed:
                ok = op == '==' and b is True
                if ok:
                    ok = swap(y, {k: T('@')}) == stamp and cl.of_files(eng, st, k)
                    if not ok and not cl.of_files(eng, st, k):
                        ctx.undecided('files-compared', load.fid + ' stamp', 'the files compared are not seen to be the files read')
                        continue
                ctx.ob('files-compared', load.fid + ' stamp', ok, 'the stored time stamp ({}) is {} {}'.format(
                    show(stamp), 'compared with' if op == '==' else 'compared by ' + op + ' with', show(y)[:80]), w)
    stamps = [1 for st, v, w in cl.rets if cl.timed(st, None)]
    if hits and not stamps:
        if any(isinstance(n, ast.Attribute) and n.attr in ('st_mtime', 'getmtime', 'stat', 'st_mtime_ns') for n in ast.walk(load.node)):
            ctx.undecided('files-compared', load.fid + ' stamp', 'compared in a way that is not followed')
        else:
            ctx.ob('files-compared', load.fid + ' stamp', False, 'a cache is used although the time stamps of the files were never compared', load.where())
    for how, v, w in cl.sets:
        if not isinstance(v, Term):
            continue
        for x in subterms(v):
            if x[0] == 'it' and x[1][0] == 'call' and unpickled(x[1]) and is_c(x[2]) and isinstance(x[2][2], int) and not isinstance(x[2][2], bool):
                ctx.ob('hit-complete', load.fid + ' part', x[2][2] == pos['self'], 'the collection is filled from part {} of the cache, the collection is stored as part {}'.format(x[2][2], pos['self']), w)
        if not unpickled(v):
            ctx.undecided('hit-complete', load.fid + ' part', 'what the collection is filled with is not followed')
    if not hits:
        ctx.undecided('hit-complete', load.fid, 'no path is seen to accept a cache')


def handlers(ctx, m, load):
    """reading the pickle must not let an arbitrary unpickling error escape"""
    for n in ast.walk(load.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LOADS and isinstance(n.func.value, ast.Name) and 'pickle' in n.func.value.id.lower():
            chain = enclosing(load.node, n)
            ok = False
            for t in chain:
                for h in t.handlers:
                    names = [h.type] if h.type is None or not isinstance(h.type, ast.Tuple) else h.type.elts
                    if any(x is None or isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in names):
                        ok = True
            ctx.ob('miss-harmless', load.fid + ' unpickling', ok, 'a damaged cache can raise any exception while it is unpickled, and not every one is caught',
                   '{} line {}'.format(load.where(), n.lineno))


def looked_up(ctx, m, load):
    """a file the cache does not know is a reason to give it up, not an error"""
    from_cache = set()
    for n in ast.walk(load.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in LOADS:
            from_cache |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
    while True:
        more = {x.id for n in ast.walk(load.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and root(n.value) in from_cache for t in n.targets for x in [t] if isinstance(x, ast.Name)}
        if more <= from_cache:
            break
        from_cache |= more
    def catches(target, depth=0):
        for t in enclosing(load.node, target):
            for h in t.handlers:
                names = [h.type] if h.type is None or not isinstance(h.type, ast.Tuple) else h.type.elts
                if any(x is None or getattr(x, 'id', None) in ('KeyError', 'LookupError', 'Exception', 'BaseException') for x in names):
                    return True
        up = [f for f in ast.walk(load.node) if isinstance(f, ast.FunctionDef) and f is not load.node and any(x is target for x in ast.walk(f))]
        if up and depth < 3:
            calls = [c for c in ast.walk(load.node) if isinstance(c, ast.Call) and getattr(c.func, 'id', None) == up[-1].name]
            return not calls or all(catches(c, depth + 1) for c in calls)
        return False
    # a test that the name is there, or that all the names are the same
    tested = any(isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) and any(root(c) in from_cache for c in n.comparators) for n in ast.walk(load.node)) or \
        any(isinstance(n, ast.Compare) and any(isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', None)) in ('set', 'frozenset', 'sorted', 'keys', 'issubset') and any(root(y) in from_cache for y in ast.walk(x)) for x in ast.walk(n)) for n in ast.walk(load.node))
    for n in ast.walk(load.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Constant, ast.Slice)) and root(n) in from_cache and not tested:
            ctx.ob('miss-harmless', load.fid + ' lookup', catches(n), 'a file the cache does not know makes the lookup fail, and the KeyError is not caught', '{} line {}'.format(load.where(), n.lineno))


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return getattr(e, 'id', None)


def enclosing(root, target):
    out = []

    def walk(node, stack):
        if node is target:
            out.extend(stack)
            return True
        for name, val in ast.iter_fields(node):
            for x in (val if isinstance(val, list) else [val]):
                if isinstance(x, ast.AST):
                    s = stack + [node] if isinstance(node, ast.Try) and name == 'body' else stack
                    if walk(x, s):
                        return True
        return False
    walk(root, [])
    return out
