"""C02: which parser reads a file is decided by the file alone, each file is read
once, and everything read reaches the collection with its type."""
import ast

from ..clients import Base, put_in
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, alts, is_c, show, subterms
from ..model import Cls
from . import merged
from .c01 import Parse
from .c15 import origins

KINDS = {'record': ['WOSRecord', 'MedlineRecord', 'ProQuestRecord', 'ScopusRecord'], 'grant': ['NSFGrant', 'CIHRGrant', 'NSERCGrant', 'FallbackGrant']}
# what a file of each kind must show: (operation, constant)
SIGNS = {'WOSRecord': [('in', 'VR 1.0')], 'MedlineRecord': [('startswith', 'PMID- ')],
         'ProQuestRecord': [('==', '_' * 60 + '\n'), ('==', '\n'), ('==', 'Report Information from ProQuest\n')],
         'ScopusRecord': [('==', '\ufeff'), ('<', 'maxHeaderDiff')],
         'NSFGrant': [('==', 1)], 'CIHRGrant': [('startswith', 'Search Criteria'), ('endswith', ',,,,,,,,,\n')], 'NSERCGrant': [], 'FallbackGrant': []}
FILENAMES = {'NSFGrant': ('endswith', '.xml'), 'CIHRGrant': ('startswith', 'cihr_'), 'NSERCGrant': ('startswith', 'NSERC_'), 'FallbackGrant': ('endswith', 'csv')}


def fields(m, mod):
    """field order of the entries' tuple type: {constructor name: [field, ...]}"""
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'attr', getattr(n.value.func, 'id', '')) == 'namedtuple' and len(n.value.args) > 1:
            a = n.value.args[1]
            if isinstance(a, (ast.Tuple, ast.List)):
                fs = [x.value for x in a.elts if isinstance(x, ast.Constant)]
            elif isinstance(a, ast.Constant):
                fs = a.value.replace(',', ' ').split()
            else:
                continue
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = fs
        elif isinstance(n, ast.ClassDef) and any(getattr(b, 'id', getattr(b, 'attr', '')) == 'NamedTuple' for b in n.bases):
            out[n.name] = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return out


def registries(m):
    """{(module, name): [entry]}; entry: {'type','processor','detector'} -> constant / Func / None"""
    out = {}
    for mod in m.mods.values():
        fs = fields(m, mod)
        for name, vals in mod.assigns.items():
            for s in vals:
                v = getattr(s, 'value', None)
                if not isinstance(v, (ast.List, ast.Tuple)) or not v.elts:
                    continue
                ents = []
                for e in v.elts:
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in fs:
                        order = fs[e.func.id]
                        d = dict(zip(order, e.args))
                        d.update({k.arg: k.value for k in e.keywords})
                    elif isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 3:
                        d = dict(zip(next(iter(fs.values()), ['type', 'processor', 'detector']), e.elts))
                    else:
                        break
                    ent = {}
                    for k, x in d.items():
                        if isinstance(x, ast.Constant):
                            ent[k] = x.value
                        else:
                            r = m.resolve_expr(mod, x)
                            ent[k] = r[1] if r and r[0] == 'f' else '?'
                            if r and r[0] == 'k':
                                ent[k] = r[1]
                            if isinstance(x, ast.Attribute) and x.attr == '__name__':
                                r = m.resolve_expr(mod, x.value)
                                ent[k] = r[1].name if r and r[0] == 'k' else '?'
                    if not {'type', 'processor', 'detector'} <= set(ent):
                        break
                    ents.append(ent)
                else:
                    if len(ents) > 1 and any(hasattr(x['detector'], 'fid') for x in ents):
                        out[mod, name] = ents
    return out


def makes(m, fn, seen=None):
    """names of the record classes a parser constructs"""
    seen = seen if seen is not None else set()
    if fn.fid in seen:
        return set()
    seen.add(fn.fid)
    out = set()
    for n in ast.walk(fn.node):
        if not isinstance(n, ast.Call):
            continue
        r = m.resolve_expr(fn.mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] == 'k' and any(isinstance(k, Cls) and k.name == 'Record' for k in m.mro(r[1])):
            out.add(r[1].name)
        elif r and r[0] == 'f' and r[1].mod is fn.mod and r[1].cls is None:
            out |= makes(m, r[1], seen)
    return out


class Detect(Parse):
    def __init__(self, m, top):
        Parse.__init__(self, m, top, None)
        self.ranges = []
        self.opened = []

    def on_handler(self, eng, st, h, exc):
        st.facts['failed'] = True
        return Parse.on_handler(self, eng, st, h, exc)

    def join_fact(self, k, a, b):
        if k == 'failed':
            return a or b
        return Parse.join_fact(self, k, a, b)

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if phase == 'enter' and it is not None:
            self.ranges.append((it, eng.where(node)))
        return Parse.on_loop(self, eng, st, node, phase, it, *rest)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'open':
            mode = kw.get('mode', args[1] if len(args) > 1 else C('r'))
            self.opened.append((mode, eng.where(node)))
        return Parse.on_call(self, eng, st, node, name, recv, args, kw)


def sign(c, w, op, k):
    """does literal (c, w) say: operation op with constant k held (True), did not (False), or neither"""
    if c[0] == 'dnf':
        lits = [[(l[1], l[2] == TRUE) for l in conj[1:] if l[0] == 'lit'] for conj in c[1:]]
        return True if w and lits and all(any(sign(a, b, op, k) for a, b in conj) for conj in lits) else None
    if c[0] == 'cmp' and op in ('==', 'in', '<'):
        want = T('p', k) if op == '<' else C(k)
        if c[1] == op and want in c[2:]:
            return w
        if op == '<' and c[1] == '<=' and want == c[2]:     # not (max <= x)
            return not w
    if c[0] == 'truth' and c[1][0] == 'call' and c[1][1][0] == 'meth' and c[1][1][2] == op and c[1][2] and c[1][2][0] == C(k):
        return w
    if c[0] == 'call' and c[1][0] == 'meth' and c[1][2] == op and c[2] and c[2][0] == C(k):
        return w
    if c[0] == 'truth' and c[1][0] == 'cmp':
        return sign(c[1], w, op, k)
    if c[0] == 'not':
        r = sign(c[1], w, op, k)
        return None if r is None else not r
    return None


def instead(c, w, op, k):
    """a test of the same kind that held where operation op with constant k should have: with another constant, or weaker"""
    if w is not True:
        return None
    if c[0] == 'truth' and (c[1][0] == 'cmp' or c[1][0] == 'call' and c[1][1][0] == 'meth' and op in ('startswith', 'endswith')):
        c = c[1]
    if c[0] == 'cmp' and op == 'in' and c[1] == 'in' and is_c(c[2]) and isinstance(c[2][2], str) and not is_c(c[3]):
        return '{!r} is found'.format(c[2][2])
    if c[0] == 'call' and c[1][0] == 'meth' and c[1][2] == op and isinstance(k, str) and c[2] and is_c(c[2][0]) and isinstance(c[2][0][2], str) and 'ileName' not in show(c[1][1]) and 'basename' not in show(c[1][1]):
        return '{} {!r} holds'.format(op, c[2][0][2])
    if op == '<' and c[0] == 'cmp' and c[1] == '<=' and c[3] == T('p', k):
        return 'as many as {} are allowed'.format(k)
    if op == '==' and isinstance(k, str) and c[0] == 'cmp' and c[1] == '==':
        x = next((y[2] for y in c[2:4] if is_c(y) and isinstance(y[2], str)), None)
        if x is not None and all(x != j for js in SIGNS.values() for o, j in js) and (x.strip() in k or k.strip() in x) and x.strip():
            return '{!r} is found'.format(x)
    if op == '==' and k == 1 and c[0] == 'truth' and 'findall' in show(c[1]):
        return 'there are any number'
    return None


def detectors(ctx, m, regs):
    ctx.rule('signature', 'a detector says yes exactly when the file shows the documented signs of its kind in the lines it may look at')
    for (mod, name), ents in regs.items():
        for ent in ents:
            f, kind = ent['detector'], ent['type']
            if not hasattr(f, 'fid') or kind not in SIGNS:
                continue
            ctx.saw(f)
            cl = Detect(m, f)
            eng = Engine(m, cl, max_steps=800000)
            try:
                rets, raises = eng.run(f, {}, None, {})
            except Budget:
                ctx.undecided('signature', f.fid, 'too many paths')
                continue
            for st, exc, node, implicit in raises:
                ctx.ob('signature', f.fid + ' answers', False, 'a file that is not a {} leaves the detector with {}'.format(kind, getattr(exc, 'name', exc)), f.where(node) if node is not None else f.where())
            ctx.ob('signature', f.fid + ' answers', True)
            yes = 0
            for st, v in rets:
                for x in alts(v):
                    if not is_c(x):
                        # the test itself is returned
                        if any(sign(T('truth', x) if x[0] != 'cmp' else x, True, op, k) for op, k in SIGNS[kind]):
                            yes += 1
                        else:
                            ctx.undecided('signature', f.fid, 'answer not recognised: ' + show(x)[:80])
                            yes += 1
                        continue
                    if not isinstance(x[2], bool):
                        ctx.ob('signature', f.fid, False, 'the detector of {} answers {!r}'.format(kind, x[2]), f.where())
                        continue
                    got = [[sign(c, w, op, k) for c, w in st.conds.items()] for op, k in SIGNS[kind]]
                    if x[2]:
                        yes += 1
                        for (op, k), g in zip(SIGNS[kind], got):
                            if False in g and True not in g:
                                ctx.ob('signature', f.fid, False, 'a file is taken for a {} although {!r} is not where it must be'.format(kind, k), f.where())
                            elif True not in g:
                                # not tested on this path at all, or in a form not known
                                text = ' '.join(show(c) for c in st.conds)
                                other = next((o for o in (instead(c, w, op, k) for c, w in st.conds.items()) if o is not None), None)
                                if other is not None:
                                    ctx.ob('signature', f.fid, False, 'a file is taken for a {} when {} instead of {!r}'.format(kind, other, k), f.where())
                                elif isinstance(k, str) and repr(k)[1:-1] in text or k == 1 or op == '<':
                                    ctx.undecided('signature', f.fid, 'test of {!r} not recognised'.format(k))
                                elif any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and n.value in str(k) for n in ast.walk(f.node)) or \
                                        any(isinstance(n, ast.Name) and m.resolve(f.mod, n.id) is not None and m.resolve(f.mod, n.id)[0] == 'g' for n in ast.walk(f.node)):
                                    if not st.conds and not failed(st):
                                        ctx.ob('signature', f.fid, False, 'any file is taken for a {}'.format(kind), f.where())
                                    else:
                                        ctx.undecided('signature', f.fid, 'test of {!r} not recognised'.format(k))
                                else:
                                    ctx.ob('signature', f.fid, False, 'a file is taken for a {} without {!r} being looked for'.format(kind, k), f.where())
                        if st.facts.get('failed') and SIGNS[kind]:
                            ctx.ob('signature', f.fid, False, 'a file that cannot be read is taken for a {}'.format(kind), f.where())
                    elif SIGNS[kind] and kind not in ('CIHRGrant',) and not st.facts.get('failed') and all(True in g for g in got):
                        others = [c for c, w in st.conds.items() if sum(sign(c, w, op, k) is not None for op, k in SIGNS[kind]) == 0 and c[0] != 'none' and 'useFileName' not in show(c)]
                        ctx.ob('signature', f.fid, False if not others else True, 'a file with all the signs of a {} is refused'.format(kind), f.where())
                    if x[2] and kind in FILENAMES:
                        op, k = FILENAMES[kind]
                        g = [sign(c, w, op, k) for c, w in st.conds.items()]
                        ctx.ob('signature', f.fid, not (False in g and True not in g) or any('useFileName' in show(c) for c in st.conds),
                               'a file name that does not fit is taken for a {}'.format(kind), f.where())
                    if not x[2] and kind in FILENAMES and not st.facts.get('failed'):
                        op, k = FILENAMES[kind]
                        g = [sign(c, w, op, k) for c, w in st.conds.items() if c[0] != 'dnf']
                        direct = [w for c, w in st.conds.items() if c == T('truth', T('p', 'useFileName'))]
                        rest = [c for c, w in st.conds.items() if sign(c, w, op, k) is None and c != T('truth', T('p', 'useFileName'))]
                        if True in g and not rest:
                            ctx.ob('signature', f.fid, False, 'files named as a {} are refused for their name'.format(kind), f.where())
                        if False in direct and not rest:
                            ctx.ob('signature', f.fid, False, 'files are refused for their name although names are not to be looked at', f.where())
            ctx.ob('signature', f.fid, yes > 0, 'the detector of {} never says yes'.format(kind), f.where())
            for mode, w in cl.opened:
                if is_c(mode):
                    ctx.ob('signature', f.fid + ' mode', not set(str(mode[2])) & set('wax+'), 'a detector opens the file for writing', w)
            lines = [a.arg for a in f.node.args.args if a.arg == 'checkedLines']
            if lines:
                for it, w in cl.ranges:
                    if it[0] == 'range' and T('p', 'checkedLines') in set(subterms(it)):
                        args = it[1:]
                        ok = args in ((T('p', 'checkedLines'),), (C(0), T('p', 'checkedLines')))
                        if ok or len(args) == 1:
                            ctx.ob('signature', f.fid + ' lines', ok, 'not the first checkedLines lines are looked at', w)


def failed(st):
    return bool(st.facts.get('failed'))


# what a file is like does not decide whether it is read
ODD = ('os.path.getsize', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime', 'os.path.islink', 'os.access', 'os.stat', 'os.path.ismount')


class Coll(Base):
    max_states = 300
    handler_states = 30
    exact_conds = True
    progress = False

    def __init__(self, m, top, roles, regs, unknown):
        self.m, self.top, self.roles, self.regs, self.unknown = m, top, roles, regs, unknown
        self.bad = []
        self.asked = self.reads = self.inits = self.types = self.listings = 0
        self.seenloops, self.elements, self.notype, self.soft, self.kept, self.tested, self.given, self.lost = {}, [], [], [], [], set(), [], False
        self.helper = False
        self.over = {}

    def inline(self, eng, fn, st):
        return fn is self.top or fn.parent is not None or fn.name.startswith('_') and not fn.name.startswith('__') and 'ache' not in fn.name

    def entry(self, t):
        return t[0] == 'el' and t[1][0] == 'g' and any(t[1][2] == n for mod, n in self.regs)

    def role(self, t):
        """(entry term, role) of a part of a registry entry"""
        if t[0] == 'it' and is_c(t[2]) and isinstance(t[2][2], int) and self.entry(t[1]) and 0 <= t[2][2] < len(self.roles):
            return t[1], self.roles[t[2][2]]
        if t[0] == 'at' and t[2] in self.roles and self.entry(t[1]):
            return t[1], t[2]
        return None, None

    def call_role(self, t):
        """(entry, role, file) of the result of a call of a registry function"""
        if t[0] == 'call' and len(t) > 2:
            f = t[1]
            if f[0] == 'meth' and self.entry(f[1]) and f[2] in self.roles:
                return f[1], f[2], t[2][0] if t[2] else None
            e, r = self.role(f)
            if e is not None:
                return e, r, t[2][0] if t[2] else None
        return None, None, None

    def says(self, st, e):
        """what the detector of e said on this path"""
        for c, w in st.conds.items():
            if self.call_role(c[1] if c[0] == 'truth' else c)[:2] == (e, 'detector'):
                return w
        return None

    def on_call(self, eng, st, node, name, recv, args, kw):
        last = name.split('.')[-1]
        if last == 'isinstance' and args:
            self.tested.add(args[0])
        e = r = None
        if name == '<dyn>' and recv is not None:
            e, r = self.role(recv)
        elif recv is not None and last in self.roles and self.entry(recv):
            e, r = recv, last
        if r == 'detector':
            self.asked += 1
            st.facts['det', e] = args[0] if args else None
            if args and not any(x[0] == 'el' for x in subterms(args[0])):
                ext = [w for c, w in st.conds.items() for x in (c[1] if c[0] == 'truth' else c,)
                       if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'endswith' and x[2] == (T('p', 'extension'),)]
                if False in ext:
                    self.bad.append(('a file without the extension is read', eng.where(node)))
                elif not ext:
                    self.bad.append(('a file is read whatever its extension', eng.where(node)))
            if self.unknown is not None:
                eng.do_raise(st.copy(), self.unknown, node, implicit=True)
        elif r == 'processor':
            where = eng.where(node)
            self.reads += 1
            f = args[0] if args else None
            if st.facts.get('handled'):
                pass
            elif st.facts.get(('read', e)) is not None:
                self.bad.append(('a file is read twice', where))
            elif self.says(st, e) is not True:
                if self.says(st, e) is False or st.facts.get(('det', e)) is None:
                    self.bad.append(('a file is read by a parser that did not recognise it', where))
            elif st.facts.get(('det', e)) != f:
                self.bad.append(('not the file that was recognised is read', where))
            st.facts['read', e] = f
        elif last == '__init__' and eng.fn is self.top and args:
            self.handed(eng, st, node, args, kw)

    def handed(self, eng, st, node, args, kw):
        r = self.m.resolve_expr(self.top.mod, node.func.value) if isinstance(node.func, ast.Attribute) else None
        if not (r and r[0] == 'k'):
            return
        fn = self.m.method(r[1], '__init__')
        if fn is None:
            return
        names = [a.arg for a in fn.node.args.args]
        given = dict(zip(names, args))
        given.update(kw)
        if st.facts.get('unknown'):
            self.bad.append(('a file of no known kind is accepted', st.facts['unknown']))
        if st.facts.get('handled'):
            return
        self.inits += 1
        self.given += list(given.values())
        types = next((given[n] for n in given if 'ollected' in n), None)
        o = eng.obj(st, types) if types is not None and types[0] == 'r' else None
        if o is None or not o.exact or o.seq or o.bag or o.src is not None:
            if st.facts.get('iterated'):
                self.lost = True
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'typed' and types is not None:
                if types != v and not any(x == v for x in alts(types)):
                    self.bad.append(('the types that were read are not handed on', eng.where(node)))
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'read' and not st.facts.get(('used', k[1])):
                if not any(x[0] == 'it' and is_c(x[2]) and x[2][2] == 0 and self.call_role(x[1])[:2] == (k[1], 'processor') for a in given.values() for x in subterms(a)):
                    self.bad.append(('what was read is not handed on', eng.where(node)))

    def note(self, st, v, target=None):
        """a value goes into a container"""
        if not (isinstance(v, tuple) and v and isinstance(v[0], str)):
            return
        e, r = self.role(v)
        if r == 'type':
            st.facts['typed', e] = target
            self.types += 1
        for x in subterms(v):
            if x[0] == 'it' and is_c(x[2]) and x[2][2] == 0:
                e, r, f = self.call_role(x[1])
                if r == 'processor':
                    st.facts['used', e] = True

    def on_add(self, eng, st, t, v, node):
        self.note(st, v, t)
        for x in alts(v):
            if x[0] == 'el':
                st.facts['added', x] = True
                if x[1][0] == 'p' and eng.fn is self.top:
                    self.kept.append((self.checked(st, x), x, eng.where(node)))
            if x[0] == 'at' and x[2] == '__name__':
                for y in subterms(x):
                    if y[0] == 'el':
                        st.facts['typename', y] = True
            d = self.listed(v)
            again = self.listings and st.loops and any(i[0] == 'r' for i in self.over.get(st.loops[-1], ()))
            if d is not None and again:
                # a list of the files is made from the list of the files
                ext, cache, isf, odd = self.guards(st, d)
                for c in odd:
                    if self.plain(c, d):
                        self.bad.append(('files with the extension are left out for a reason of their own', eng.where(node)))
            elif d is not None:
                self.listings += 1
                st.facts['listed', d] = True
                ext, cache, isf, odd = self.guards(st, d)
                where = eng.where(node)
                for c in odd:
                    if self.plain(c, d):
                        self.bad.append(('files with the extension are left out for a reason of their own', where))
                if ext is None and any(st.conds[c] and self.contains(c, d) for c in odd):
                    self.bad.append(('files that merely contain the extension are read', where))
                elif ext is False or cache is True or isf is False:
                    self.bad.append(('files without the extension, caches or directories are read', where))
                else:
                    for g, what in ((ext, 'files with another extension'), (cache, 'cache files'), (isf, 'directories')):
                        if g is None:
                            self.soft.append((what + ' are read as well', where, odd))

    def listed(self, v):
        for x in subterms(v):
            if x[0] == 'el' and any(y == T('x', 'os.listdir') or y[0] == 'x' and y[1] in ('os.scandir', 'os.walk', 'glob.glob') for y in subterms(x[1])):
                return x
        return None

    def names(self, eng, st, it):
        """does it hold the files of a directory"""
        o = eng.obj(st, it) if it[0] == 'r' else None
        if o is not None:
            return any(self.listed(x) is not None for x in list(o.seq or ()) + [b for b, g in o.bag or ()])
        return self.listed(T('el', it)) is not None

    def checked(self, st, el):
        return [w for c, w in st.conds.items() for x in (c[1] if c[0] == 'truth' else c,) if x[0] == 'call' and x[1] == T('x', 'isinstance') and x[2] and x[2][0] == el] + \
               [w for c, w in st.conds.items() if c[0] == 'isinst' and c[1] == el]

    def plain(self, c, el):
        """is c a test of the name of an entry against a constant"""
        x = c[1] if c[0] == 'truth' else c
        if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower') and el in set(subterms(x[1])):
            return all(is_c(a) for a in x[2])
        if any(y[0] == 'call' and y[1][0] == 'x' and y[1][1] in ODD and el in set(subterms(y)) for y in subterms(x)):
            return True
        if x[0] == 'cmp' and x[1] in ('in', '==', '<', '<='):
            return any(is_c(a) for a in x[2:4]) and any(el in set(subterms(a)) for a in x[2:4] if not is_c(a))
        return False

    def contains(self, c, el):
        return c[0] == 'cmp' and c[1] == 'in' and c[2] == T('p', 'extension') and any(
            x in (el, T('at', el, 'name'), T('at', el, 'path')) or x[0] == 'call' and x[1] == T('x', 'os.path.join') and x[2] and x[2][-1] == el for x in alts(c[3]))

    def guards(self, st, el):
        ext = cache = isf = None
        odd = []
        for c, w in st.conds.items():
            if el not in set(subterms(c)):
                continue
            x = c[1] if c[0] == 'truth' else c
            if x is not None and x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'endswith' and x[2] and el in set(subterms(x[1])):
                a = x[2][0]
                if a == T('p', 'extension'):
                    ext = w
                    continue
                if is_c(a) and 'Cache' in str(a[2]):
                    cache = w
                    continue
            if x is not None and x[0] == 'call' and x[1] in (T('x', 'os.path.isfile'),):
                isf = w
                continue
            if x is not None and x[0] == 'call' and x[1] == T('x', 'os.path.isdir'):
                isf = not w
                continue
            odd.append(c)
        return ext, cache, isf, odd

    def on_mutate(self, eng, st, node, t, how, value=None):
        for v in put_in(value):
            self.note(st, v, t)

    def on_handler(self, eng, st, handler, exc):
        if exc is self.unknown and self.unknown is not None:
            st.facts['unknown'] = eng.where(handler)
        st.facts['handled'] = True      # the state stands for every point of the try block

    def join_fact(self, k, a, b):
        if isinstance(k, tuple) and k[0] in ('read', 'det', 'typed'):
            return a if a == b else None
        if k in ('handled',):
            return a or b
        if k == 'unknown':
            return a or b
        if k == 'regdepth':
            return a if a == b else max(a or 0, b or 0) or None
        if isinstance(k, tuple):
            return a and b
        return Base.join_fact(self, k, a, b)

    def on_return(self, eng, st, fn, value, node):
        if fn is not self.top and any(isinstance(k, tuple) and k[0] == 'read' for k in st.facts) and any(self.call_role(x)[1] == 'processor' for x in subterms(value)):
            for k in list(st.facts):
                if isinstance(k, tuple) and k[0] == 'read':
                    st.facts['used', k[1]] = True       # followed from the returned value no further
                    self.helper = True

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if it is None:
            return
        if phase == 'enter' and st.loops:
            self.over.setdefault(st.loops[-1], set()).add(it)
        where = eng.where(node)
        if phase == 'enter' and any('part' in lost and (self.names(eng, st, b) or self.names(eng, st, it)) for b, lost in origins(eng, it)):
            self.bad.append(('only some of the files of a directory are read', where))
        registry = it[0] == 'g' and any(it[2] == n for mod, n in self.regs)
        if not registry and len(st.loops) >= st.facts.get('regdepth', 1000):
            return      # inside or beside the search for the parser of one file
        if phase == 'enter':
            if registry:
                st.facts['looked'] = True
                st.facts['regdepth'] = len(st.loops)
            for k in [k for k in st.facts if isinstance(k, tuple) and (not registry or k[0] in ('det', 'read', 'typed', 'used'))]:
                st.facts.pop(k)
            if not registry and eng.fn is self.top:
                st.facts.pop('handled', None)
                st.facts.pop('looked', None)
            return
        if phase == 'exit' and it[0] == 'p':
            st.facts['iterated'] = True
        if phase == 'exit' and registry:
            st.facts['looked'] = True
        if phase not in ('iter-end', 'break'):
            return
        el = T('el', it)
        if registry:
            if st.facts.get('handled'):
                return
            e = el
            if st.facts.get(('det', e)) is None:
                self.bad.append(('a parser is passed over without its detector being asked', where))
                return
            says = self.says(st, e)
            if says:
                if phase != 'break':
                    self.bad.append(('other parsers are tried on a file after its own', where))
                if st.facts.get(('typed', e)) is None:
                    self.notype.append(where)
                if st.facts.get(('read', e)) is None:
                    self.bad.append(('a recognised file is not read', where))
            elif says is False:
                if phase == 'break':
                    self.bad.append(('the search for the parser of a file stops at one that does not fit', where))
                if st.facts.get(('typed', e)) is not None:
                    self.bad.append(('a type is noted for a file of another kind', where))
            return
        # an entry of the directory
        # a file: looked at, and what was read kept
        if phase == 'iter-end' and eng.fn is self.top:
            self.seenloops.setdefault(node, []).append((bool(st.facts.get('looked')), bool(st.facts.get('handled')), where))
            if st.facts.get('unknown'):
                asked = [not w for c, w in st.conds.items() if c[0] == 'cmp' and c[1] == '==' and C('') in c and T('p', 'extension') in c] or \
                        [w for c, w in st.conds.items() if c == T('truth', T('p', 'extension'))]
                if True in asked:
                    self.bad.append(('a file of no known kind that has the extension asked for is passed over', st.facts['unknown']))
                elif not asked:
                    self.bad.append(('files of no known kind are passed over even when an extension is asked for', st.facts['unknown']))
                st.facts.pop('unknown')
            if st.facts.get('looked') and not st.facts.get('handled'):
                for k in list(st.facts):
                    if isinstance(k, tuple) and k[0] == 'read' and not st.facts.get(('used', k[1])):
                        self.bad.append(('what was read from a file of a directory is not kept', where))
            for k in ('looked', 'handled'):
                st.facts.pop(k, None)
        elif phase == 'break' and eng.fn is self.top and st.facts.get('looked'):
            self.bad.append(('files of the directory after this one are not read', where))
        # an element of a given iterable
        if it[0] == 'p' and phase in ('iter-end', 'break') and eng.fn is self.top:
            added, named = st.facts.get(('added', el)), st.facts.get(('typename', el))
            checked = []
            self.elements.append((added, named, checked, phase, where))
        for k in [k for k in st.facts if isinstance(k, tuple)]:
            st.facts.pop(k)


def collections(ctx, m, regs):
    ctx.rule('dispatch', 'the first parser whose detector says yes, and no other, reads a file, once, and its type is noted')
    ctx.rule('directory', 'every regular file of a directory with the extension, and no cache, is looked at and what was read from it kept')
    ctx.rule('elements', 'every element of a given iterable is checked and kept with its type')
    unknown = next((k for k in m.classes.values() if k.name == 'UnknownFile'), None)
    for c in sorted(m.classes.values(), key=lambda c: c.cid):
        init = c.methods.get('__init__')
        if init is None:
            continue
        names = {n for mod, n in regs}
        used = [x for x in ast.walk(init.node) if getattr(x, 'id', getattr(x, 'attr', None)) in names]
        for f in c.methods.values():
            if f is not init and f.name.startswith('_'):
                used += [x for x in ast.walk(f.node) if getattr(x, 'id', getattr(x, 'attr', None)) in names]
        if not used:
            continue
        ctx.saw(init)
        for f in m.funcs.values():
            if f.mod is init.mod and not isinstance(f.node, ast.Lambda):
                merged.overlaps(ctx, f, 'elements')
        reg = [k for k in regs if k[1] in {getattr(x, 'id', getattr(x, 'attr', None)) for x in used}]
        roles = next(iter(fields(m, reg[0][0]).values()), ['type', 'processor', 'detector'])
        cl = Coll(m, init, roles, regs, unknown)
        eng = Engine(m, cl, max_steps=3000000)
        key = init.fid
        try:
            eng.run(init, {}, c, {})
        except Budget:
            ctx.undecided('dispatch', key, 'too many paths')
            continue
        if not cl.asked or not cl.reads:
            ctx.undecided('dispatch', key, 'the registered functions are called in a way that is not followed')
            continue
        if cl.notype:
            if cl.types:
                cl.bad.append(('the type of what a file holds is not noted', cl.notype[0]))
            else:
                ctx.undecided('dispatch', key, 'types are noted in a way that is not followed')
        ctx.ob('dispatch', key, not cl.bad, cl.bad[0][0] if cl.bad else '', cl.bad[0][1] if cl.bad else '')
        # directories
        for node, ends in cl.seenloops.items():
            looked = [x for x in ends if x[0]]
            not_ = [x for x in ends if not x[0] and not x[1]]
            if looked:
                ctx.ob('directory', key + ' all', not not_, 'a file of a directory is passed over', not_[0][2] if not_ else '')
        if not cl.listings:
            ctx.undecided('directory', key, 'the listing of the directory is not followed')
        for what, w, odd in cl.soft:
            if odd:
                ctx.undecided('directory', key, 'a test of the files is not recognised')
            else:
                ctx.ob('directory', key, False, what, w)
        ctx.ob('directory', key, True)
        for added, named, checked, phase, w in cl.elements:
            if phase == 'break':
                ctx.ob('elements', key, False, 'elements after this one are dropped', w)
            if not added:
                ctx.ob('elements', key, False, 'an element is not kept', w)
            if not named:
                ctx.ob('elements', key, not any(x[1] for x in cl.elements), 'the type of an element is not noted', w)
        if cl.elements and not any(x[1] for x in cl.elements):
            later = [x for t in cl.given for x in subterms(t) if x[0] == 'at' and x[2] == '__name__']
            ctx.ob('elements', key, bool(later) or cl.lost, 'the types of the elements are not noted', cl.elements[0][4])
        for checks, el, w in cl.kept:
            if False in checks:
                ctx.ob('elements', key, False, 'an element of another type is kept', w)
            elif not checks:
                if any(t == el for t in cl.tested) or not any(t[0] == 'el' and t[1] == el[1] for t in cl.tested):
                    ctx.ob('elements', key, False, 'elements of any type are kept', w)
                else:
                    ctx.undecided('elements', key, 'the check of the elements is not followed')
        ctx.ob('elements', key, True)
        ctx.count('collection constructors')


def registry(ctx, m, regs):
    ctx.rule('registry', 'every entry of a registry joins the type, parser and detector of one kind of file; the last entry, and only it, refuses unknown files')
    names = {c.name for c in m.classes.values()}
    for what, kinds in KINDS.items():
        best = max(regs.items(), key=lambda kv: len({e['type'] for e in kv[1]} & set(kinds)), default=None)
        if best is None or not {e['type'] for e in best[1]} & set(kinds):
            ctx.undecided('registry', what, 'no registry found')
            continue
        (mod, name), ents = best
        have = [e['type'] for e in ents]
        for k in kinds:
            ctx.ob('registry', '{} {}'.format(name, k), have.count(k) == 1, '{} has {} entries for {}'.format(name, have.count(k), k), mod.rel)
        for i, e in enumerate(ents):
            p, d, k = e['processor'], e['detector'], e['type']
            key = '{}[{}]'.format(name, k)
            raises = hasattr(d, 'node') and any(isinstance(x, ast.Raise) for x in ast.walk(d.node)) and d.mod is mod
            if k not in names:
                ctx.ob('registry', key, i == len(ents) - 1, 'an entry that holds no type of records is tried before others', mod.rel)
                if hasattr(d, 'node') and i == len(ents) - 1:
                    eng = Engine(m, Base(), 20000)
                    try:
                        rets, rs = eng.run(d, {}, None, {})
                        ctx.ob('registry', key, not rets and all(getattr(x[1], 'name', x[1]) == 'UnknownFile' for x in rs), 'the last entry does not refuse every file with UnknownFile', d.where())
                    except Budget:
                        ctx.undecided('registry', key, 'too many paths')
                continue
            if hasattr(p, 'node'):
                made = makes(m, p)
                if made:
                    ctx.ob('registry', key, made == {k}, 'the parser of {} makes {}'.format(k, ', '.join(sorted(made))), p.where())
                else:
                    ctx.undecided('registry', key, 'what the parser makes is not seen')
                if hasattr(d, 'node'):
                    ctx.ob('registry', key + ' pair', p.mod is d.mod or k in ('',), 'the files of {} are recognised by {} and read by {}'.format(k, d.qual, p.qual), mod.rel)
            elif p is None:
                ctx.ob('registry', key, False, '{} has no parser'.format(k), mod.rel)
        last = ents[-1]
        ctx.ob('registry', name + ' last', last['type'] not in names, '{} does not end with the entry that refuses unknown files'.format(name), mod.rel)
        if 'FallbackGrant' in have:
            ctx.ob('registry', name + ' order', have.index('FallbackGrant') == len([x for x in have if x in names]) - 1, 'the fallback is tried before the parser of a kind of its own', mod.rel)


def run(ctx):
    m = ctx.model
    regs = registries(m)
    ctx.need('registries', len(regs), 1)
    registry(ctx, m, regs)
    detectors(ctx, m, regs)
    collections(ctx, m, regs)
