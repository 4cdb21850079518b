"""C13: files are closed when a call returns, written as what they were opened
for, and put where the caller asked for them."""
import ast
import re

from ..clients import put_in
from ..files import Client, OPENERS, PUT, TAKE, explore, writes
from .c15 import origins
from ..interp import C, NONE, T, alts, is_c, show, subterms

WRAP = {'expanduser', 'abspath', 'normpath', 'realpath', 'fspath', 'str'}
DOCTOOLS = ('metaknowledgeDocsGen', 'metaknowledgeMdToNb')


def opens_files(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and
               (isinstance(n.func, ast.Name) and n.func.id == 'open' or isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and
                isinstance(n.func.value, ast.Name) and n.func.value.id in ('io', 'codecs')) for n in ast.walk(f.node))


def called(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                out.add(n.func.id)
            elif isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
    return out


def tops(m):
    """functions to analyse, and the private helpers analysed as part of them"""
    top = [f for f in m.funcs.values() if f.parent is None and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and
           not any(d in f.fid for d in DOCTOOLS)]
    private = [f for f in top if f.name.startswith('_') and not f.name.startswith('__')]
    helpers = set()
    # a private function that opens, closes or gets handed a file works for its caller
    for f in private:
        gives = any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node))
        if opens_files(f) and gives or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('close', 'writerow', 'write')
                                           for n in ast.walk(f.node)):
            helpers.add(f.fid)
    names = {m.funcs[h].name for h in helpers}
    out = [f for f in top if opens_files(f) or called(f) & names and not f.fid in helpers]
    return sorted(out, key=lambda f: f.fid), frozenset(helpers)


class C13(Client):
    def __init__(self, top, opaque=()):
        Client.__init__(self, top, opaque)
        self.shut = {}

    def held_in(self, st, t):
        return [k[1] for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'held' and v and k[2] == t]

    def on_mutate(self, eng, st, node, t, how, value=None):
        for v in put_in(value):
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                for x in subterms(v):
                    o = eng.obj(st, x) if x and x[0] == 'r' else None
                    fs = [x] if o is not None and o.kind == 'file' else []
                    if o is not None and o.kind in ('tuple', 'list'):
                        fs = [y for e in list(o.seq or ()) + [b for b, g in o.bag] for y in self.files(eng, st, e)]
                    for f in fs:
                        st.facts['held', f, t] = True

    def join_fact(self, k, a, b):
        if isinstance(k, tuple) and k[0] == 'held':
            return True if a or b else None
        return Client.join_fact(self, k, a, b)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == 'close' and recv is not None:
            st.facts['closing'] = st.facts.get('closing', frozenset()) | set(alts(recv)) | self.files(eng, st, recv)
        Client.on_call(self, eng, st, node, name, recv, args, kw)

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if not isinstance(node, (ast.For, ast.While)):
            return
        site = eng.site(node)
        if phase == 'enter':
            st.facts['closing'] = frozenset()
        elif phase in ('iter-end', 'break'):
            # (a thing taken out of a container may be known in several ways)
            c = st.facts.get('closing', frozenset())
            self.shut.setdefault(site, []).append(c | {y for x in c if x[0] != 'r' for y in subterms(x) if y[0] == 'r'})
        elif phase == 'exit' and it is not None and any('part' in lost for b, lost in origins(eng, it)):
            self.shut.pop(site, None)
        elif phase == 'exit':
            ends = self.shut.get(site)
            if ends:
                done = frozenset.intersection(*ends)
                for f in done:
                    st.facts['shut', f] = True


def strip(t):
    while t[0] == 'call' and len(t[2]) == 1 and (t[1][0] == 'x' and t[1][1].split('.')[-1] in WRAP or t[1][0] == 'g' and t[1][-1] in WRAP):
        t = t[2][0]
    return t


def params(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ('self', 'cls')]


def named(fn, p):
    """does the documentation say of another parameter that file names are made with it"""
    from .c28 import documented
    return bool(re.search('suffix|prefix|extension|name', documented(fn).get(p, '') + p, re.I))


def held_closed(eng, st, f, cl):
    """a file put into a container is closed when a loop over that container
    closes what it holds"""
    boxes = [k[2] for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'held' and k[1] == f and v]
    if not boxes:
        return None
    shut = [k[1] for k in st.facts if isinstance(k, tuple) and k[0] == 'shut'] + list(st.facts.get('closing', ()))
    for b in boxes:
        for x in shut:
            if b in subterms(x) or x == f:
                return True
            o = eng.obj(st, b)
            if o is not None and x[0] in ('it', 'el', 'idx', 'j') and any(y == b or y[0] == 'r' and y == b for y in subterms(x)):
                return True
    return False


def returned(eng, st, v, f, depth=0):
    if depth > 4 or not isinstance(v, tuple):
        return False
    for x in subterms(v):
        if x == f:
            return True
        if x[0] == 'r':
            o = eng.obj(st, x)
            if o is not None and o.kind in ('tuple', 'list', 'dict', 'set') and any(returned(eng, st, e, f, depth + 1) for e in list(o.seq or ()) + [b for b, g in o.bag]):
                return True
            if o is not None and o.kind in ('dict', 'inst') and any(isinstance(e, tuple) and e != x and returned(eng, st, e, f, depth + 1) for e in (o.slots or {}).values()):
                return True
    return False


def run(ctx):
    m = ctx.model
    ctx.rule('C13.closed', 'every file a call opens is closed when the call returns')
    ctx.rule('C13.use', 'a file is not used after it was closed, written only when opened for writing and read only when opened for reading')
    ctx.rule('C13.place', 'a file that is written is the one the caller named')
    fns, helpers = tops(m)
    n = done = 0
    for fn in fns:
        cl, eng, rets, raises = explore(m, fn, fn.cls, cls=C13, wanted=helpers - {fn.fid}, steps=4000000 if ctx.thorough else 1000000)
        if cl is None:
            ctx.undecided('C13.closed', fn.qual, 'too many paths')
            continue
        done += 1
        ctx.saw(fn)
        n += len({o['site'] for o in cl.opens})
        for st, v in rets:
            for k, o in st.heap.items():
                if o.kind != 'file':
                    continue
                f = T('r', k)
                where = '{}:{}'.format(fn.file, k[1]) if len(k) > 1 else fn.where()
                c = '{}: file {}'.format(fn.qual, kindof(o))
                if not st.facts.get(('live', f)) or st.facts.get(('shut', f)):
                    ctx.ob('C13.closed', c, True)
                    continue
                if returned(eng, st, v, f):
                    ctx.ob('C13.closed', c, True)
                    continue
                h = held_closed(eng, st, f, cl)
                ctx.ob('C13.closed', c, bool(h), 'the file can still be open when the call returns', where)
        for f, name, mode, shut, where in cl.uses:
            c = '{}: {}'.format(fn.qual, name)
            ctx.ob('C13.use', c, not shut, 'the file is used after it was closed', where)
            if mode is not None and writes(mode) is not None:
                ctx.ob('C13.use', c, (name in TAKE) or writes(mode), 'the file was opened for reading', where)
                if name in TAKE:
                    ctx.ob('C13.use', c, not writes(mode) or '+' in mode[2], 'the file was opened for writing', where)
        place(ctx, fn, cl)
    ctx.need('functions that open files', done, 15)
    ctx.count('files opened', n)


def kindof(o):
    mo = o.slots.get('mode')
    return 'opened {!r}'.format(mo[2]) if mo is not None and is_c(mo) else 'opened'


def place(ctx, fn, cl):
    """what a function writes goes to the path it was given: the parameter
    itself, or - when that is not given - a name made from the collection"""
    given = [p for p in params(fn)]
    for o in cl.opens:
        w = writes(o['mode'])
        if w is None:
            ctx.undecided('C13.place', fn.qual, 'mode not known')
            continue
        if w:
            ctx.ob('C13.use', '{}: fresh'.format(fn.qual), 'a' not in str(o['mode'][2]), 'the file is opened to be added to: what it held before stays in it', o['where'])
        for path in alts(o['path']):
            ps = [p for p in given if T('p', p) in subterms(path)]
            core = strip(path)
            c = '{}: {}'.format(fn.qual, 'written' if w else 'read')
            if core[0] == 'p':
                ctx.ob('C13.place', c, True)
                # is the parameter known to be None here?
                none = o['conds'].get(T('cmp', 'is', core, NONE)) is True or o['conds'].get(T('truth', core)) is False
                ctx.ob('C13.place', c, not none, 'the file is opened on the path where no name was given', o['where'])
                ctx.ob('C13.place', c + ' role', w == writer_param(fn, core[1]) if writer_param(fn, core[1]) is not None else True,
                       'the path given by {} is opened for {}'.format(core[1], 'writing' if w else 'reading'), o['where'])
            elif w:
                # a made-up name: only when the caller gave none, or built around the given one
                want = [p for p in given if writer_param(fn, p)]
                for p in want:
                    t = T('p', p)
                    absent = o['conds'].get(T('cmp', 'is', t, NONE)) is True or o['conds'].get(T('truth', t)) is False
                    known = o['conds'].get(T('cmp', 'is', t, NONE)) is False or o['conds'].get(T('truth', t)) is True
                    if p in ps:
                        # built around the given name: with something else the call was given, or data
                        more = [x for x in subterms(path) if x[0] in ('el', 'phi') or x[0] == 'p' and x != t and named(fn, x[1]) or x[0] == 'it' and t not in subterms(x)]
                        ctx.ob('C13.place', c, bool(more), 'the file is written to {} instead of {}'.format(show(path)[:70], p), o['where'])
                    elif absent:
                        ctx.ob('C13.place', c, True)
                    elif known:
                        ctx.ob('C13.place', c, False, 'the file is written to {} although {} names another'.format(show(path)[:70], p), o['where'])
                    else:
                        ctx.undecided('C13.place', c, 'path {}'.format(show(path)[:80]))


ROLE_W = ('written', 'write', 'output', 'to be written', 'saved')


def writer_param(fn, p):
    """does the documentation (or, failing that, the function's name) say the
    parameter names a file to write (True), to read (False), or neither (None)"""
    from .c28 import documented
    docs = documented(fn)
    t = docs.get(p, '').lower()
    n = fn.name.lower()
    pl = p.lower()
    if not re.match(r'(f?name|\w*(file|path))(name)?(loc)?$', pl):
        return None
    if n.startswith(('write', '_create')) and ('name' in pl or 'file' in pl) and pl not in ('modenamestring', 'parametername'):
        return True
    if 'output' in pl:
        return True
    if n.startswith(('is', 'read', '_load')) or n.endswith(('parser',)) or 'parser' in n:
        return False
    return None
