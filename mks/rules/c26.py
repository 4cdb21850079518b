"""C26: nothing on the machine is touched but what the caller asked for -
effect analysis over the call graph, and overwrite protection by paths."""
import ast

from ..files import Client, explore, writes
from ..interp import C, NONE, T, alts, is_c, show, subterms
from .c13 import DOCTOOLS, strip

RUN = {'eval', 'exec', 'compile', '__import__', 'execfile'}
RUN_X = ('os.system', 'os.popen', 'os.spawn', 'os.exec', 'subprocess.', 'pty.', 'ctypes.', 'marshal.load', 'shelve.', 'runpy.', 'code.', 'dill.', 'joblib.', 'yaml.load', 'importlib.')
UNPICKLE = ('pickle.load', 'pickle.loads', 'pickle.Unpickler', 'cPickle.load', 'cPickle.loads', 'numpy.load', 'pandas.read_pickle')
DELETE = ('os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames', 'os.replace', 'os.truncate', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copytree',
          'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.utime')
NET = ('urllib.request.', 'urllib.urlopen', 'urllib2.', 'http.', 'socket.', 'requests.', 'ftplib.', 'smtplib.', 'webbrowser.', 'xmlrpc.')
DIRS = ('os.mkdir', 'os.makedirs')
CWD = ('os.chdir', 'os.fchdir')
ENVIRON = ('os.putenv', 'os.setuid', 'os.kill', 'signal.', 'os.umask')
DB = ('dbm.',)

# documented to write files, by name of the operation the user calls
WRITERS = {'writeFile', 'writeCSV', 'writeBib', 'forBurst', 'forNLP', 'rankedSeries', 'timeSeries', 'writeGraph', 'writeEdgeList', 'writeNodeAttributeFile',
           'writeTnetFile', '_createCache', 'updatej9DB', 'downloadData', '_j9SaveCurrent'}
# ... and to fetch something or to work on the journal database
FETCHERS = {'updatej9DB', '_j9SaveCurrent', '_getCurrentj9Dict', 'downloadData'}
DATABASE = {'updatej9DB', 'getj9dict', 'addToDB', 'excludeFromDB'}
CACHE = {'_loadFromCache'}


def dotted(m, f, e):
    """dotted name of a called expression, imports resolved"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    r = m.resolve(f.mod, e.id)
    base = r[1] if r and r[0] in ('x', 'm') else e.id if r is None else None
    if base is None:
        return None
    return '.'.join([base] + parts[::-1])


def const(e):
    return isinstance(e, ast.Constant)


def effect_of(m, f, call):
    """(kind, description) of one call, or None"""
    d = dotted(m, f, call.func)
    if d is None:
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('unlink', 'rmdir', 'write_text', 'write_bytes', 'rmtree', 'urlopen', 'extractall') and not call.args[1:]:
            return {'unlink': 'delete', 'rmdir': 'delete', 'rmtree': 'delete', 'urlopen': 'net'}.get(call.func.attr, 'write'), call.func.attr
        return None
    if d in RUN or d.startswith('builtins.') and d[9:] in RUN or any(d.startswith(x) for x in RUN_X):
        if d.startswith('importlib.') and all(const(a) for a in call.args):
            return None
        return 'run', d
    if d.startswith(UNPICKLE):
        return 'unpickle', d
    if d in DELETE:
        return 'delete', d
    if d in ('urllib.request.Request', 'urllib.error.URLError', 'http.HTTPStatus') or d.startswith('urllib.parse'):
        return None
    if d.startswith(NET):
        return 'net', d
    if d in DIRS:
        return 'dir', d
    if d in CWD:
        return 'cwd', d
    if d.startswith(ENVIRON):
        return 'process', d
    if d.startswith(DB) and d.endswith('open'):
        return 'db', d
    if d in ('open', 'io.open', 'codecs.open', 'builtins.open'):
        mode = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'mode'), None)
        if mode is None:
            return None
        if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
            return ('write', d) if any(c in mode.value for c in 'wax+') else None
        return 'write', d + ' with a computed mode'
    if d.endswith(('.to_csv', '.to_excel', '.savefig', '.write_graphml', '.write_gexf', '.write_pajek', '.write_edgelist', '.write_gml', '.write_gpickle')):
        return 'write', d
    if d.startswith('tempfile.'):
        return 'write', d
    return None


def calls_of(f):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]


def graph(m):
    """callers: function -> functions that call (or mention) it by name"""
    byname = {}
    for f in m.funcs.values():
        byname.setdefault(f.name, []).append(f)
    callers = {}
    for f in m.funcs.values():
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                names.add(('n', n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                names.add(('a', n.attr))
        for k, nm in names:
            for g in byname.get(nm, ()):
                if g is f:
                    continue
                if k == 'n':
                    if g.cls is not None:
                        continue
                    r = m.resolve(f.mod, nm)
                    inner = g.parent is not None and (g.parent is f or f.parent is g.parent)
                    if not inner and not (r and r[0] == 'f' and r[1] is g):
                        continue
                callers.setdefault(g.fid, set()).add(f.fid)
        # a class called by name runs its constructor
    return callers


def outer(f):
    while f.parent is not None and hasattr(f.parent, 'fid'):
        f = f.parent
    return f


def owners(m, callers, f, allowed, seen=None, depth=0):
    """operations that reach f: [] when every way into f goes through an
    allowed operation, otherwise the entry points that are not allowed"""
    f = outer(f)
    if f.name in allowed:
        return []
    seen = set() if seen is None else seen
    if f.fid in seen:
        return []
    seen.add(f.fid)
    private = f.name.startswith('_') and not f.name.startswith('__')
    cs = [m.funcs[c] for c in callers.get(f.fid, ()) if outer(m.funcs[c]) is not f]
    if not cs or (not private and not internal(m, f)):
        return [f]
    out = []
    for c in cs:
        out += owners(m, callers, c, allowed, seen, depth + 1)
    return out


def internal(m, f):
    """a helper that the documentation does not offer: no docstring"""
    return ast.get_docstring(f.node) is None and f.cls is None


def run(ctx):
    m = ctx.model
    ctx.rule('C26.run', 'no code or command made from data is executed')
    ctx.rule('C26.unpickle', 'only the cache of a collection is unpickled')
    ctx.rule('C26.delete', 'files are removed only by the cache loader, and only the cache file')
    ctx.rule('C26.net', 'the network is used only by the functions documented to download')
    ctx.rule('C26.write', 'files are written only by the operations documented to write them')
    ctx.rule('C26.cwd', 'the working directory and the process are left as they were')
    ctx.rule('C26.input', 'a function that reads a file does not open the same path for writing')
    ctx.rule('C26.overwrite', 'with overwrite off nothing is written unless every output was found not to exist')
    callers = graph(m)
    cli = {f.name for f in m.funcs.values() if 'metaknowledgeCLI' in f.fid}
    n = 0
    for f in sorted(m.funcs.values(), key=lambda f: f.fid):
        if any(d in f.fid for d in DOCTOOLS) or f.parent is not None and not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if f.parent is not None:
            continue
        ctx.saw(f)
        for call in calls_of(f):
            e = effect_of(m, f, call)
            if e is None:
                continue
            n += 1
            kind, what = e
            where = f.where(call)
            c = '{}: {}'.format(f.qual, what)
            iscli = 'metaknowledgeCLI' in f.fid
            if kind == 'run':
                ctx.ob('C26.run', c, iscli and what.startswith('code.'), '{} runs what it is given'.format(what), where)
            elif kind == 'unpickle':
                bad = owners(m, callers, f, CACHE)
                ctx.ob('C26.unpickle', c, not bad, '{} unpickles outside of the cache loader'.format(', '.join(x.qual for x in bad[:3])), where)
            elif kind == 'delete':
                bad = owners(m, callers, f, CACHE)
                ctx.ob('C26.delete', c, not bad, '{} removes or renames files'.format(', '.join(x.qual for x in bad[:3])), where)
            elif kind == 'net':
                bad = owners(m, callers, f, FETCHERS)
                ctx.ob('C26.net', c, not bad, '{} uses the network'.format(', '.join(x.qual for x in bad[:3])), where)
            elif kind == 'db':
                bad = owners(m, callers, f, DATABASE)
                ctx.ob('C26.write', c, not bad, '{} opens a database'.format(', '.join(x.qual for x in bad[:3])), where)
            elif kind in ('write', 'dir'):
                bad = owners(m, callers, f, WRITERS | (cli if iscli else set()))
                ctx.ob('C26.write', c, not bad, '{} is not documented to write files'.format(', '.join(x.qual for x in bad[:3])), where)
            elif kind in ('cwd', 'process'):
                ctx.ob('C26.cwd', c, False, '{} changes the state of the process'.format(what), where)
    for mod in m.mods.values():
        if any(d in mod.name for d in DOCTOOLS):
            continue
        for s in mod.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for call in [x for x in ast.walk(s) if isinstance(x, ast.Call)]:
                e = effect_of(m, Mod(mod), call)
                if e is not None and e[0] != 'db':
                    n += 1
                    ctx.ob('C26.run', '{}: {}'.format(mod.name, e[1]), False, 'importing the package has the effect {}'.format(e[1]), '{}:{}'.format(mod.rel, call.lineno))
    ctx.need('effect sites', n, 15)
    deletes(ctx, m)
    inputs(ctx, m)
    overwrite(ctx, m)


class Mod:
    def __init__(self, mod):
        self.mod = mod


def deletes(ctx, m):
    """the path removed is the cache path the loader was given"""
    for f in m.funcs.values():
        if f.parent is not None or f.name not in CACHE:
            continue
        cl, eng, rets, raises = explore(m, f, f.cls, cls=Client)
        if cl is None:
            ctx.undecided('C26.delete', f.qual, 'too many paths')
            continue
        read = {o['path'] for o in cl.opens}
        for name, recv, args, kw, where, conds, facts in cl.calls:
            if recv is None and (name in DELETE or 'os.' + name in DELETE) and args:
                ctx.ob('C26.delete', f.qual + ': path', strip(args[0]) in {strip(p) for p in read}, 'removes {}, which is not the cache it read'.format(show(args[0])[:60]), where)
            if recv is None and name.split('.')[-1] in ('load', 'loads') and 'pickle' in name and args:
                fs = args[0]
                ok = any(eng_file(o, fs) for o in cl.opens)
                if not ok and fs[0] != 'r':
                    ctx.ob('C26.unpickle', f.qual + ': source', False, 'unpickles {}'.format(show(fs)[:60]), where)
                else:
                    ctx.ob('C26.unpickle', f.qual + ': source', True)


def eng_file(o, t):
    return t[0] == 'r' and t[1][0] == 'file'


def inputs(ctx, m):
    from .c13 import tops
    fns, helpers = tops(m)
    for f in fns:
        cl, eng, rets, raises = explore(m, f, f.cls, cls=Client, wanted=helpers - {f.fid}, steps=600000)
        if cl is None:
            ctx.undecided('C26.input', f.qual, 'too many paths')
            continue
        rd = {strip(a) for o in cl.opens if writes(o['mode']) is False and 'b' not in o['mode'][2] for a in alts(o['path'])}
        for o in cl.opens:
            if writes(o['mode']):
                for a in alts(o['path']):
                    src = [x for x in subterms(a) if x[0] == 'at' and x[2] in ('sourceFile', '_sourceFile')]
                    ctx.ob('C26.input', f.qual, strip(a) not in rd and not src, 'writes to {}, which is an input'.format(show(a)[:60]), o['where'])


class Over(Client):
    """writeGraph with its writers interpreted in place"""
    max_states = 2000
    handler_states = 300

    def inline(self, eng, fn, st):
        return Client.inline(self, eng, fn, st) or fn.name in ('writeEdgeList', 'writeNodeAttributeFile') or \
            fn.name.startswith('_') and not (fn.cls is not None and fn.cls.name in self.opaque_classes) and not fn.name.startswith('__')

    def on_call(self, eng, st, node, name, recv, args, kw):
        Client.on_call(self, eng, st, node, name, recv, args, kw)
        if name in ('open', 'io.open', 'codecs.open') and recv is None and writes(self.opens[-1]['mode']) is not False:
            p = strip(self.opens[-1]['path'])
            st.facts['order'] = st.facts.get('order', ()) + ((p, self.opens[-1]['where'], len(self.opens) - 1),)

    def join_fact(self, k, a, b):
        if k == 'order':
            return a if a == b else (a or ()) + (b or ())
        return Client.join_fact(self, k, a, b)


EXISTS = ('isfile', 'exists', 'lexists')


def absent(conds, path):
    for a, v in conds.items():
        if a[0] == 'truth':
            a = a[1]
        if v is False and a[0] == 'call' and a[1][0] == 'x' and a[1][1].split('.')[-1] in EXISTS and a[2] and strip(a[2][0]) == path:
            return True
    return False


def guarded(conds, path, ov):
    """on every way here either overwriting is on or the path was found absent"""
    def fine(c):
        return c.get(ov) is True or absent(c, path)
    if fine(conds):
        return True
    for a, v in conds.items():
        if a[0] == 'dnf' and v is True:
            if all(fine({**conds, **{l[1]: l[2][2] for l in d[1:] if l[0] == 'lit' and is_c(l[2])}}) for d in a[1:]):
                return True
    return False


def overwrite(ctx, m):
    todo = [f for f in m.funcs.values() if f.parent is None and isinstance(f.node, ast.FunctionDef) and
            'overwrite' in [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]]
    ctx.count('operations with an overwrite option', len(todo))
    for f in todo:
        cl, eng, rets, raises = explore(m, f, f.cls, cls=Over, steps=1500000)
        if cl is None:
            ctx.undecided('C26.overwrite', f.qual, 'too many paths')
            continue
        ov = T('truth', T('p', 'overwrite'))
        seen = 0
        for st, v in rets:
            order = st.facts.get('order', ())
            for i, (p, where, k) in enumerate(order):
                seen += 1
                for q, w2, k2 in order[:i]:
                    if w2 != where:
                        ctx.ob('C26.overwrite', f.qual + ': distinct', p != q, 'two outputs of the call are written to {}'.format(show(p)[:70]), where)
                first = cl.opens[order[0][2]]['conds']
                ok = guarded(first, p, ov)
                if not ok and p[0] in ('j', 'phi', 'unk'):
                    ctx.undecided('C26.overwrite', f.qual, 'path {}'.format(show(p)[:60]))
                    continue
                ctx.ob('C26.overwrite', f.qual, ok, 'with overwrite off, {} is opened for writing without having been found absent before anything was written'.format(show(p)[:70]), where)
        if not seen:
            ctx.undecided('C26.overwrite', f.qual, 'no file was seen to be opened')
