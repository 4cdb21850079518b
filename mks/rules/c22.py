"""C22: package-wide state (tables, registries, defaults, class attributes,
configuration) and interpreter-wide state are never changed by a call."""
import ast

from .. import effects
from . import effrules as er
from ..interp import C, NONE, T, is_c, show, subterms

# calls that change state of the whole interpreter or process
PROCESS = {'os.chdir', 'os.putenv', 'os.umask', 'os.environ.update', 'os.environ.setdefault', 'os.unsetenv', 'sys.setrecursionlimit', 'random.seed',
           'numpy.random.seed', 'csv.field_size_limit', 'csv.register_dialect', 'warnings.simplefilter', 'warnings.filterwarnings',
           'warnings.resetwarnings', 'locale.setlocale', 'pandas.set_option', 'socket.setdefaulttimeout', 'logging.basicConfig',
           'logging.disable', 'sys.settrace', 'signal.signal', 'gc.disable', 'time.tzset', 'os.nice', 'sys.setswitchinterval',
           'matplotlib.use', 'matplotlib.rcdefaults', 'urllib.request.install_opener', 'decimal.setcontext', 'os.fchdir', 'os.chroot', 'sys.stdout.close'}
ALLOWED_PROCESS = {('_j9SaveCurrent', 'os.chdir')}      # documented: saves the downloaded pages into the directory it moves to


class Client(effects.Client):
    def __init__(self):
        effects.Client.__init__(self)
        self.process = []
        self.stores = []

    def on_call(self, eng, st, node, name, recv, args, kw):
        if recv is None and name in PROCESS:
            self.process.append((name, eng.where(node), eng.fn))
        return effects.Client.on_call(self, eng, st, node, name, recv, args, kw)

    def on_global_store(self, eng, st, node, mod, name, value):
        old = T('g', mod, name)
        was_none = st.conds.get(T('cmp', 'is', old, NONE)) is True or st.conds.get(T('cmp', '==', old, NONE)) is True or st.conds.get(T('truth', old)) is False
        self.stores.append((mod, name, was_none, eng.where(node), eng.fn))


def starts_none(m, mod, name):
    mm = m.mods.get(mod)
    if mm is None:
        return False
    v = mm.assigns.get(name)
    v = getattr(v[-1], 'value', None) if isinstance(v, list) and v else v
    return isinstance(v, ast.Constant) and v.value is None


def run(ctx):
    m = ctx.model
    ctx.rule('shared-table', 'no function changes a module-level object, a class attribute or a default argument value in place')
    ctx.rule('global-rebind', 'no function rebinds a package-wide name, except to load a table that is not loaded yet')
    ctx.rule('process-state', 'no function changes interpreter or process state (working directory, warning filters, random seed, ...)')
    n = 0
    for f, c in er.entries(ctx):
        cl = Client()
        muts, why = effects.run(m, f, c, client=cl)
        if why:
            cl = Client()
            cl.max_states = 3
            muts, why = effects.run(m, f, c, budget=600000, client=cl)
        ctx.saw(f)
        n += 1
        bad = None
        for t, how, where, e, fn, v in muts:
            if how == 'global':
                continue
            for a, o in effects.owners(t):
                if o[0] in ('g', 'dflt', 'k', 'm') or o[0] == 'x' and '.' in o[1] and o[1].split('.')[0] in ('sys', 'os', 'csv', 'warnings', 'nx', 'networkx'):
                    if f.name == 'addToDB' and o[0] == 'g':
                        continue       # documented: adds the user's entry to the loaded journal table
                    bad = (a, how, where)
        ctx.ob('shared-table', f.fid, bad is None, '{} is changed in place ({}) at {}'.format(show(bad[0]), bad[1], bad[2]) if bad else '', bad[2] if bad else '')
        st = [(mod, name, w) for mod, name, lazy, w, fn in cl.stores if not (lazy and starts_none(m, mod, name))]
        ctx.ob('global-rebind', f.fid, not st, '{}.{} is rebound at {}'.format(*st[0]) if st else '', st[0][2] if st else '')
        ps = [(nm, w) for nm, w, fn in cl.process if (fn.name, nm) not in ALLOWED_PROCESS]
        ctx.ob('process-state', f.fid, not ps, '{} is called at {}'.format(*ps[0]) if ps else '', ps[0][1] if ps else '')
        if why:
            ctx.undecided('shared-table', f.fid, why)
    ctx.need('functions interpreted', n, 300)
