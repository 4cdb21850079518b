"""What a function does with the files it opens: shared engine client."""
from .clients import Base
from .interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms

WRITERS = {'csv.DictWriter', 'csv.writer', 'DictWriter', 'writer'}
READERS = {'csv.DictReader', 'csv.reader', 'DictReader', 'reader', 'enumerate', 'iter', 'zip'}
PUT = {'write', 'writelines', 'writerow', 'writerows', 'writeheader', 'truncate'}
TAKE = {'read', 'readline', 'readlines', '__next__'}
OPENERS = ('open', 'io.open', 'codecs.open')


def writes(mode):
    """True/False/None for an open mode term"""
    if not is_c(mode):
        return None
    if not isinstance(mode[2], str):
        return None
    return any(c in mode[2] for c in 'wax+')


class Client(Base):
    max_states = 64
    exact_conds = True
    progress = False
    opaque_funcs = ()

    def __init__(self, top, opaque=()):
        self.top = top
        self.opaque = set(opaque)
        self.opens, self.uses, self.rets, self.calls = [], [], [], []

    def inline(self, eng, fn, st):
        if fn is self.top or fn.parent is not None:
            return True
        if fn.fid in self.opaque or fn.cls is not None and fn.cls.name in self.opaque_classes:
            return False
        return fn.fid in self.wanted

    wanted = frozenset()

    def files(self, eng, st, t, seen=()):
        """file objects a term may be (a csv writer or reader counts as its file)"""
        out = set()
        for x in alts(t):
            if x in seen:
                continue
            o = eng.obj(st, x)
            if o is not None and o.kind == 'file':
                out.add(x)
            elif x[0] == 'call' and x[2] and x[1][0] == 'x' and (x[1][1].split('.')[-1] in ('DictWriter', 'writer', 'DictReader', 'reader', 'enumerate', 'iter')):
                out |= self.files(eng, st, x[2][0], seen + (x,))
        return out

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name in OPENERS and recv is None:
            path = args[0] if args else kw.get('file', NONE)
            mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
            self.opens.append(dict(path=path, mode=mode, kw=dict(kw), conds=dict(st.conds), facts=dict(st.facts), where=eng.where(node), site=eng.site(node), loops=st.loops))
            f = T('r', ('file',) + tuple(eng.site(node)))
            st.facts['live', f] = True
            st.facts.pop(('closed', f), None)
            st.facts['opened'] = st.facts.get('opened', frozenset()) | {(writes(mode), path)}
        if recv is not None and name in PUT | TAKE | {'close'}:
            for f in self.files(eng, st, recv):
                if name == 'close':
                    st.facts['closed', f] = True
                    st.facts.pop(('live', f), None)
                else:
                    self.uses.append((f, name, eng.obj(st, f).slots.get('mode'), st.facts.get(('closed', f)), eng.where(node)))
            if not self.files(eng, st, recv) and name == 'close':
                for x in alts(recv):
                    st.facts['closed', x] = True
        if recv is None or name not in ('for:', 'view:keys'):
            self.calls.append((name, recv, tuple(args), dict(kw), eng.where(node), dict(st.conds), dict(st.facts)))

    def on_with(self, eng, st, node, phase, ctx):
        if phase == 'exit':
            for f in self.files(eng, st, ctx):
                st.facts['closed', f] = True
                st.facts.pop(('live', f), None)

    def join_fact(self, k, a, b):
        if k == 'opened':
            return (a or frozenset()) | (b or frozenset())
        if isinstance(k, tuple) and k[0] == 'closed':
            return True if a and b else None
        if isinstance(k, tuple) and k[0] == 'live':
            return True if a or b else None
        return Base.join_fact(self, k, a, b)

    def on_return(self, eng, st, fn, value, node):
        if fn is self.top:
            self.rets.append((st, value, eng.where(node) if node is not None else fn.where()))


def explore(m, fn, selfcls=None, ptypes=None, steps=400000, opaque=(), wanted=frozenset(), cls=Client, setup=None):
    cl = cls(fn, opaque)
    cl.wanted = wanted
    eng = Engine(m, cl, max_steps=steps)
    try:
        rets, raises = eng.run(fn, {}, selfcls, ptypes or {}, setup)
    except Budget as e:
        return None, None, None, None
    return cl, eng, rets, raises
