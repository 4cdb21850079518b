"""C09: what could not be read is never written out: every output form of a
record refuses a bad record before producing anything, and writing a
collection's BibTeX goes on past it."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, alts, is_c, show, subterms
from ..model import Cls
from .c08 import trouble

ME = T('p', 'self')
MYBAD = T('truth', T('at', ME, 'bad'))
OUT = ('write', 'writelines', 'writerow', 'writerows')


class Client(Base):
    max_states = 60
    exact_conds = True
    progress = False

    def __init__(self, m, top, want):
        self.m, self.top, self.want = m, top, want
        self.early = []

    def inline(self, eng, fn, st):
        return fn is self.top or fn.name in ('writeRecord', '__bytes__', 'bibString') or fn.name.startswith('_') and not fn.name.startswith('__') and fn.cls is not None

    def decide(self, eng, st, atom):
        if atom == MYBAD:
            return self.want
        return Base.decide(self, eng, st, atom)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name.split('.')[-1] in OUT and recv is not None and self.want:
            self.early.append(eng.where(node))


class Skip(Base):
    """writeBib: a bad record makes bibString fail"""
    max_states = 60
    progress = False

    def __init__(self, m, top, exc):
        self.m, self.top, self.exc = m, top, exc
        self.asked = 0
        self.stopped = []
        self.skipped = []

    def inline(self, eng, fn, st):
        return fn is self.top or fn.parent is not None or fn.name.startswith('_') and not fn.name.startswith('__')

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name.split('.')[-1] == 'bibString' and recv is not None:
            b = st.conds.get(T('truth', T('at', recv, 'bad')))
            if b is not False:
                self.asked += 1
                for x in self.exc:
                    q = st.copy()
                    q.facts['bad one'] = True
                    eng.do_raise(q, x, node, implicit=True)

    def on_loop(self, eng, st, node, phase, *a):
        if phase == 'break' and st.facts.get('bad one'):
            self.stopped.append(eng.where(node))

    def join_fact(self, k, a, b):
        if k == 'bad one':
            return a or b
        return Base.join_fact(self, k, a, b)


def outputs(m, c):
    names = {'writeRecord', '__bytes__', 'bibString'}
    for k in m.mro(c):
        if isinstance(k, Cls):
            for f in k.methods.values():
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in OUT for x in ast.walk(f.node)):
                    names.add(f.name)
    return sorted(names)


def bad_exc(m, x):
    return isinstance(x, Cls) and (trouble(m, x) or x.name == 'RecordsNotCompatible')


def run(ctx):
    m = ctx.model
    ctx.rule('bad-refused', 'an output form of a bad record fails with a bad-record error, before anything is written')
    ctx.rule('good-written', 'a record that is not bad is not refused as bad')
    ctx.rule('export-goes-on', 'exporting BibTeX leaves out a bad record and goes on with the others')
    n = 0
    raised = set()
    for c in m.subclasses(m.cls('Record')):
        if c.name in ('Record', 'ExtendedRecord', 'Grant'):
            continue
        for nm in outputs(m, c):
            f = m.method(c, nm)
            if f is None or not f.node.body or isinstance(getattr(f.node.body[-1], 'value', None), ast.Constant) and len(f.node.body) == 1:
                continue
            n += 1
            key = '{}.{}'.format(c.name, nm)
            for want in (True, False):
                cl = Client(m, f, want)
                eng = Engine(m, cl, max_steps=1000000)
                try:
                    rets, raises = eng.run(f, {}, c, {})
                except Budget:
                    ctx.undecided('bad-refused', key, 'too many paths')
                    continue
                ctx.saw(f)
                if want:
                    ctx.ob('bad-refused', key, not rets, 'produces output for a bad record' if rets else '', f.where())
                    ctx.ob('bad-refused', key + ' before output', not cl.early, 'writes before a bad record is refused' if cl.early else '', cl.early[0] if cl.early else '')
                    if nm == 'bibString':
                        raised |= {e for st, e, nd, i in raises if bad_exc(m, e)}
                    other = [(e, nd) for st, e, nd, i in raises if (isinstance(e, Cls) or isinstance(e, str)) and not bad_exc(m, e) and not i]
                    ctx.ob('bad-refused', key + ' error', not other, 'a bad record is refused with {}'.format(getattr(other[0][0], 'name', other[0][0])) if other else '', f.where())
                else:
                    ref = [(e, nd) for st, e, nd, i in raises if isinstance(e, Cls) and trouble(m, e) and not i]
                    ctx.ob('good-written', key, not ref, 'a record that is not bad is refused with {}'.format(ref[0][0].name) if ref else '', f.where())
    for c in m.subclasses(m.cls('Collection')):
        for f in c.methods.values():
            if not any(isinstance(x, ast.Attribute) and x.attr == 'bibString' for x in ast.walk(f.node)):
                continue
            cl = Skip(m, f, sorted(raised, key=lambda k: k.name))
            eng = Engine(m, cl, max_steps=1000000)
            try:
                rets, raises = eng.run(f, {}, c, {})
            except Budget:
                ctx.undecided('export-goes-on', f.fid, 'too many paths')
                continue
            ctx.saw(f)
            n += 1
            esc = [(e, nd) for st, e, nd, i in raises if st.facts.get('bad one') and isinstance(e, Cls) and e.name != 'RecordsNotCompatible']
            ctx.ob('export-goes-on', f.fid, not esc, 'a bad record makes the whole export fail' if esc else '', f.where())
            ctx.ob('export-goes-on', f.fid + ' all', not cl.stopped, 'the export stops at a bad record' if cl.stopped else '', cl.stopped[0] if cl.stopped else '')
    ctx.count('output forms', n)
