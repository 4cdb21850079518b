"""C08: the bad flag and the error of records, grants, citations and
collections go together, and no problem found while building one is lost."""
import ast

from ..clients import Base, is_coll
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, alts, is_c, show, subterms
from ..model import Cls
from .c27 import final

ME = T('p', 'self')
FLAGS = {'bad': 'error', 'error': 'bad', 'errors': 'bad'}


def trouble(m, x):
    return isinstance(x, Cls) and any(isinstance(k, Cls) and k.name.startswith('Bad') and k.mod.name.endswith('mkExceptions') for k in m.mro(x))


class Client(Base):
    max_states = 120
    exact_conds = True
    handler_states = 20
    progress = False

    def __init__(self, m, top):
        self.m, self.top = m, top

    def inline(self, eng, fn, st):
        return fn.name == '__init__' or fn is self.top or fn.parent is not None or fn.name.startswith('_') and not fn.name.startswith('__')

    def on_call(self, eng, st, node, name, recv, args, kw):
        if recv is not None and (recv is NONE or st.conds.get(T('cmp', 'is', recv, NONE)) is True):
            st.facts['dead'] = True         # a method of None: this path ends here with an AttributeError
        last = name.split('.')[-1]
        x = self.m.classes_by_name(last) if hasattr(self.m, 'classes_by_name') else next((k for k in self.m.classes.values() if k.name == last), None)
        if x is not None and trouble(self.m, x):
            st.facts['found'] = (last, eng.where(node))

    def on_handler(self, eng, st, handler, exc):
        ks = []
        if handler.type is not None:
            for e in handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]:
                nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', None)
                ks.append(next((k for k in self.m.classes.values() if k.name == nm), None))
        if any(k is not None and trouble(self.m, k) for k in ks):
            st.facts['found'] = ('caught exception', eng.where(handler))
            st.facts['caught'] = (eng.fn.fid, handler.lineno, handler.end_lineno, eng.where(handler))

    def on_raise(self, eng, st, node, exc):
        pass

    def join_fact(self, k, a, b):
        if k in ('found', 'caught'):
            return a if a == b else None
        if k == 'dead':
            return a and b
        return Base.join_fact(self, k, a, b)


def none_err(eng, st, t):
    """True / False / None: is the error (or dictionary of errors) empty?"""
    if t is NONE or is_c(t) and not t[2]:
        return True
    if is_c(t):
        return False
    o = eng.obj(st, t)
    if o is not None:
        if o.kind == 'dict' and o.src is None and o.exact and not o.slots:
            return True
        if o.kind in ('inst', 'exc') or o.cls is not None:
            return False
    v = st.conds.get(T('cmp', 'is', t, NONE))
    if v is not None:
        return v
    if t[0] in ('new', 'exc', 'caught'):
        return False
    return None


def truth(st, t):
    if is_c(t):
        return bool(t[2])
    v = st.conds.get(T('truth', t))
    return st.conds.get(t) if v is None else v


def free(st, t):
    """a comparison whose outcome nothing on the path has a bearing on"""
    if t[0] != 'cmp':
        return False
    parts = {x for x in t[2:] if isinstance(x, tuple) and not is_c(x)}
    return not any(x in parts for c in st.conds for x in subterms(c))


def run(ctx):
    m = ctx.model
    ctx.rule('flag-and-error', 'whenever a constructor or method that sets them ends, bad is set exactly if there is an error')
    ctx.rule('problem-recorded', 'a problem found while an object is built leaves the object bad')
    ctx.rule('good-has-id', 'a record or grant that is not bad has an id taken from its content')
    ctx.rule('passed-on', 'updating from something bad makes the updated object bad, with that error')
    recs = m.subclasses(m.cls('Record'))
    colls = m.subclasses(m.cls('Collection'))
    cit = m.cls('Citation')
    n = 0
    done = set()
    for c in list(recs) + list(colls) + [cit]:
        init = m.method(c, '__init__')
        if init is not None and c.name not in ('Record', 'ExtendedRecord', 'Grant', 'Collection', 'CollectionWithIDs'):
            if c not in colls:
                n += 1
                one(ctx, m, c, init, c in recs)
        for f in c.methods.values():
            if f.name != '__init__' and f not in done and sets_flags(f.node):
                done.add(f)
                n += 1
                method(ctx, m, c, f)
        for f in c.methods.values():
            if f.name == 'update' and c in recs:
                n += 1
                update(ctx, m, c, f)
    ctx.count('constructors and methods', n)


def sets_flags(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in FLAGS:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr'):
            return True
    return False


def go(ctx, m, c, f, key, setup=None):
    cl = Client(m, f)
    eng = Engine(m, cl, max_steps=2000000)
    try:
        rets, raises = eng.run(f, {}, c, {}, setup) if setup else eng.run(f, {}, c, {})
    except Budget:
        ctx.undecided('flag-and-error', key, 'too many paths')
        return None
    ctx.saw(f)
    return eng, [(st, v) for st, v in rets if not st.facts.get('dead')], raises


def pair(ctx, eng, st, key, f, b, e, fails, und):
    """compare one flag with one error"""
    bs, es = alts(b), alts(e)
    if len(bs) > 1 and len(es) > 1:
        und.append('flag and error are mixed over several paths')
        return
    for x in bs:
        for y in es:
            t, z = truth(st, x), none_err(eng, st, y)
            if t is None or z is None:
                if x[0] in ('at', 'p') and y[0] in ('at', 'p') or t is None and z is None:
                    continue
                if t is True and len(es) == 1 and z is None:
                    continue            # an error object the analysis does not know
                if t is None and z is not None and len(es) == 1 and free(st, x):
                    fails.append('bad is {} but the error is {}'.format(show(x)[:60], 'empty' if z else 'set'))
                und.append('bad is {}, error is {}'.format(show(x)[:40], show(y)[:40]))
            elif t == z:
                fails.append('bad is {} but the error is {}'.format(t, 'empty' if z else 'set'))


def one(ctx, m, c, init, rec):
    key = c.name
    r = go(ctx, m, c, init, key)
    if r is None:
        return
    eng, rets, raises = r
    fails, und, lost, noid, other = [], [], [], [], []
    for st, v in rets:
        b, e = final(eng, st, ME, 'bad'), final(eng, st, ME, 'error')
        if b == T('at', ME, 'bad'):
            fails.append('bad is never set')
            continue
        if e == T('at', ME, 'error'):
            fails.append('error is never set')
            continue
        pair(ctx, eng, st, key, init, b, e, fails, und)
        found = st.facts.get('found')
        if found and any(truth(st, x) is False for x in alts(b)):
            lost.append(found)
        how = st.facts.get('caught')
        for x in alts(e):
            o = eng.obj(st, x)
            site = x[1] if x[0] == 'r' and isinstance(x[1], tuple) and len(x[1]) > 3 else None
            if how and o is not None and site and site[3] == how[0] and not how[1] <= site[1] <= how[2]:
                other.append(how[3])
        if rec:
            i = final(eng, st, ME, '_id')
            for x in alts(i):
                if is_c(x) and any(truth(st, y) is False for y in alts(b)) and len(alts(b)) == 1:
                    noid.append(show(x))
    ctx.ob('flag-and-error', key, not fails, fails[0] if fails else '', init.where())
    if und and not fails:
        ctx.undecided('flag-and-error', key, und[0])
    ctx.ob('problem-recorded', key, not lost, 'the problem found at {} ({}) leaves the object good'.format(lost[0][1], lost[0][0]) if lost else '', lost[0][1] if lost else '')
    if rec:
        ctx.ob('problem-recorded', key + ' itself', not other, 'the problem caught at {} is not the error that is kept'.format(other[0]) if other else '', other[0] if other else '')
        ctx.ob('good-has-id', key, not noid, 'a good one has the id {}'.format(noid[0]) if noid else '', init.where())


def method(ctx, m, c, f):
    key = f.fid
    r = go(ctx, m, c, f, key)
    if r is None:
        return
    eng, rets, raises = r
    fails = []
    und = []
    en = 'errors' if is_coll(m, c) else 'error'
    for st, v in rets:
        objs = {ME: 1}
        if isinstance(v, tuple) and v and v[0] == 'r':
            objs[v] = 1
        for x in objs:
            b, e = final(eng, st, x, 'bad'), final(eng, st, x, en)
            ch_b, ch_e = b != T('at', ME, 'bad'), e != T('at', ME, en)
            if not ch_b and not ch_e:
                continue
            for y in alts(b):
                for z in alts(e):
                    t, n = truth(st, y), none_err(eng, st, z)
                    if y is TRUE and z is NONE or y is FALSE and ch_b and not ch_e and t is False or n is True and ch_e and not ch_b and len(alts(e)) == 1 and truth(st, b) is not False:
                        fails.append('bad is {} while the error is {}'.format(show(y), show(z)[:60]))
                    elif t is not None and n is not None and t == n and len(alts(b)) == 1 and len(alts(e)) == 1:
                        fails.append('bad is {} but the error is {}'.format(t, 'empty' if n else 'set'))
    ctx.ob('flag-and-error', key, not fails, fails[0] if fails else '', f.where())


def update(ctx, m, c, f):
    key = f.fid
    ps = [a.arg for a in f.node.args.args]
    if len(ps) != 2:
        return
    o = T('p', ps[1])
    r = go(ctx, m, c, f, key)
    if r is None:
        return
    eng, rets, raises = r
    fails = []
    ob, oe = T('at', o, 'bad'), T('at', o, 'error')
    for st, v in rets:
        if 'NotImplemented' in show(v):
            continue
        if st.conds.get(T('truth', ob)) is False:
            if any(x is TRUE for x in alts(final(eng, st, ME, 'bad'))):
                fails.append('becomes bad although the other is not')
            continue
        b, e = final(eng, st, ME, 'bad'), final(eng, st, ME, 'error')
        if not all(x in (TRUE, ob) or x[0] == 'or' for x in alts(b)) and not any(ob in list(subterms(x)) for x in alts(b)):
            fails.append('stays good when updated from a bad one')
        elif not any(oe in list(subterms(x)) for x in alts(e)):
            fails.append('does not get the error of the bad one it was updated from')
    ctx.ob('passed-on', key, not fails, fails[0] if fails else '', f.where())
