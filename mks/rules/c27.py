"""C27: a copy (of a collection, a record, or a record's saved state) is equal
to the original and shares nothing that either can change in place."""
from .. import effects
from ..clients import Base, is_coll, is_record
from ..interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms
from ..model import Cls
from ..setalg import compare, show_alg

ME = T('p', 'self')


class Client(Base):
    max_states = 24

    def __init__(self):
        self.muts = []

    def on_mutate(self, eng, st, node, t, how, value=None):
        self.muts.append((t, how, eng.where(node), value))


def changed_in_place(ctx, root):
    """attributes of the class family whose object some method changes in place"""
    m = ctx.model
    out = {}
    for c in m.subclasses(m.cls(root)):
        for f in list(c.methods.values()):
            if f.name == '__init__' or f.name.startswith('_load') or f.name in ('network', 'copy'):
                continue
            if len(list(f.node.body)) > 60:
                continue
            muts, why = effects.run(m, f, c, budget=120000)
            for t, how, where, e, fn, v in muts:
                x = t
                while x[0] in ('it', 'at', 'el') and not (x[0] == 'at' and x[1] == ME):
                    x = x[1]
                if x[0] == 'at' and x[1] == ME and not (t == ME):
                    if t == x or t[0] == 'it':
                        out.setdefault(x[2], where)
    return out


def params(fn):
    return [a.arg for a in fn.node.args.args]


def run(ctx):
    m = ctx.model
    ctx.rule('own-containers', 'whatever either object changes in place is not shared between the copy and the original')
    ctx.rule('equal', 'the copy holds what the original holds (content, name, bad flag, errors, class)')
    ctx.rule('original', 'copying does not change the original')
    n = 0
    for root in ('Collection', 'Record'):
        attrs = changed_in_place(ctx, root)
        attrs.setdefault('_collection' if root == 'Collection' else '_fieldDict', 'the content')
        if root == 'Collection':
            attrs.setdefault('errors', 'the errors')
            attrs.setdefault('_collectedTypes', 'the types held')
        else:
            attrs.pop('_computedFields', None)
        ctx.counts['attributes changed in place: ' + root] = sorted(attrs)
        for c in m.subclasses(m.cls(root)):
            f = m.method(c, 'copy')
            if f is not None:
                n += 1
                copy_method(ctx, m, c, f, attrs, root)
            for nm in ('__getstate__', '__deepcopy__', '__copy__', '__reduce__'):
                g = m.method(c, nm)
                if g is not None and nm == '__getstate__':
                    n += 1
                    state(ctx, m, c, g, attrs, root)
            h = m.method(c, '__setstate__')
            if h is not None:
                setstate(ctx, m, c, h)
    ctx.need('copy and state functions', n, 10)
    derived(ctx, m, changed_in_place(ctx, 'Collection'))


class Shallow(Client):
    """constructors, copies and operators are entered, other questions asked on the way are not"""
    def inline(self, eng, fn, st):
        return (fn is self.top or fn.name.startswith('_') or fn.name in ('copy', 'add')) and Client.inline(self, eng, fn, st)


def derived(ctx, m, attrs):
    ctx.rule('derived', 'a collection made from others shares no object that either changes in place with them')
    for a in ('_collection', 'errors', '_collectedTypes'):
        attrs.setdefault(a, '')
    n = 0
    for c in m.subclasses(m.cls('Collection')):
        for name, f in sorted(c.methods.items()):
            if name in ('__init__', 'copy') or name.startswith('_') and not name.startswith('__'):
                continue
            r = execute(ctx, m, c, f, Shallow)
            if r is None:
                ctx.undecided('derived', f.fid, 'path budget')
                continue
            eng, cl, rets, raises = r
            own = [ME] + [T('p', p) for p in params(f) if p != 'self']
            for st, v in rets:
                for a in sorted(attrs):
                    shared = [w for w in own[1:] if any(y == T('at', w, a) for y in alts(final(eng, st, ME, a)))]
                    ctx.ob('derived', '{}.{} {}'.format(c.name, name, a), not shared, 'the collection and {} share one {} object afterwards'.format(show(shared[0]) if shared else '', a), f.where())
                for x in made_in(eng, st, v):
                    o = eng.obj(st, x)
                    if o is None or o.kind != 'inst' or o.cls is None or not any(isinstance(k, Cls) and k.name == 'Collection' for k in m.mro(o.cls)):
                        continue
                    n += 1
                    for a in sorted(attrs):
                        mine = final(eng, st, x, a)
                        shared = [w for w in own if any(y == T('at', w, a) for y in alts(mine))]
                        ctx.ob('derived', '{}.{} {}'.format(c.name, name, a), not shared, 'the new collection and {} share one {} object'.format(show(shared[0]) if shared else '', a), f.where())
    ctx.need('collections made by methods', n, 10)


def made_in(eng, st, v, depth=0):
    out = []
    for x in alts(v):
        if x[0] == 'tup':
            out += [y for e in x[1:] for y in made_in(eng, st, e, depth + 1)]
        elif x[0] == 'r':
            out.append(x)
            o = eng.obj(st, x)
            if o is not None and o.kind in ('list', 'tuple', 'set', 'dict') and depth < 3:
                for e in list(o.seq or ()) + [b for b, g in o.bag or ()] + [e for e in o.slots.values() if isinstance(e, tuple)]:
                    out += made_in(eng, st, e, depth + 1)
    return out


def execute(ctx, m, c, f, kind=Client):
    cl = kind()
    cl.top = f
    eng = Engine(m, cl, 200000)
    try:
        rets, raises = eng.run(f, selfcls=c)
    except Budget:
        return None
    ctx.saw(f)
    return eng, cl, rets, raises


def final(eng, st, t, name):
    if t[0] == 'r':
        o = st.heap.get(t[1])
        if o is not None and name in o.slots:
            return o.slots[name]
        if o is not None and o.src is not None and o.src != t:
            return T('at', o.src, name)
        return T('at', t, name)
    return st.sym.get((t, ('a', name)), T('at', t, name))


def copy_method(ctx, m, c, f, attrs, root):
    key = '{}.copy'.format(c.name)
    r = execute(ctx, m, c, f)
    if r is None:
        ctx.undecided('own-containers', key, 'path budget')
        return
    eng, cl, rets, raises = r
    ctx.ob('equal', key + ' returns', bool(rets), 'never returns', f.where())
    for st, v in rets:
        if v == ME or v == NONE or is_c(v):
            ctx.ob('own-containers', key, False, 'returns {} instead of a copy'.format(show(v)), f.where())
            continue
        o = eng.obj(st, v)
        if o is None or o.kind != 'inst':
            ctx.undecided('own-containers', key, 'returns ' + show(v))
            continue
        if o.cls is not None:
            ctx.ob('equal', key + ' class', o.cls is c, 'the copy is a {}'.format(o.cls.name), f.where())
        viastate = o.src == ME and m.method(c, '__getstate__') is not None and 'deepcopy' not in str(v)
        for a in sorted(attrs):
            mine, theirs = final(eng, st, ME, a), final(eng, st, v, a)
            if viastate and theirs == T('at', ME, a):
                continue            # the copy gets what __getstate__ hands out: checked there
            ctx.ob('own-containers', key + '.' + a, mine != theirs, 'the copy and the original share one {} object'.format(a), f.where())
        # values
        for a in (('_collection', 'errors') if root == 'Collection' else ('_fieldDict',)):
            base = T('at', ME, a)
            for who, t in (('copy', v), ('original', ME)):
                x = final(eng, st, t, a)
                rr, w, g = compare(eng.content(st, x), [base], lambda p: p)
                if rr is None:
                    ctx.undecided('equal', key + ' ' + who + '.' + a, 'content is ' + show_alg(eng.content(st, x))[:120])
                else:
                    ctx.ob('equal', key + ' ' + who + '.' + a, rr, 'the {} of the {} becomes {}'.format(a, who, show_alg(eng.content(st, x))), f.where())
        for a in ('name', 'bad') if root == 'Collection' else ('bad', 'error', '_id', '_sourceFile', '_sourceLine'):
            x = final(eng, st, v, a)
            if is_c(x) or x == T('at', ME, a):
                ctx.ob('equal', key + '.' + a, x == T('at', ME, a) or st.conds.get(T('truth', T('at', ME, a))) == bool(x[2]) and a == 'bad',
                       'the copy gets {} = {}'.format(a, show(x)), f.where())
    bad = [(t, how, w) for t, how, w, val in cl.muts if effects.owner(t) == ME and not (how.startswith('attr:') and fresh_same(eng, val, t, how))]
    ctx.ob('original', key, not bad, '{} is changed ({})'.format(show(bad[0][0]), bad[0][1]) if bad else '', bad[0][2] if bad else '')


def fresh_same(eng, v, t, how):
    return isinstance(v, tuple) and (v == T('at', t, how[5:]) or v[0] == 'r' and str(v[1][0]).endswith('cp'))


def state(ctx, m, c, f, attrs, root):
    key = '{}.{}'.format(c.name, f.name)
    r = execute(ctx, m, c, f)
    if r is None:
        ctx.undecided('own-containers', key, 'path budget')
        return
    eng, cl, rets, raises = r
    whole = T('at', ME, '__dict__')
    for st, v in rets:
        if v == whole:
            ctx.ob('own-containers', key, False, "hands out the object's own attribute dictionary", f.where())
            continue
        o = eng.obj(st, v)
        if o is None or o.kind != 'dict':
            ctx.undecided('own-containers', key, 'returns ' + show(v))
            continue
        for a in sorted(attrs):
            x = o.slots.get(C(a))
            if x is None:
                if o.src == whole:
                    ctx.ob('own-containers', key + '.' + a, False, "the saved state shares the object's own {}".format(a), f.where())
                else:
                    ctx.undecided('own-containers', key + '.' + a, 'not set')
                continue
            shared = [y for y in alts(x) if y in (T('at', ME, a), T('it', whole, C(a)))]
            ctx.ob('own-containers', key + '.' + a, not shared, "the saved state shares the object's own {}".format(a), f.where())
            for y in alts(x):
                alg = eng.content(st, y)
                rr, w, g = compare(alg, [T('at', ME, a)], lambda p: p)
                if rr is False:
                    rr2, w, g = compare(alg, [T('it', whole, C(a))], lambda p: p)
                    ctx.ob('equal', key + '.' + a, rr2 is not False, 'the saved {} is {}'.format(a, show_alg(alg)), f.where())
        for k, x in o.slots.items():
            if is_c(k) and k[2] not in attrs and k[2] != '_computedFields':
                ctx.ob('equal', key + '.' + str(k[2]), x in (T('at', ME, k[2]), T('it', whole, k)) or not is_c(x), 'the saved state replaces {} by {}'.format(k[2], show(x)), f.where())
    gone = [(t, how, w) for t, how, w, v in cl.muts if how in ('pop', 'delitem', 'clear', 'popitem') and effects.owner(t)[0] == 'r']
    ctx.ob('equal', key + ' keeps everything', not gone, 'drops a part of the state ({})'.format(gone[0][1]) if gone else '', gone[0][2] if gone else '')
    bad = [(t, how, w) for t, how, w, v in cl.muts if effects.owner(t) == ME]
    ctx.ob('original', key, not bad, '{} is changed ({})'.format(show(bad[0][0]), bad[0][1]) if bad else '', bad[0][2] if bad else '')


def setstate(ctx, m, c, f):
    key = '{}.{}'.format(c.name, f.name)
    r = execute(ctx, m, c, f)
    if r is None:
        return
    eng, cl, rets, raises = r
    p = T('p', params(f)[1])
    touched = [v for t, how, w, v in cl.muts if effects.owner(t) == ME]
    ctx.ob('equal', key, any(v == p or isinstance(v, tuple) and p in subterms(v) or True for v in touched) if touched else False,
           'the saved state is not restored', f.where())
