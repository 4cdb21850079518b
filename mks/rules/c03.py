"""C03: collections are sets - operators, mutators and queries act on exactly
the records held, for every content (symbolic set expressions compared with the
set-theoretic function over all membership assignments)."""
from ..clients import Base, is_coll
from ..interp import (Budget, C, Engine, FALSE, NONE, NOTIMPL, T, TRUE, alts, is_c, show, subterms)
from ..model import Cls
from ..setalg import compare, looks_inside, show_alg, std_guard

A, B = T('p', 'self'), T('p', 'other')
OPS = {'or': lambda a, b: a or b, 'and': lambda a, b: a and b, 'sub': lambda a, b: a and not b, 'xor': lambda a, b: a != b}
SYM = {'or': '|', 'and': '&', 'sub': '-', 'xor': '^'}
MIXIN_INPLACE = {'__ior__': 'or', '__iand__': 'and', '__isub__': 'sub', '__ixor__': 'xor'}


def rooted(t, root):
    while t[0] in ('at', 'it', 'el', 'meth'):
        t = t[1]
    return t == root


class Client(Base):
    exact_conds = True

    def __init__(self, elem_ok):
        self.muts = []
        self.elem_ok = elem_ok

    def type_of(self, eng, st, t):
        return Base.type_of(self, eng, st, t)

    def decide(self, eng, st, atom):
        r = Base.decide(self, eng, st, atom)
        if r is not None:
            return r
        # what a collection holds has the type the collection is declared for
        if atom[0] == 'call' and atom[1] == T('x', 'isinstance') and len(atom[2]) == 2:
            v, c = atom[2]
            if v[0] == 'el' and c[0] == 'k' and self.elem_ok(c[1]) and held(v):
                return True
        return None

    def on_mutate(self, eng, st, node, t, how, value=None):
        self.muts.append((t, how, eng.where(node)))

    def on_handler(self, eng, st, handler, exc):
        # the standard set's own complaint about a missing or absent element was caught
        if len(eng.acts) <= 2 and getattr(exc, 'name', exc) in ('KeyError', 'LookupError', 'ANY', 'Exception'):
            st.facts['missing'] = True


def held(v):
    """every base the element is drawn from is the inside of a collection operand"""
    src = v[1]
    if src[0] == 'cont':
        bases = [x[1] for x in subterms(src) if x[0] == 'base']
        return bool(bases) and all(b[0] == 'at' and b[2] == '_collection' for b in bases)
    return src[0] == 'at' and src[2] == '_collection' or src in (A, B)


def inner(eng, st, t):
    """the set inside collection term t"""
    if t[0] == 'r':
        o = st.heap.get(t[1])
        return o.slots.get('_collection', T('at', t, '_collection'))
    return st.sym.get((t, ('a', '_collection')), T('at', t, '_collection'))


def attr(st, t, name):
    if t[0] == 'r':
        o = st.heap.get(t[1])
        return o.slots.get(name, T('at', t, name))
    return st.sym.get((t, ('a', name)), T('at', t, name))


def concrete(m):
    out = []
    for c in m.subclasses(m.cls('Collection')):
        init = m.method(c, '__init__')
        if init is None:
            continue
        a = init.node.args
        need = len(a.args) - len(a.defaults) - 1
        if need <= 1:
            out.append(c)
    return out


def ALLOWED(m, c):
    """element classes of a concrete collection class: what its initialiser hands on as allowed types"""
    return lambda cid: cid.split(':')[-1] in ('Record', 'Grant', 'ExtendedRecord')


def run(ctx):
    m = ctx.model
    ctx.rule('content', 'the resulting set of records is the set-theoretic function of the operands, for every content')
    ctx.rule('operands', 'no operand other than the left one of an in-place form is modified')
    ctx.rule('typeguard', 'an operand of another type gives NotImplemented and changes nothing')
    ctx.rule('errors', 'a result built from a bad operand is bad and has the errors of both')
    ctx.rule('fresh', 'a binary operator returns a new collection with its own set')
    ctx.rule('element', 'element operations act on exactly the records held')
    classes = concrete(m)
    ctx.need('collection classes', len(classes), 2)
    for c in classes:
        for op in OPS:
            binary(ctx, m, c, op)
            inplace(ctx, m, c, op)
        elements(ctx, m, c)
        build(ctx, m, c)
        if m.method(c, '__add__') is not None:
            plus(ctx, m, c)


def execute(ctx, m, c, fn, ptypes):
    cl = Client(ALLOWED(m, c))
    eng = Engine(m, cl, max_steps=400000)
    try:
        rets, raises = eng.run(fn, selfcls=c, ptypes=ptypes)
    except Budget:
        return None
    ctx.saw(fn)
    return eng, cl, rets, raises


def result_content(ctx, rule, key, eng, st, setterm, bases, f, where):
    alg = eng.content_iter(st, setterm) if setterm[0] != 'r' else eng.content(st, setterm)
    r, wit, got = compare(alg, bases, f)
    if r is None:
        g = looks_inside(alg)
        if g is not None:
            ctx.ob(rule, key, False, 'whether a record is included depends on {}, which different records can share'.format(show(g)), where)
            return
        ctx.undecided(rule, key, 'content is ' + show_alg(alg)[:160])
        return
    ctx.ob(rule, key, r, '' if r else 'content is {}: an element with {} is{} included'.format(
        show_alg(alg)[:300], ', '.join('{}in {}'.format('' if v else 'not ', show(k)) for k, v in wit.items()), '' if got else ' not'), where)


def untouched(ctx, key, cl, eng, rets, roots, where):
    bad = [(t, how, w) for t, how, w in cl.muts if any(rooted(t, r) for r in roots)]
    ctx.ob('operands', key, not bad, '; '.join('{} is changed ({}) at {}'.format(show(t), how, w) for t, how, w in bad[:3]),
           bad[0][2] if bad else where)


def badness(eng, st, who):
    """False when on this path `who` is known not to be bad"""
    v = attr(st, who, 'bad')
    return eng.known(st, v)


def errors_kept(ctx, key, eng, st, target, bases, where):
    e = attr(st, target, 'errors')
    alg = eng.content(st, e)
    ea, eb = T('at', A, 'errors'), T('at', B, 'errors')
    need = [x for x, w in ((ea, A), (eb, B)) if w in bases]
    r, wit, got = compare(alg, need, lambda *v: any(v))
    if r is None:
        # unions with more than the operands' errors are fine: only require inclusion
        ctx.undecided('errors', key, 'errors are ' + show_alg(alg)[:160])
    else:
        ctx.ob('errors', key, r or not missing(alg, need), '' if r else 'errors are ' + show_alg(alg), where)
    b = attr(st, target, 'bad')
    if target == A or eng.known(st, b) is not None:
        k = eng.known(st, b)
        if k is not None:
            ctx.ob('errors', key + ' flag', k, 'the result is not marked bad', where)


def missing(alg, need):
    from ..setalg import member
    for x in need:
        env = {y: y == x for y in need}
        if member(alg, env) is not True:
            return True
    return False


def binary(ctx, m, c, op):
    name = '__{}__'.format(op)
    fn = m.method(c, name)
    key = '{} {} {}'.format(c.name, SYM[op], c.name)
    if fn is None:
        ctx.undecided('content', key, 'operator not defined in the package (abstract base mixin)')
        return
    r = execute(ctx, m, c, fn, {'self': c, other_name(fn): c})
    if r is None:
        ctx.undecided('content', key, 'path budget')
        return
    eng, cl, rets, raises = r
    Bn = T('p', other_name(fn))
    where = fn.where()
    bases = [T('at', A, '_collection'), T('at', Bn, '_collection')]
    ctx.ob('content', key + ' returns', bool(rets), 'no path returns', where)
    for st, v in rets:
        for x in alts(v):
            o = eng.obj(st, x)
            if x == NOTIMPL:
                ctx.ob('content', key, False, 'NotImplemented is returned for two collections of one type', where)
                continue
            if o is None or not is_coll(m, o.cls if isinstance(o.cls, Cls) else None):
                known_wrong = x[0] in ('c', 'p') or (o is not None and o.kind in ('set', 'list', 'dict'))
                if known_wrong:
                    ctx.ob('fresh', key, False, 'returns {} instead of a new collection'.format(show(x)), where)
                else:
                    ctx.undecided('content', key, 'returns ' + show(x))
                continue
            ctx.ob('fresh', key, True)
            ctx.ob('fresh', key + ' type', o.cls is c, 'returns a {}'.format(o.cls.name), where)
            s = inner(eng, st, x)
            ctx.ob('fresh', key + ' own set', s not in bases, 'the result shares the set of {}'.format(show(s)), where)
            result_content(ctx, 'content', key, eng, st, s, bases, OPS[op], where)
            ka, kb = badness(eng, st, A), badness(eng, st, Bn)
            if not (ka is False and kb is False):
                errs(ctx, key, eng, st, x, [T('at', A, 'errors'), T('at', Bn, 'errors')], where)
    explicit = [x for x in raises if not x[3]]
    ctx.ob('content', key + ' raises', not explicit, 'raises {} for two collections of one type'.format(
        getattr(explicit[0][1], 'name', explicit[0][1]) if explicit else ''), where)
    untouched(ctx, key, cl, eng, rets, [A, Bn], where)
    guard(ctx, m, c, fn, key, [A, Bn])


def errs(ctx, key, eng, st, x, need, where):
    e = attr(st, x, 'errors')
    alg = eng.content(st, e)
    from ..setalg import member
    und, bad = False, None
    for n in need:
        r = member(alg, {y: y == n for y in need})
        if r is None:
            und = True
        elif not r:
            bad = n
    if bad is not None:
        ctx.ob('errors', key, False, '{} are lost: the result has {}'.format(show(bad), show_alg(alg)), where)
    elif und:
        ctx.undecided('errors', key, 'errors are ' + show_alg(alg)[:160])
    else:
        ctx.ob('errors', key, True)
    flag = attr(st, x, 'bad')
    k = eng.known(st, flag)
    if k is None:
        # the flag is still an operand's own: right only where that operand is the bad one
        others = [T('at', n[1], 'bad') for n in need]
        if flag in others:
            free = [o for o in others if o != flag and st.conds.get(T('truth', o)) is not False]
            if free and st.conds.get(T('truth', flag)) is None:
                k = False
        elif x[0] == 'r' and eng.obj(st, x) is not None and 'bad' not in eng.obj(st, x).slots:
            k = False
    if k is not None:
        ctx.ob('errors', key + ' flag', k, 'the result is not marked bad although an operand is', where)


def other_name(fn):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names[1] if len(names) > 1 else 'other'


def inplace(ctx, m, c, op):
    name = '__i{}__'.format(op)
    fn = m.method(c, name)
    key = '{} {}= {}'.format(c.name, SYM[op], c.name)
    if fn is None:
        ctx.undecided('content', key, 'in-place form not defined in the package (abstract base mixin)')
        return
    r = execute(ctx, m, c, fn, {'self': c, other_name(fn): c})
    if r is None:
        ctx.undecided('content', key, 'path budget')
        return
    eng, cl, rets, raises = r
    Bn = T('p', other_name(fn))
    where = fn.where()
    bases = [T('at', A, '_collection'), T('at', Bn, '_collection')]
    for st, v in rets:
        ctx.ob('content', key + ' returns self', v == A, 'returns {} instead of the left operand'.format(show(v)), where)
        s = inner(eng, st, A)
        ctx.ob('fresh', key + ' own set', s != bases[1], 'the left operand shares the set of the right one', where)
        result_content(ctx, 'content', key, eng, st, s, bases, OPS[op], where)
        ka, kb = badness0(eng, st, A), badness0(eng, st, Bn)
        if not (ka is False and kb is False):
            errs(ctx, key, eng, st, A, [T('at', A, 'errors'), T('at', Bn, 'errors')], where)
    untouched(ctx, key, cl, eng, rets, [Bn], where)
    guard(ctx, m, c, fn, key, [A, Bn])


def badness0(eng, st, who):
    return st.conds.get(T('truth', T('at', who, 'bad')))


def guard(ctx, m, c, fn, key, roots):
    others = [x for x in concrete(m) if x is not c][:1] + ['set', 'list']
    for o in others:
        r = execute(ctx, m, c, fn, {'self': c, other_name(fn): o})
        if r is None:
            continue
        eng, cl, rets, raises = r
        nm = o.name if isinstance(o, Cls) else o
        ok = all(v == NOTIMPL for st, v in rets) and bool(rets)
        ctx.ob('typeguard', '{} with {}'.format(key, nm), ok, 'a {} operand is not refused: {}'.format(
            nm, ', '.join(sorted({show(v) for st, v in rets if v != NOTIMPL}))), fn.where())
        bad = [(t, how, w) for t, how, w in cl.muts if any(rooted(t, x) for x in (A, T('p', other_name(fn))))]
        ctx.ob('typeguard', '{} with {} unchanged'.format(key, nm), not bad, 'changes {}'.format(show(bad[0][0]) if bad else ''),
               bad[0][2] if bad else '')


def arg(fn, i=1):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return T('p', names[i]) if len(names) > i else None


def elements(ctx, m, c):
    me = T('at', A, '_collection')
    table = {
        'add': (lambda a, e: a or e), 'discard': (lambda a, e: a and not e), 'remove': (lambda a, e: a and not e),
    }
    for name, f in table.items():
        fn = m.method(c, name)
        if fn is None:
            continue
        key = '{}.{}'.format(c.name, name)
        r = execute(ctx, m, c, fn, {'self': c})
        if r is None:
            ctx.undecided('element', key, 'path budget')
            continue
        eng, cl, rets, raises = r
        e = arg(fn)
        ctx.ob('element', key + ' returns', bool(rets), 'never returns', fn.where())
        for st, v in rets:
            if name == 'remove' and st.facts.get('missing'):
                ctx.ob('element', key + ' missing', False, 'removing a record that is not held goes unreported', fn.where())
                continue
            result_content(ctx, 'element', key, eng, st, inner(eng, st, A), [me, e], f, fn.where())
        if name == 'discard':
            ctx.ob('element', key + ' missing', not any(how == 'remove' for t, how, w in cl.muts if t == me) or bool(
                [1 for st, v in rets if st.facts.get('missing')]), 'discarding a record that is not held raises', fn.where())
        if name == 'remove':
            ctx.ob('element', key + ' missing', bool([1 for st, x, n, i in raises]) or any(how == 'remove' for t, how, w in cl.muts if t == me),
                   'removing a record that is not held goes unreported', fn.where())
        for st, x, node, imp in raises:
            if imp:
                continue
            alg = eng.content(st, inner(eng, st, A))
            rr, wit, got = compare(alg, [me, e], (lambda a, e: a) if name == 'add' else f)
            r0, w0, g0 = compare(alg, [me, e], lambda a, e: a)
            if rr is not None:
                ctx.ob('element', key + ' when raising', rr or r0 is True, 'a refused element changes the collection', fn.where())
        bad = [x for x in cl.muts if rooted(x[0], e)]
        ctx.ob('operands', key, not bad, 'the element is changed', fn.where())
    fn = m.method(c, 'clear')
    if fn is not None:
        r = execute(ctx, m, c, fn, {'self': c})
        if r is not None:
            eng, cl, rets, raises = r
            for st, v in rets:
                key = c.name + '.clear'
                result_content(ctx, 'element', key, eng, st, inner(eng, st, A), [me], lambda a: False, fn.where())
                eb = eng.content(st, attr(st, A, 'errors'))
                rr, w, g = compare(eb, [T('at', A, 'errors')], lambda a: False)
                if rr is not None:
                    ctx.ob('element', key + ' errors', rr, 'errors are kept', fn.where())
                k = eng.known(st, attr(st, A, 'bad'))
                ctx.ob('element', key + ' flag', k is not None and not k, 'bad is not reset', fn.where())
    for name in ('pop', 'peek'):
        fn = m.method(c, name)
        if fn is None:
            continue
        key = '{}.{}'.format(c.name, name)
        r = execute(ctx, m, c, fn, {'self': c})
        if r is None:
            continue
        eng, cl, rets, raises = r
        touched = [x for x in cl.muts if rooted(x[0], A)]
        if name == 'peek':
            ctx.ob('element', key + ' pure', not touched, 'changes the collection', fn.where())
            for st, v in rets:
                if v == NONE:
                    ctx.ob('element', key + ' value', not can_have(eng, st, me, 1), 'gives nothing although records are held', fn.where())
                else:
                    src = eng_root(v)
                    ctx.ob('element', key + ' value', src in (me, A), 'gives {}'.format(show(v)), fn.where())
        else:
            ctx.ob('element', key + ' removes', any(how in ('pop', 'remove', 'discard') for t, how, w in touched), 'removes nothing', fn.where())
            others = [x for x in touched if x[1] not in ('pop', 'remove', 'discard') or not rooted(x[0], me) and x[0] != me]
            for st, v in rets:
                if st.facts.get('missing'):
                    ctx.ob('element', key + ' empty', False, 'an empty collection is not reported', fn.where())
                elif v == NONE or is_c(v):
                    ctx.ob('element', key + ' value', False, 'the removed record is not given back', fn.where())
            ctx.ob('element', key + ' only removes', not others, 'also changes {}'.format(show(others[0][0]) if others else ''), fn.where())
    fn = m.method(c, '__contains__')
    if fn is not None:
        r = execute(ctx, m, c, fn, {'self': c})
        if r is not None:
            eng, cl, rets, raises = r
            want = T('cmp', 'in', arg(fn), me)
            for st, v in rets:
                key = c.name + '.__contains__'
                if v == want or v == T('truth', want):
                    ctx.ob('element', key, True)
                elif is_c(v):
                    k = st.conds.get(want)
                    if k is None:
                        ctx.ob('element', key, False, 'returns {} whatever the collection holds'.format(show(v)), fn.where())
                    else:
                        ctx.ob('element', key, bool(v[2]) == k, 'returns {} for a record that is{} held'.format(show(v), '' if k else ' not'), fn.where())
                elif v[0] in ('cmp', 'not'):
                    ctx.ob('element', key, False, 'returns {}'.format(show(v)), fn.where())
                else:
                    ctx.undecided('element', key, 'returns ' + show(v))
    fn = m.method(c, '__len__')
    if fn is not None:
        r = execute(ctx, m, c, fn, {'self': c})
        if r is not None:
            eng, cl, rets, raises = r
            for st, v in rets:
                key = c.name + '.__len__'
                if v == T('call', T('x', 'len'), (me,)):
                    ctx.ob('element', key, True)
                elif v[0] in ('c', 'bin') or v[0] == 'call' and v[1] == T('x', 'len'):
                    ctx.ob('element', key, False, 'returns {}'.format(show(v)), fn.where())
                else:
                    ctx.undecided('element', key, 'returns ' + show(v))
    fn = m.method(c, '__iter__')
    if fn is not None:
        r = execute(ctx, m, c, fn, {'self': c})
        if r is not None:
            eng, cl, rets, raises = r
            for st, v in rets:
                key = c.name + '.__iter__'
                alg = None
                g = st.heap.get(('gen', (fn.fid,))) or st.heap.get(('gen', fn.fid))
                if g is not None:
                    alg = g.alg
                elif v[0] == 'call' and v[1] == T('x', 'iter') and v[2]:
                    alg = eng.content(st, v[2][0])
                if alg is None:
                    ctx.undecided('element', key, 'returns ' + show(v))
                    continue
                rr, w, got = compare(alg, [me], lambda a: a)
                if rr is None:
                    ctx.undecided('element', key, 'yields ' + show_alg(alg))
                else:
                    ctx.ob('element', key, rr, 'yields ' + show_alg(alg), fn.where())
    fn = m.method(c, '__eq__')
    if fn is not None:
        r = execute(ctx, m, c, fn, {'self': c, other_name(fn): c})
        if r is not None:
            eng, cl, rets, raises = r
            ob = T('at', T('p', other_name(fn)), '_collection')
            for st, v in rets:
                key = c.name + '.__eq__'
                if v == NOTIMPL:
                    ctx.ob('element', key, False, 'two collections of one type are not compared', fn.where())
                elif v in (T('cmp', '==', me, ob), T('cmp', '==', ob, me)):
                    ctx.ob('element', key, True)
                elif v[0] == 'cmp' and v[1] in ('!=', '<', '<=', '>', '>=', 'is', 'is not', '=='):
                    ctx.ob('element', key, False, 'compares {}'.format(show(v)), fn.where())
                elif is_c(v):
                    k = st.conds.get(T('cmp', '==', me, ob))
                    if k is None:
                        k = st.conds.get(T('cmp', '==', ob, me))
                    if k is not None:
                        ctx.ob('element', key, bool(v[2]) == k, 'equality is inverted', fn.where())
                    else:
                        ctx.undecided('element', key, 'returns ' + show(v))
                else:
                    ctx.undecided('element', key, 'returns ' + show(v))


def eng_root(t):
    while True:
        if t[0] in ('at', 'it', 'el', 'meth', 'cont'):
            if t == T('at', A, '_collection'):
                return t
            t = t[1]
        elif t[0] == 'base':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'meth':
            t = t[1][1]
        elif t[0] == 'call' and t[1] in (T('x', 'next'), T('x', 'iter')) and t[2]:
            t = t[2][0]
        else:
            return t


def can_have(eng, st, s, n):
    """can the set s hold n elements on this path?"""
    import operator
    ops = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
    lens = (T('call', T('x', 'len'), (s,)), T('call', T('x', 'len'), (A,)))
    for a, v in st.conds.items():
        if a[0] == 'cmp' and a[1] in ops:
            if a[2] in lens and is_c(a[3]) and isinstance(a[3][2], int):
                if ops[a[1]](n, a[3][2]) != v:
                    return False
            elif a[3] in lens and is_c(a[2]) and isinstance(a[2][2], int):
                if ops[a[1]](a[2][2], n) != v:
                    return False
        elif a[0] == 'truth' and (a[1] == s or a[1] == A or a[1] in lens):
            if bool(n) != v:
                return False
    return True


def build(ctx, m, c):
    """a collection made from an iterable of records holds exactly them"""
    init = m.method(c, '__init__')
    names = [x.arg for x in init.node.args.args]
    src = T('p', names[1])
    for ty in ('list', 'set'):
        key = '{}({} of records)'.format(c.name, ty)
        r = execute(ctx, m, c, init, {names[0]: c, names[1]: ty})
        if r is None:
            ctx.undecided('content', key, 'path budget')
            continue
        eng, cl, rets, raises = r
        bad = [x for x in cl.muts if rooted(x[0], src)]
        ctx.ob('operands', key, not bad, 'the iterable is changed', bad[0][2] if bad else '')
        for st, v in rets:
            s = inner(eng, st, T('p', names[0]))
            alg = eng.content(st, s)
            ctx.ob('fresh', key + ' own set', s != src, "the collection shares the caller's set", init.where())
            rr, w, got = compare(alg, [src], lambda a: a, lambda atom, el, env: True if atom[0] == 'call' and atom[1] == T('x', 'isinstance')
                                 and atom[2][0] == el else std_guard(atom, el, env))
            if rr is None:
                ctx.undecided('content', key, 'content is ' + show_alg(alg)[:160])
            else:
                ctx.ob('content', key, rr, 'content is ' + show_alg(alg), init.where())


def plus(ctx, m, c):
    fn = m.method(c, '__add__')
    key = '{0} + {0}'.format(c.name)
    r = execute(ctx, m, c, fn, {'self': c, other_name(fn): c})
    if r is None:
        ctx.undecided('content', key, 'path budget')
        return
    eng, cl, rets, raises = r
    Bn = T('p', other_name(fn))
    bases = [T('at', A, '_collection'), T('at', Bn, '_collection')]
    for st, v in rets:
        o = eng.obj(st, v)
        if o is None or not isinstance(o.cls, Cls):
            ctx.undecided('content', key, 'returns ' + show(v))
            continue
        result_content(ctx, 'content', key, eng, st, inner(eng, st, v), bases, OPS['or'], fn.where())
    untouched(ctx, key, cl, eng, rets, [A, Bn], fn.where())
