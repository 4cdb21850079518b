"""C07: what a record, grant or citation is (its id, hash and equality) comes
from its content alone, agrees with itself and never changes."""
import ast

from ..clients import Base, is_coll
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, alts, is_c, show, subterms
from ..model import Cls
from . import c08
from .c27 import final

ME = T('p', 'self')
MYBAD = T('truth', T('at', ME, 'bad'))
# the documented id field of each kind of record
FIELD = {'WOSRecord': 'UT', 'MedlineRecord': 'PMID', 'ProQuestRecord': 'ProQuest document ID', 'ScopusRecord': 'EID', 'NSERCGrant': 'Cle', 'NSFGrant': 'AwardID'}
BASES = ('Record', 'ExtendedRecord', 'Grant')
UNSTABLE = {'id', 'time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'random.random', 'random.randint', 'random.getrandbits', 'uuid.uuid4', 'uuid.uuid1',
            'object.__hash__', 'datetime.datetime.now', 'os.getpid', 'os.urandom', 'next', 'random.choice', 'random.randrange'}
LOSSY = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'casefold', 'capitalize', 'replace', 'int', 'float', 'zfill', 'split', 'rsplit', 'partition', 'abs', 'round'}


class Client(Base):
    max_states = 60
    exact_conds = True
    progress = False

    def __init__(self, top, bad=None):
        self.top, self.bad = top, bad

    def inline(self, eng, fn, st):
        return True

    def decide(self, eng, st, atom):
        if atom == MYBAD and self.bad is not None:
            return self.bad
        return Base.decide(self, eng, st, atom)


def cname(y):
    f = y[1]
    return f[2] if f[0] == 'meth' else f[1] if len(f) > 1 and isinstance(f[1], str) else ''


def deps(t, who):
    """attributes of who that t depends on ('*' for the whole object)"""
    out = set()

    def walk(x, inside=None):
        if not isinstance(x, tuple):
            return
        if x == who:
            out.add('*')
            return
        if len(x) == 3 and x[0] == 'at' and x[1] == who:
            out.add(x[2])
            return
        for y in x:
            walk(y)
    walk(t)
    return out


def swap(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    r = tuple(swap(x, a, b) for x in t)
    return T(*r) if r and isinstance(r[0], str) else r


def run(ctx):
    m = ctx.model
    ctx.rule('hash', 'the hash of a good record depends on its id alone, of a bad one on its content and error, of a citation on its id, of a collection on what it holds')
    ctx.rule('equality', 'equality is symmetric, compares what the hash is made of, and leaves other types to the other operand')
    ctx.rule('id-fixed', 'nothing outside a constructor changes the id, the hash or what they are made of')
    ctx.rule('id-content', 'the id of a good record is the whole documented id field, and different sources give different ids')
    ctx.rule('id-shown', 'the id, source file and source line properties give what the constructor stored')
    n = 0
    classes = [c for c in m.subclasses(m.cls('Record')) if c.name not in BASES]
    cit = m.cls('Citation')
    colls = [c for c in m.subclasses(m.cls('Collection')) if c.name not in ('Collection', 'CollectionWithIDs')]
    alias = {c: constructor(ctx, m, c) for c in classes}
    prefixes(ctx, m, classes, alias)
    for c in classes + [cit] + colls:
        n += identity(ctx, m, c, alias.get(c, (set(), []))[0])
    for c in classes:
        shown(ctx, m, c, alias[c][0])
    fixed(ctx, m, set().union(*[alias[c][0] for c in classes]) | {'_id', '_hash', '_sourceFile', '_sourceLine'})
    ctx.count('classes', n)


def constructor(ctx, m, c):
    """attributes equal to the id after construction, and the id terms of good records"""
    init = m.method(c, '__init__')
    if init is None:
        return {'_id'}, []
    eng = Engine(m, c08.Client(m, init), 2000000)
    try:
        rets, raises = eng.run(init, {}, c, {})
    except Budget:
        ctx.undecided('id-content', c.name, 'too many paths')
        return {'_id'}, []
    ctx.saw(init)
    same, terms = None, []
    for st, v in rets:
        if st.facts.get('dead'):
            continue
        for a, p in (('_sourceFile', 'sFile'), ('_sourceLine', 'sLine')):
            x = final(eng, st, ME, a)
            other = {'sFile': 'sLine', 'sLine': 'sFile'}[p]
            wrong = reduced(x) or x[0] == 'call' and cname(x) != 'str' and T('p', p) in list(subterms(x)) and 'changed' or T('p', other) in list(subterms(x)) and 'the other argument' or x == T('at', ME, a) and 'never set'
            ctx.ob('id-shown', c.name + ' ' + a, not wrong, '{} is {} ({})'.format(a, show(x)[:80], wrong) if wrong else '', init.where())
        i = final(eng, st, ME, '_id')
        if i == T('at', ME, '_id'):
            ctx.ob('id-content', c.name + ' set', False, 'a path through the constructor leaves it without an id', init.where())
            continue
        eq = {a[1] for (o, a), x in st.sym.items() if o == ME and a[0] == 'a' and x == i} | {'_id'} | ({i[2]} if i[0] == 'at' and i[1] == ME else set())
        same = eq if same is None else same & eq
        b = final(eng, st, ME, 'bad')
        if is_c(b) and b[2] is False:
            terms.extend(x for x in alts(i) if not (x[0] == 'at' and x[1] == ME))
    field = FIELD.get(c.name)
    bad = lossy = unst = None
    for x in terms:
        subs = list(subterms(x))
        for y in subs:
            if y[0] == 'call':
                nm = cname(y)
                if nm in UNSTABLE:
                    unst = (nm, x)
        if field is not None:
            if not any(y[0] in ('it', 'call') and C(field) in list(subterms(y)) for y in subs):
                bad = x
            low = lossy_use(x, field)
            if low:
                lossy = (low, x)
    if field is not None and terms:
        ctx.ob('id-content', c.name + ' field', bad is None, 'the id is {} instead of the field {}'.format(show(bad), field) if bad else '', init.where())
        ctx.ob('id-content', c.name + ' whole', lossy is None, 'the id keeps only a part of the field ({}): {}'.format(lossy[0], show(lossy[1])) if lossy else '', init.where())
    if terms:
        ctx.ob('id-content', c.name + ' stable', unst is None, 'the id depends on {}'.format(unst[0]) if unst else '', init.where())
    return (same or {'_id'}) - {'bad', 'error', 'original'}, terms


def lossy_use(x, field):
    """an operation between the id field and the id that loses a part of it"""
    if not isinstance(x, tuple):
        return None
    if x and x[0] == 'it' and C(field) == x[2] if len(x) == 3 else False:
        return None
    inner = C(field) in list(subterms(x)) if x and isinstance(x[0], str) else False
    if inner:
        if x[0] == 'slice' or x[0] == 'it' and isinstance(x[2], tuple) and x[2] and x[2][0] == 'slice':
            return 'slice'
        if x[0] == 'call' and cname(x) in LOSSY:
            return cname(x)
    for y in x:
        if isinstance(y, tuple):
            r = lossy_use(y, field)
            if r:
                return r
    return None


def prefix(t):
    """constant text a term starts with, or None"""
    if is_c(t) and isinstance(t[2], str):
        return t[2]
    if t[0] == 'call':
        r = t[2] if len(t) > 2 else None
        for y in subterms(t):
            if is_c(y) and isinstance(y[2], str) and '{' in y[2]:
                return y[2].split('{')[0]
    if t[0] in ('+', 'bin', 'add') or t[0] == 'op':
        for y in t[1:]:
            if isinstance(y, tuple):
                return prefix(y)
    return None


def prefixes(ctx, m, classes, alias):
    seen = {}
    for c in classes:
        if c.name not in FIELD or c.name == 'WOSRecord':
            continue
        ps = {prefix(t) for t in alias[c][1]}
        ps.discard(None)
        if not ps:
            continue
        for p in ps:
            clash = [k for k, q in seen.items() if k != c.name and (p.startswith(q) or q.startswith(p))]
            ctx.ob('id-content', c.name + ' source', bool(p) and not clash,
                   'the id starts with {!r}, as that of {}'.format(p, clash[0]) if clash else 'the id does not name its source', m.method(c, '__init__').where())
            seen[c.name] = p


def go(ctx, m, c, f, bad=None):
    eng = Engine(m, Client(f, bad), 200000)
    try:
        rets, raises = eng.run(f, {}, c, {})
    except Budget:
        return None
    ctx.saw(f)
    return eng, rets


def identity(ctx, m, c, same):
    h, e = m.method(c, '__hash__'), m.method(c, '__eq__')
    coll = is_coll(m, c)
    rec = not coll and c.name != 'Citation'
    allowed = {'_collection', '*'} if coll else {'_id', 'id', '_hash', 'ID'} | same
    forms = {}
    ctx.ob('hash', c.name + ' both', h is not None and e is not None, 'has no hash of its own')
    if h is None or e is None:
        return 0
    for bad in ((True, False) if rec else (None,)):
        r = go(ctx, m, c, h, bad)
        if r is None:
            ctx.undecided('hash', c.name, 'too many paths')
            continue
        eng, rets = r
        fs = set()
        for st, v in rets:
            fs.add(v)
            d = deps(v, ME)
            for y in subterms(v):
                o = eng.obj(st, y) if y[0] == 'r' else None
                if o is not None and not coll:
                    for z in list(o.seq or ()) + [b for b, g in o.bag or ()]:
                        d |= deps(z, ME)
                    d -= {'*'}
            if not coll and len({x for s2, x in rets if x != T('at', ME, '_hash')}) > 1 and v != T('at', ME, '_hash'):
                for k in st.conds:
                    d |= {a for a in deps(k, ME) if a not in ('bad', '*', '_hash', 'error')}
            key = '{} {}'.format(c.name, {True: 'bad', False: 'good', None: ''}[bad])
            for y in subterms(v):
                if y[0] == 'call' and cname(y) in UNSTABLE:
                    ctx.ob('hash', key + ' stable', False, 'depends on {}'.format(cname(y)), h.where())
            if bad:
                ctx.ob('hash', key, '_fieldDict' in d or hidden(v), 'bad records with different content have the same hash: {}'.format(show(v)), h.where())
                ctx.ob('hash', key + ' error', 'error' in d or bool({'*'} & d), 'bad records with different errors have the same hash: {}'.format(show(v)), h.where())
                ctx.ob('hash', key + ' only', d <= {'_fieldDict', 'error', 'bad', '_id', 'id'}, 'depends on {}'.format(sorted(d)), h.where())
            elif rec and reduced(v):
                ctx.ob('hash', key, False, 'is made of a part of the id only ({})'.format(reduced(v)), h.where())
            elif coll:
                hid = any(y[0] == 'r' for y in subterms(v))
                ctx.ob('hash', key, d <= allowed and (bool(d) or hid), 'depends on {}'.format(sorted(d) or 'nothing it holds'), h.where())
            else:
                ctx.ob('hash', key, bool(d) and d <= allowed, 'depends on {}'.format(sorted(d) or 'nothing of the object'), h.where())
        forms[bad] = fs
    other = None
    for bad in ((True, False) if rec else (None,)):
        r = go(ctx, m, c, e, bad)
        if r is None:
            ctx.undecided('equality', c.name, 'too many paths')
            continue
        eng, rets = r
        ps = [a.arg for a in e.node.args.args]
        o = T('p', ps[1])
        key = '{} {}'.format(c.name, {True: 'bad', False: 'good', None: ''}[bad])
        refused = compared = False
        for st, v in rets:
            if 'NotImplemented' in show(v):
                refused = True
                continue
            typed = [k for k, val in st.conds.items() if o in list(subterms(k)) and ('isinstance' in show(k) or 'type(' in show(k))]
            if v is FALSE:
                continue
            if v is TRUE and any(k[0] == 'cmp' and k[1] == 'is' and {k[2], k[3]} == {ME, o} and val for k, val in st.conds.items()):
                continue
            ok = same_sides(v, o, forms.get(bad) or set(), coll, bad)
            if ok is None:
                d = deps(v, ME) | deps(v, o)
                lim = allowed | ({'_fieldDict', 'error', 'bad'} if rec else set())
                if not d <= lim:
                    ok = False
            if ok is None:
                ctx.undecided('equality', key, 'compares ' + show(v)[:150])
            else:
                compared = True
                ctx.ob('equality', key, ok, 'equality is {}'.format(show(v)[:150]), e.where())
            if rec:
                # records of another kind are for the other operand to answer
                loose = next((k[2][1] for k, w in st.conds.items() if w and k[0] == 'call' and k[1] == T('x', 'isinstance') and len(k[2]) == 2 and k[2][0] == o
                              and k[2][1][0] == 'k' and any(b is not c and b.name == k[2][1][-1].replace(':', '.').split('.')[-1] for b in m.mro(c)[1:] if isinstance(b, Cls))), None)
                ctx.ob('equality', key + ' kind', loose is None, 'records of another kind are compared', e.where())
            ctx.ob('equality', key + ' type', bool(typed), 'an object of another type is compared as if it were one of these', e.where())
        ctx.ob('equality', key + ' other types', refused or any(v is FALSE for st, v in rets), 'never leaves the comparison to the other operand', e.where())
    return 1


def hidden(v):
    return any(y[0] in ('r', 'x', 'call') and 'view' in show(y) for y in subterms(v))


def same_sides(v, o, forms, coll, bad=None):
    """True: compares the same thing of both; False: different things; None: unknown"""
    if v[0] == 'cmp' and v[1] in ('==', 'is') and v[1] == '==':
        a, b = v[2], v[3]
        if deps(a, o) and not deps(a, ME):
            a, b = b, a
        x, y = what(a, ME, forms, coll), what(b, o, {swap(f, ME, o) for f in forms}, coll)
        if reduced(a) or reduced(b):
            return False
        if coll and any(y[0] == 'call' and cname(y) in ('len', 'bool') or y[0] == 'len' for z in (a, b) for y in subterms(z)):
            return False
        if x is None or y is None:
            if swap(a, ME, o) == b:
                return None if deps(a, ME) else False
            return None if deps(a, ME) and deps(b, o) else False
        return x == y and not (bad and x == 'id' and not any('_id' in deps(f, ME) for f in forms))
    if v[0] == 'cmp':
        return False
    return None


def reduced(v):
    """an operation that loses a part of what it is applied to"""
    for y in subterms(v):
        if y[0] == 'slice' or y[0] == 'call' and cname(y) in LOSSY:
            return cname(y) if y[0] == 'call' else 'slice'
    return None


def what(t, who, forms, coll):
    if coll:
        return 'content' if t == T('at', who, '_collection') else None
    if t in forms:
        return 'hash'
    for f in forms:
        if f[0] == 'call' and len(f) > 2 and t in f[2:]:
            return 'id'
    s = show(t)
    if s in ('hash({})'.format(show(who)), '{}.__hash__()'.format(show(who))):
        return 'hash'
    if t == T('at', who, '_id') or s == '{}.ID()'.format(show(who)) or t == T('at', who, 'id'):
        return 'id'
    return None


def shown(ctx, m, c, same):
    for nm, want in (('id', '_id'), ('sourceFile', '_sourceFile'), ('sourceLine', '_sourceLine')) + ((('UT', '_id'), ('wosString', '_id')) if c.name == 'WOSRecord' else ()):
        fn = setter = None
        for k in m.mro(c):
            if isinstance(k, Cls):
                fn = fn or k.props.get(nm)
                setter = setter or k.props.get('=' + nm)
        if fn is None:
            continue
        eng = Engine(m, Client(fn), 50000)
        rets, raises = eng.run(fn, {}, c, {})
        ctx.saw(fn)
        ok = same if want == '_id' else {want}
        for st, v in rets:
            ctx.ob('id-shown', '{}.{}'.format(c.name, nm), v[0] == 'at' and v[1] == ME and v[2] in ok, 'gives {}'.format(show(v)), fn.where())
        ctx.ob('id-shown', '{}.{} fixed'.format(c.name, nm), setter is None, 'can be assigned', fn.where())


CTOR = ('__init__', '__new__', '__setstate__')


def fixed(ctx, m, names):
    seen = 0
    for f in [f for mod in m.mods.values() for f in funcs(mod)]:
        for x in ast.walk(f.node):
            hit = None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in names:
                hit = x.attr
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') and len(x.args) > 1 and \
                    isinstance(x.args[1], ast.Constant) and x.args[1].value in names:
                hit = x.args[1].value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.slice, ast.Constant) and x.slice.value in names and \
                    ('__dict__' in ast.unparse(x.value) or ast.unparse(x.value).startswith('vars(')):
                hit = x.slice.value
            if hit is None:
                continue
            seen += 1
            g = f
            while g.parent is not None:
                g = g.parent
            ok = g.name in CTOR or hit == '_hash' and g.name == '__hash__' or g.name.startswith('_') and not g.name.startswith('__') and only_from_ctor(m, g)
            ctx.ob('id-fixed', '{} {}'.format(f.fid, hit), ok, 'changes {} of an existing object'.format(hit), f.where(x) if hasattr(f, 'where') else '')
    ctx.count('stores of identity attributes', seen)


def only_from_ctor(m, g):
    """a private helper every caller of which is a constructor"""
    n = 0
    for mod in m.mods.values():
        for f in funcs(mod):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and (getattr(x.func, 'attr', None) == g.name or getattr(x.func, 'id', None) == g.name):
                    h = f
                    while h.parent is not None:
                        h = h.parent
                    if h.name not in CTOR:
                        return False
                    n += 1
    return n > 0


def funcs(mod):
    out = list(mod.funcs.values())
    for c in mod.classes.values():
        out.extend(c.methods.values())
        out.extend(c.props.values())
    return out
