"""C20: filters and derived collections hold exactly the documented records,
and no query leaves part of the collection out."""
import itertools

import ast
from . import citesof, merged
from ..api import API
from ..clients import Base
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, UNDEF, alts, is_c, show, subterms
from ..setalg import show_alg
from ..table import Wrong, any_of, field_of, member, number, order_atom, peel, strip_calls
from . import effrules as er
from .c15 import origins

ME = T('p', 'self')
HELD = T('at', ME, '_collection')
CITES = T('p', 'cites')
BASES = {HELD: True, ME: True, CITES: True}


class Client(Base):
    max_states = 400
    exact_conds = True
    progress = False

    def __init__(self):
        self.breaks, self.adds = [], []

    def decide(self, eng, st, atom):
        if atom[0] == 'cmp' and atom[1] == 'is' and atom[2] == T('el', HELD) and atom[3] == NONE:
            return False           # collections hold records
        return Base.decide(self, eng, st, atom)

    def on_loop(self, eng, st, node, phase, it):
        if phase == 'break':
            self.breaks.append((it, dict(st.conds), eng.where(node), len(eng.acts), st.loops))

    def on_add(self, eng, st, r, v, node):
        self.adds.append((r, v, dict(st.conds), st.loops, eng.where(node)))

    def on_mutate(self, eng, st, node, target, how, value=None):
        if how in ('add', 'append') and target[0] != 'r' and value:
            self.adds.append((target, value[0], dict(st.conds), st.loops, eng.where(node)))


def execute(ctx, fid, selfcls, args, pt=None):
    m = ctx.model
    fn = m.funcs.get(fid)
    if fn is None:
        return None
    names = {a.arg for a in fn.node.args.args}
    cl = Client()
    eng = Engine(m, cl, 600000)
    try:
        rets, raises = eng.run(fn, args={k: v for k, v in args.items() if k in names}, selfcls=m.cls(selfcls), ptypes=pt or {})
    except Budget:
        return None
    ctx.saw(fn)
    if eng.lossy:
        return None
    return eng, cl, rets, raises, fn


def result_alg(eng, st, v):
    o = eng.obj(st, v)
    if o is None:
        return None
    if o.kind == 'inst' and '_collection' in o.slots:
        return eng.content_iter(st, o.slots['_collection'])
    return eng.content(st, v)


def basic(atom, val, el):
    """literals that hold for every record of a collection"""
    if atom[0] == 'call' and atom[1] == T('x', 'isinstance') and atom[2][0] == el:
        return val
    if atom[0] == 'cmp' and atom[1] in ('is', '==') and atom[2] == el and atom[3] == NONE:
        return not val
    if atom[0] == 'truth' and atom[1] == el:
        return val
    if atom[0] == 'cmp' and atom[1] == 'in' and atom[2] == el:
        b = atom[3]
        if b == HELD or b == ME:
            return val
    return 'no'


OWN = {'year', 'PY', 'citations', 'CR', 'pubType', 'PT'}          # the fields the documented conditions are about
STATE = {'bad': 'bad', '_bad': 'bad', 'error': 'error', '_error': 'error', 'id': 'id', '_id': 'id'}
PLAIN = {'len', 'isinstance', 'str', 'bool', 'getattr', 'hasattr'}


def fields_of(atom, el, loose=False):
    """the fields of a record a condition is about, when it is about nothing else (otherwise None); loose: or compares with what is the same for all records"""
    out = set()

    def walk(t):
        f = field_of(t, el) if t[0] in ('call', 'it', 'at') else None
        if f is not None and t[0] != 'j':
            out.add(f)
            return True
        if loose and t[0] in ('at', 'p', 'call', 'it') and el not in subterms(t) and not any(x[0] in ('phi', 'r', 'el') for x in subterms(t)):
            return True
        if t == el or t[0] in ('r', 'p', 'el', 'j', 'phi', 'cont'):
            return False
        if is_c(t):
            return True
        if t[0] == 'call':
            if not (t[1][0] == 'x' and t[1][1] in PLAIN or t[1][0] == 'meth'):
                return False
            return all(walk(x) for x in (t[2] if t[1][0] == 'x' else (t[1][1],) + tuple(t[2])))
        if t[0] == 'x':
            return True
        return t[0] in ('cmp', 'truth', 'bin', 'not', 'tup') and all(walk(x) for x in t[1:] if isinstance(x, tuple))
    return out if walk(atom) and out else None


def state_of(atom, el, bad, noid, free, own):
    """a condition on the state of a record (bad, its error, its ID) or on a field the selection is not about"""
    fs = fields_of(atom, el, True)
    if fs is None or len(fs) != 1 or fs & own:
        return None
    f = next(iter(fs))
    what = STATE.get(f)
    t = atom[1] if atom[0] == 'truth' else atom[2] if atom[0] == 'cmp' else None
    direct = t is not None and t[0] in ('at', 'call', 'it') and field_of(t, el) == f
    if what is None:
        return free.get(atom)
    if not direct:
        return None
    if atom[0] == 'cmp' and not (atom[1] in ('is', '==') and (atom[3] == NONE and what != 'bad' or atom[3] in (TRUE, FALSE) and what == 'bad')):
        return None
    if what == 'bad':
        return bad if atom[0] == 'truth' else bad == (atom[3] == TRUE)
    if what == 'error':
        return bad if atom[0] == 'truth' else not bad
    return not noid if atom[0] == 'truth' else noid


def check(ctx, rule, key, r, spec, envs, lit, where, alg_of=None, what='record', own=OWN):
    """spec(env) -> bool for every env; lit(env)(atom, val, el)"""
    eng, cl, rets, raises, fn = r
    ctx.ob(rule, key + ' answers', bool(rets), 'never returns', fn.where())
    for st, v in rets:
        if (alg_of is None) and is_c(v):
            ctx.ob(rule, key, False, 'returns {}'.format(show(v)), fn.where())
            continue
        alg = (alg_of or result_alg)(eng, st, v)
        if alg is None:
            ctx.undecided(rule, key, 'result is ' + show(v)[:100])
            continue

        def decide(env, bad=None, noid=False, free=None):
            unknown = []

            def full(atom, val, el):
                if atom[0] in ('call', 'at', 'it'):
                    atom = T('truth', atom) if field_of(atom, el) is not None else atom
                if atom[0] == 'truth' and atom[1][0] in ('hasattr', 'cmp', 'call'):
                    atom = atom[1] if field_of(atom[1], el) is None else atom
                b = basic(atom, val, el)
                if b != 'no':
                    return b
                if atom[0] == 'cmp' and atom[1] == 'in' and atom[2] == el and atom[3][0] == 'cont':
                    x = member(atom[3][1], BASES, full)
                    return None if x is None else x == val
                x = lit(env, atom, val, el, full)
                if x is None and free is not None:
                    y = state_of(atom, el, bad, noid, free, own)
                    x = None if y is None else y == val
                if x is None:
                    unknown.append((atom, el))
                return x
            return member(alg, BASES, full), unknown
        und = False
        try:
            for env in envs:
                got, unknown = decide(env)
                want = spec(env)
                told = ''
                if got is None:
                    fs = [(a, fields_of(a, el, True)) for a, el in unknown]
                    others = sorted({a for a, f in fs if f is not None and not f & set(STATE)}, key=str)
                    if any(f is None or len(f) != 1 or f & own for a, f in fs) or len(others) > 1:
                        und = True
                        continue
                    tries = []
                    for bad in ((env['bad'],) if 'bad' in env else (False, True)):
                        for noid in ((False, True) if bad else (False,)):
                            for o in (True, False):
                                tries.append((decide(env, bad, noid, {a: o for a in others})[0], bad, noid, o))
                    if any(t[0] is None for t in tries):
                        und = True
                        continue
                    wrong = next((t for t in tries if t[0] != want), None)
                    got = want
                    if wrong:
                        got = wrong[0]
                        told = ' for a record that is {}{}{}'.format('bad' if wrong[1] else 'not bad', ' and has no ID' if wrong[2] else '',
                                                                    ' and where {} is {}'.format(show(others[0]), wrong[3]) if others else '')
                if got != want:
                    raise Wrong('a {} is {} although {}{}: the result is {}'.format(
                        what, 'selected' if got else 'left out', describe(env), told, show_alg(alg)[:300]))
        except Wrong as e:
            ctx.ob(rule, key, False, str(e), fn.where())
            continue
        if und:
            ctx.undecided(rule, key, 'result is ' + show_alg(alg)[:200])
        else:
            ctx.ob(rule, key, True)


def describe(env):
    return ', '.join('{} = {}'.format(k, v) for k, v in sorted(env.items(), key=str))


# ------------------------------------------------------------------ one-field predicates
def year_lit(env, atom, val, el, full):
    names = {T('p', 'startYear'): env['startYear'], T('p', 'endYear'): env['endYear']}

    def value(t):
        if t in names:
            return names[t]
        if field_of(t, el) in ('year', 'PY'):
            return env['year']
        return None
    r = order_atom(atom, value)
    if r is not None:
        return r == val
    t = atom[2] if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE else None
    if t is not None and field_of(t, el) in ('year', 'PY'):
        return not val
    if atom[0] == 'truth' and field_of(atom[1], el) in ('year', 'PY'):
        return val
    if atom[0] == 'cmp' and atom[1] == 'in' and is_c(atom[2]) and atom[2][2] in ('year', 'PY') and atom[3] == el:
        return val
    return None


def flag_lit(field, name):
    def f(env, atom, val, el, full):
        if atom[0] == 'truth' and field_of(atom[1], el) == field:
            return env[name] == val
        if atom[0] == 'cmp' and atom[1] in ('==', 'is') and field_of(atom[2], el) == field and is_c(atom[3]) and isinstance(atom[3][2], bool):
            return (env[name] == atom[3][2]) == val
        return None
    return f


def ptype_lit(env, atom, val, el, full):
    r = flag_lit('bad', 'bad')(env, atom, val, el, full)
    if r is not None:
        return r
    if atom[0] == 'cmp' and atom[1] in ('==', 'in'):
        a, b = atom[2], atom[3]
        for x, y in ((a, b), (b, a)):
            px, hx = peel(x)
            py, hy = peel(y)
            if py == T('p', 'ptVal') and px[0] != 'p' and el in subterms(px):
                f = field_of(px, el)
                if atom[1] != '==' or f not in ('pubType', 'PT') or hy is None or hx not in (None, hy) or hx is None and hy != 'upper':
                    raise Wrong('the publication type is tested by ' + show(atom))
                return env['is that type'] == val
    return None


def id_lit(env, atom, val, el, full):
    if atom[0] == 'cmp' and atom[1] == '==':
        for x, y in ((atom[2], atom[3]), (atom[3], atom[2])):
            if y == T('p', 'idVal') and el in subterms(x):
                if field_of(x, el) not in ('id', '_id'):
                    raise Wrong('the ID is tested by ' + show(atom))
                return env['has that ID'] == val
    if atom[0] == 'cmp' and T('p', 'idVal') in subterms(atom) and el in subterms(atom):
        raise Wrong('the ID is tested by ' + show(atom))
    return None


# ------------------------------------------------------------------ citation predicates
def cites_of(t, el):
    """the citation element a literal speaks about"""
    for x in subterms(t):
        if x[0] == 'el' and field_of(x[1], el) in ('citations', 'CR'):
            return x
    return None


def cite_lit(match):
    """literals about the citations of a record: match(atom, ce) -> polarity or None"""
    def conj(env, lits, el, full):
        ok, some = True, False
        for l in lits:
            v = one(env, l[1], l[2][2], el, full)
            if v is None:
                return None
            ok = ok and v
        return ok

    def one(env, atom, val, el, full):
        if atom[0] == 'call' and field_of(atom, el) is not None:
            atom = T('truth', atom)
        if atom[0] == 'none' and field_of(atom[1], el) in ('citations', 'CR'):
            rs = [conj(env, a[1:], el, full) for a in atom[2:]]
            if None in rs:
                return None
            return (not any(rs)) == val
        if atom[0] == 'cmp' and atom[1] == 'in' and field_of(atom[3], el) in ('citations', 'CR') and match(
                T('cmp', '==', atom[2], T('el', atom[3])), T('el', atom[3])) is True:
            return env['some citation matches'] == val
        ce = cites_of(atom, el)
        if ce is not None:
            m = match(atom, ce)
            if m is None:
                return None
            if m == 'always':
                return val
            return env['some citation matches'] if m == val else env['some citation does not match']
        x = atom[1] if atom[0] == 'truth' else atom[2] if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE else None
        if x is not None and field_of(x, el) in ('citations', 'CR'):
            has = env['some citation matches'] or env['some citation does not match']
            return has == val if atom[0] == 'truth' else has != val
        if atom[0] == 'cmp' and atom[1] == 'in' and is_c(atom[2]) and atom[2][2] in ('citations', 'CR') and atom[3] == el:
            return (env['some citation matches'] or env['some citation does not match']) == val
        return None
    return one


CITE_ENVS = [{'some citation matches': a, 'some citation does not match': b} for a in (True, False) for b in (True, False)]
KEY = T('p', 'keyString')
FIELDS = {'all': ('original',), 'author': ('author',), 'journal': ('journal',), 'year': ('year',), 'V': ('V', 'volume'), 'P': ('P', 'page'), 'misc': ('misc',)}


def is_key(t):
    return strip_calls(t, ('str',)) == KEY


def cite_match(field, sensitive):
    def match(atom, ce):
        if atom[0] == 'hasattr':
            return 'always'
        if atom[0] == 'call' and atom[1] == T('x', 'isinstance'):
            return 'always'
        if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE:
            return None
        if field == 'anonymous':
            if atom[0] == 'call' and atom[1] == T('meth', ce, 'isAnonymous') or atom[0] == 'call' and atom[1][0] == 'f' and 'isAnonymous' in str(atom[1][1]):
                return True
            return None
        if field == 'bad':
            if atom[0] == 'truth' and atom[1] == T('at', ce, 'bad'):
                return True
            return None
        names = FIELDS[field]
        if atom[0] == 'truth' and field_of(atom[1], ce) in names:
            return 'always'
        t = atom[1] if atom[0] == 'truth' else atom
        if t[0] == 'call' and t[1][0] == 'meth' and t[1][2] in ('startswith', 'endswith') and field != 'year' and KEY in subterms(t) and ce in subterms(t):
            raise Wrong('the {} of a citation is tested by {}'.format('text' if field == 'all' else field, show(t)))
        if atom[0] != 'cmp' or KEY not in subterms(atom):
            return None
        op, a, b = atom[1], atom[2], atom[3]
        found = next((x for x in (a, b) if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] in ('find', 'count') and len(x[2]) == 1), None)
        if found is not None and field != 'year':
            # the place or number of the keyword in the text
            low = -1 if found[1][2] == 'find' else 0
            rs = {i: order_atom(atom, lambda u, i=i: i if u == found else None) for i in (low, low + 1, low + 2)}
            if None in rs.values():
                return None
            if rs[low] or not rs[low + 1] or not rs[low + 2]:
                if rs[low] and not rs[low + 1] and not rs[low + 2]:
                    m = match(T('cmp', 'in', found[2][0], found[1][1]), ce)
                    return None if m is None else not m
                raise Wrong('the {} of a citation is tested by {}'.format('text' if field == 'all' else field, show(atom)))
            op, a, b = 'in', found[2][0], found[1][1]
        if field == 'year':
            for x, y in ((a, b), (b, a)):
                if field_of(strip_calls(y, ('int', 'str')), ce) == 'year' and strip_calls(x, ('int', 'str')) == KEY:
                    if op == '==':
                        return True
            if ce in subterms(atom):
                raise Wrong('the year of a citation is tested by ' + show(atom))
            return None
        pa, ha = peel(a)
        pb, hb = peel(b)
        if op == 'in' and is_key(pa) and field_of(pb, ce) in names:
            if field == 'all' and sensitive:
                if ha is None and hb is None:
                    return True
            elif field in ('all', 'author'):
                if ha is not None and ha == hb:
                    return True
            elif ha is not None and hb in (None, ha) and (ha == 'upper' or hb == ha):
                return True
        raise Wrong('the {} of a citation is tested by {}'.format('text' if field == 'all' else field, show(atom)))
    return match


def cite_filter(ctx):
    fid = 'metaknowledge.recordCollection:RecordCollection.citeFilter'
    for field in ('all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'):
        for sens in ((False, True) if field == 'all' else (False,)):
            for rev in (False, True):
                key = 'citeFilter(field={!r}{}{})'.format(field, ', caseSensitive' if sens else '', ', reverse' if rev else '')
                r = execute(ctx, fid, 'RecordCollection', {'field': C(field), 'reverse': C(rev), 'caseSensitive': C(sens)})
                if r is None:
                    ctx.undecided('selects', key, 'path budget')
                    continue
                lit = cite_lit(cite_match(field, sens))
                check(ctx, 'selects', key, r, lambda e: e['some citation matches'] != rev, CITE_ENVS, lit, '', own={'citations', 'CR'})
                stops(ctx, key, r, lit)


def stops(ctx, key, r, lit):
    """a search over the citations of a record may stop early only at a match"""
    eng, cl, rets, raises, fn = r
    for it, conds, where, depth_, loops in cl.breaks:
        if it is None:
            continue
        el = next((x for x in [T('el', HELD)] if field_of(it, x) in ('citations', 'CR')), None)
        if el is None:
            if it in (ME, HELD):
                ctx.ob('search-stops', key, False, 'stops looking before every record was looked at', where)
            continue
        hit = True
        try:
            env = {'some citation matches': True, 'some citation does not match': False}
            about = [(a, v) for a, v in conds.items() if cites_of(a, el) is not None or a[0] == 'dnf' and any(
                cites_of(x[1], el) is not None for g in a[1:] for x in g[1:])]

            def ev(a, v):
                return any_of(a, v, ev) if a[0] == 'dnf' else lit(env, a, v, el, None) if cites_of(a, el) is not None else True
            vals = [ev(a, v) for a, v in about]
            hit = False if False in vals else None if None in vals else bool(vals)
            env = {'some citation matches': False, 'some citation does not match': True}
            if hit and all(ev(a, v) for a, v in about):
                hit = False
        except Wrong:
            continue
        if hit is None:
            ctx.undecided('search-stops', key, 'stop condition')
        else:
            ctx.ob('search-stops', key, hit, 'stops looking at the citations of a record before one matched', where)


def local_cites(ctx):
    fid = 'metaknowledge.recordCollection:RecordCollection.localCitesOf'

    def match(atom, ce):
        if atom[0] == 'cmp' and ce in (atom[2], atom[3]) and atom[1] in ('==', 'is'):
            o = atom[3] if atom[2] == ce else atom[2]
            if atom[1] == '==' and ce not in subterms(o) and not is_c(o):
                return True
            if atom[1] == 'is' and o == NONE:
                return None
        if atom[0] == 'cmp' and T('p', 'rec') in subterms(atom):
            raise Wrong('a citation is compared by ' + show(atom))
        return None
    lit = cite_lit(match)
    for kind in ('Record', 'str', 'Citation'):
        key = 'localCitesOf({})'.format(kind)
        m = ctx.model
        r = execute(ctx, fid, 'RecordCollection', {}, {'rec': kind if kind == 'str' else m.cls(kind)})
        if r is None:
            ctx.undecided('selects', key, 'path budget')
            continue
        eng, cl, rets, raises, fn = r
        # an ID that is not held gives the empty collection
        keep = []
        for st, v in rets:
            alg = result_alg(eng, st, v)
            if kind == 'str' and alg == T('lit', frozenset()):
                found = any(a[0] == 'cmp' and a[1] == '==' and b and T('p', 'rec') in subterms(a) and any(
                    field_of(x, T('el', HELD)) == 'id' for x in a[2:]) for a, b in st.conds.items())
                ctx.ob('selects', key + ' by ID', not found, 'the ID of a record that is held gives no records', fn.where())
                continue
            keep.append((st, v))
        check(ctx, 'selects', key, (eng, cl, keep, raises, fn), lambda e: e['some citation matches'], CITE_ENVS, lit, '', own={'citations', 'CR'})
        stops(ctx, key, r, lit)


# ------------------------------------------------------------------ which citations a network gets
KW, CORE = T('p', 'keyWords'), T('p', 'coreCites')


def drop_lit(nodetype):
    def word(atom, el):
        """a keyword is looked for in the text of the citation: True if as documented"""
        if atom[0] != 'cmp' or KW not in subterms(atom) or el not in subterms(atom):
            return None
        if atom[1] == 'in':
            (a, ha), (b, hb) = peel(atom[2]), peel(atom[3])
            b = strip_calls(b, ('str',))
            if a in (KW, T('el', KW)) and (b == el or field_of(b, el) == 'original' or b[0] == 'call' and b[1] == T('meth', el, '__str__')):
                if ha is not None and ha == hb:
                    return True
        raise Wrong('keywords are looked for by ' + show(atom))

    def lit(env, atom, val, el, full):
        if atom[0] == 'none' and atom[1] == KW:
            ok = [len(x) == 2 and word(x[1][1], el) for x in atom[2:]]
            if not all(ok):
                return None
            if all(x[1][2] == TRUE for x in atom[2:]):
                return (not env['a keyword occurs']) == val
            return (not val) if not env['a keyword occurs'] else None
        if atom[0] == 'hasattr' and atom[1] == el:
            return val if str(atom[2]) in (nodetype, 'isJournal', 'isAnonymous') else None
        if atom[0] == 'call' and atom[1][0] == 'meth' and atom[1][1] == el and atom[1][2] in ('isJournal', 'isAnonymous'):
            k = 'is in a journal' if atom[1][2] == 'isJournal' else 'is anonymous'
            return env.get(k) == val if k in env else None
        if atom[0] == 'truth' and field_of(atom[1], el) is not None and atom[1][0] in ('at', 'call'):
            f = field_of(atom[1], el)
            if f == nodetype and 'has the ' + nodetype in env:
                return env['has the ' + nodetype] == val
            raise Wrong('the {} of a citation decides'.format(f))
        if atom[0] == 'call' and field_of(atom, el) == nodetype and 'has the ' + nodetype in env:
            return env['has the ' + nodetype] == val
        if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE and field_of(atom[2], el) == nodetype:
            return None
        if atom[0] == 'cmp' and atom[1] == 'in' and atom[2] == el and atom[3] == CORE:
            return env['is a record of the collection'] == val
        if atom[0] in ('truth', 'p') and KW in (atom, atom[1]):
            return val
        if atom[0] == 'call' and atom[1] == T('x', 'isinstance') and atom[2][0] == KW:
            return val
        w = word(atom, el)
        if w:
            # some keyword does / some keyword does not occur
            if val:
                return env['a keyword occurs']
            return True if not env['a keyword occurs'] else None if T('el', KW) in subterms(atom) else False
        return None
    return lit


def network_cites(ctx):
    fid = 'metaknowledge.recordCollection:filterCites'
    m = ctx.model
    n = 0
    for nodetype in ('full', 'author', 'journal'):
        for dj, da, core, kw in itertools.product((False, True), (False, True), (False, True), (None, 'str', 'list')):
            if nodetype == 'journal' and (dj or da or core or kw):
                continue
            key = 'filterCites({}{}{}{}{})'.format(nodetype, ', dropNonJournals' if dj else '', ', dropAnon' if da else '', ', coreCites' if core else '',
                                                  ', keyWords {}'.format(kw) if kw else '')
            args = {'nodeType': C(nodetype), 'dropNonJournals': C(dj), 'dropAnon': C(da)}
            if not core:
                args['coreCites'] = NONE
            if not kw:
                args['keyWords'] = NONE
            fn = m.funcs.get(fid)
            if fn is None:
                return
            cl = CiteClient(core, kw)
            eng = Engine(m, cl, 400000)
            try:
                rets, raises = eng.run(fn, args=args, ptypes={'cites': 'list', **({'keyWords': kw} if kw else {})})
            except Budget:
                ctx.undecided('network-citations', key, 'path budget')
                continue
            ctx.saw(fn)
            if eng.lossy:
                ctx.undecided('network-citations', key, 'path budget')
                continue
            names = (['has the ' + nodetype] if nodetype != 'full' else []) + (['is in a journal'] if dj else []) + (['is anonymous'] if da else []) + \
                (['is a record of the collection'] if core else []) + (['a keyword occurs'] if kw else [])
            envs = [dict(zip(names, v)) for v in itertools.product((True, False), repeat=len(names))]

            def spec(e):
                return e.get('has the ' + nodetype, True) and e.get('is in a journal', True) and not e.get('is anonymous', False) and \
                    e.get('is a record of the collection', True) and not e.get('a keyword occurs', False)
            check(ctx, 'network-citations', key, (eng, cl, rets, raises, fn), spec, envs, drop_lit(nodetype), '', what='citation')
            n += 1
            for it, conds, where, d, loops in cl.breaks:
                if it == CITES:
                    ctx.ob('network-citations', key, False, 'stops looking at the citations early', where)
    ctx.need('citation filter settings', n, 20)


class CiteClient(Client):
    def __init__(self, core, kw):
        Client.__init__(self)
        self.core, self.kw = core, kw

    def decide(self, eng, st, atom):
        if atom[0] == 'cmp' and atom[1] == 'is' and atom[3] == NONE:
            if atom[2] in (CORE, KW):
                return False
            if atom[2] == T('el', CITES):
                return False
        if atom == T('truth', KW) or atom == KW:
            return True
        return Client.decide(self, eng, st, atom)

    def inline(self, eng, fn, st):
        return fn.name not in ('isJournal', 'isAnonymous') and Client.inline(self, eng, fn, st)


# ------------------------------------------------------------------ the rest of the filters
def held_after(eng, st, v):
    """content of self._collection at the end"""
    x = st.sym.get((ME, ('a', '_collection')))
    if x is not None:
        return eng.content_iter(st, x)
    return eng.content(st, HELD)


def simple(ctx):
    RC, MC, CI = 'metaknowledge.recordCollection:RecordCollection.', 'metaknowledge.mkCollection:Collection.', 'metaknowledge.mkCollection:CollectionWithIDs.'

    def go(key, fid, args, spec, envs, lit, alg_of=None):
        r = execute(ctx, fid, 'RecordCollection', args)
        if r is None:
            ctx.undecided('selects', key, 'path budget')
            return None
        check(ctx, 'selects', key, r, spec, envs, lit, '', alg_of)
        return r
    envs = [{'year': y, 'startYear': a, 'endYear': b} for y in range(1, 8) for a, b in ((3, 5), (4, 4), (2, 6))]
    for drop in (True, False):
        go('yearSplit(dropMissingYears={})'.format(drop), RC + 'yearSplit', {'dropMissingYears': C(drop)},
           lambda e: e['startYear'] <= e['year'] <= e['endYear'], envs, year_lit)
    bad = [{'bad': True}, {'bad': False}]
    go('badEntries', CI + 'badEntries', {}, lambda e: e['bad'], bad, flag_lit('bad', 'bad'))
    go('dropBadEntries', CI + 'dropBadEntries', {}, lambda e: not e['bad'], bad, flag_lit('bad', 'bad'), held_after)
    both = [{'bad': a, 'is that type': b} for a in (True, False) for b in (True, False)]
    for inv in (False, True):
        for db in (False, True):
            go('dropNonJournals(dropBad={}, invert={})'.format(db, inv), RC + 'dropNonJournals', {'dropBad': C(db), 'invert': C(inv)},
               lambda e: (e['is that type'] != inv) and not (db and e['bad']), both, ptype_lit, held_after)
    ids = [{'has that ID': True}, {'has that ID': False}]
    for name in ('discardID', 'removeID'):
        key = name
        r = execute(ctx, CI + name, 'RecordCollection', {})
        if r is None:
            ctx.undecided('selects', key, 'path budget')
            continue
        # paths on which something was found
        eng, cl, rets, raises, fn = r
        hit = [(st, v) for st, v in rets if held_after(eng, st, v) != T('base', HELD)]
        ctx.ob('selects', key + ' removes', bool(hit), 'nothing is ever removed', fn.where())
        check(ctx, 'selects', key, (eng, cl, hit, raises, fn), lambda e: not e['has that ID'], ids, id_lit, '', held_after)
        for st, v in rets:
            if held_after(eng, st, v) == T('base', HELD):
                missing(ctx, key, eng, st, fn)
        for st, x, nd, imp in raises:
            if not imp:
                missing(ctx, key, eng, st, fn)
    for name in ('getID', 'containsID'):
        r = execute(ctx, CI + name, 'RecordCollection', {})
        if r is None:
            ctx.undecided('selects', name, 'path budget')
            continue
        eng, cl, rets, raises, fn = r
        for st, v in rets:
            if v in (NONE, FALSE):
                missing(ctx, name, eng, st, fn)
            elif v == TRUE or v[0] == 'el':
                conds = [(a, b) for a, b in st.conds.items() if a[0] == 'cmp' and T('p', 'idVal') in subterms(a)]
                el = next((x for a, b in conds for x in subterms(a) if x[0] == 'el' and x[1] in (HELD, ME)), None)
                try:
                    ok = None if el is None and conds else bool(conds) and el is not None and all(id_lit({'has that ID': True}, a, b, el, None) for a, b in conds)
                except Wrong as e:
                    ok = False
                if ok is None:
                    ctx.undecided('selects', name, 'found under ' + str([show(a) for a, b in conds]))
                else:
                    ctx.ob('selects', name + ' found', ok and (v == TRUE or v == el), 'answers {} although no record with that ID was seen'.format(show(v)), fn.where())


def missing(ctx, name, eng, st, fn):
    """a negative answer only after every record was compared"""
    ok = any(a[0] == 'none' and v and a[1] in (ME, HELD) and any(
        len(x) == 2 and x[1][1][0] == 'cmp' and x[1][1][1] == '==' and x[1][2] == TRUE and T('p', 'idVal') in subterms(x[1][1]) for x in a[2:])
        for a, v in st.conds.items())
    # a lookup in a collection of all ids counts as well
    alt = any(a[0] == 'cmp' and a[1] == 'in' and a[2] == T('p', 'idVal') and not v for a, v in st.conds.items())
    early = any(a[0] == 'cmp' and T('p', 'idVal') in subterms(a) and x[0] == 'el' for a, v in st.conds.items() for x in subterms(a))
    partial = None
    for a, v in st.conds.items():
        if a[0] == 'none' and v and a[1] in (ME, HELD):
            for x in a[2:]:
                el = T('el', HELD)
                rest = [c for c in x[1:] if T('p', 'idVal') not in subterms(c)]
                if len(rest) == len(x) - 2 and rest and all(fields_of(c[1], el) is not None for c in rest):
                    partial = ' and '.join('{} is {}'.format(show(c[1]), show(c[2])) for c in rest)
    if ok or alt:
        ctx.ob('selects', name + ' not found', True)
    elif partial:
        ctx.ob('selects', name + ' not found', False, 'only records for which {} are compared'.format(partial), fn.where())
    elif early:
        ctx.ob('selects', name + ' not found', False, 'gives up before every record was compared', fn.where())
    else:
        ctx.undecided('selects', name + ' not found', 'how the search ends')


# ------------------------------------------------------------------ chunk and split
def chunks(ctx):
    for name in ('chunk', 'split'):
        fid = 'metaknowledge.mkCollection:Collection.' + name
        m = ctx.model
        fn = m.funcs.get(fid)
        if fn is None:
            continue
        cl = ChunkClient()
        eng = Engine(m, cl, 300000)
        try:
            rets, raises = eng.run(fn, selfcls=m.cls('RecordCollection'))
        except Budget:
            ctx.undecided('partition', name, 'path budget')
            continue
        ctx.saw(fn)
        MAX = T('p', 'maxSize')
        rows = cl.rows
        if not rows:
            ctx.undecided('partition', name, 'no per-record loop')
            continue
        for n, conds, env, where, start in rows:
            if n is None:
                ctx.undecided('partition', name, 'where the record goes')
                continue
            kinds, elems = n
            ctx.ob('partition', name + ' every record', len(kinds) == 1, 'on some path a record goes into {} chunks'.format(len(kinds) or 'no'), where)
            if len(kinds) == 1:
                ctx.ob('partition', name + ' last chunk', not kinds[0].startswith('add to'), 'a record is {}ed to chunk number {}, full or not'.format(
                    'add', kinds[0][-2:]), where)
            if kinds == ['add']:
                # the chunk that takes one more is known to have room: some counter < maxSize
                ok = None
                for a, v in conds.items():
                    if a[0] == 'cmp' and a[1] in ('<', '<=', '==') and MAX in subterms(a):
                        if not any(x[0] == 'phi' or x[0] == 'call' and x[1] == T('x', 'len') or x[0] == 'idx' for x in subterms(a)):
                            continue
                        for cnt in (0, 1, 2, 3, 4, 5):
                            def val(t, cnt=cnt):
                                if t == MAX:
                                    return 3
                                if t[0] in ('phi', 'idx') or t[0] == 'call' and t[1] == T('x', 'len'):
                                    return cnt
                                return None
                            r = order_atom(a, val)
                            if r is None:
                                break
                            if r == v and cnt >= 3 and not (a[1] == '==' ):
                                ok = False
                            elif ok is None and cnt == 5:
                                ok = True
                if ok is False:
                    ctx.ob('partition', name + ' size', False, 'a chunk that already has maxSize records takes another one', where)
                elif ok:
                    ctx.ob('partition', name + ' size', True)
                else:
                    ctx.undecided('partition', name + ' size', 'how the size is limited')
        # the counter counts the records of the last chunk
        counters = {}
        for n, conds, env, where, start in rows:
            if n is None or len(n[0]) != 1:
                continue
            for a in conds:
                if a[0] == 'cmp' and MAX in subterms(a):
                    for x in subterms(a):
                        if x[0] == 'phi':
                            counters.setdefault(x[2], []).append((n[0][0], env.get(x[2]), x, where))
        for c, uses in counters.items():
            for kind, v, phi, where in uses:
                want = 1 if kind == 'new' else None
                got = number(v, lambda t: 10 if t == phi else None) if v is not None else None
                if got is None:
                    ctx.undecided('partition', name + ' counter', 'value ' + (show(v) if v is not None else '?'))
                elif kind == 'new':
                    ctx.ob('partition', name + ' counter', got >= 1, 'a fresh chunk of one record is counted as {}'.format(got), where)
                else:
                    ctx.ob('partition', name + ' counter', got >= 11, 'adding a record does not count', where)


class ChunkClient(Client):
    max_states = 60

    def __init__(self):
        Client.__init__(self)
        self.rows = []
        self.cur = {}

    def item(self, v):
        return v == T('el', HELD) or v[0] == 'call' and v[1][0] == 'meth' and v[1][2] == 'pop' and v[1][1] == HELD

    def mark(self, st, kind, v, node):
        k = ('put',)
        st.facts[k] = st.facts.get(k, ()) + ((kind, v),)

    def join_fact(self, k, a, b):
        return None

    def single(self, eng, st, t):
        """a container made of just the record at hand"""
        o = eng.obj(st, t) if t[0] == 'r' else None
        return o is not None and o.kind in ('set', 'list') and o.seq is not None and len(o.seq) == 1 and self.item(o.seq[0])

    def on_add(self, eng, st, r, v, node):
        if len(eng.acts) != 1:
            return
        if self.single(eng, st, v):
            self.mark(st, 'new', v, node)
        elif self.item(v):
            o = eng.obj(st, r)
            self.mark(st, 'new' if o is not None and o.seq == () else 'add', v, node)

    def on_mutate(self, eng, st, node, target, how, value=None):
        if len(eng.acts) == 1 and how in ('add', 'append') and target != HELD and isinstance(value, tuple) and value and (
                self.item(value[0]) or self.single(eng, st, value[0])) and target[0] != 'r':
            far = target[0] == 'it' and is_c(target[2]) and target[2][2] != -1
            self.mark(st, 'new' if not self.item(value[0]) else 'add to chunk {}'.format(target[2][2]) if far else 'add', value[0], node)

    def on_enter(self, eng, st, fn, args):
        if len(eng.acts) != 2:
            return
        vals = list(args.values())
        if fn.name == 'add' and any(self.item(v) for v in vals):
            to = next((v for v in vals if v[0] == 'it' and is_c(v[2])), None)
            self.mark(st, 'add' if to is None or to[2][2] == -1 else 'add to chunk {}'.format(to[2][2]), None, None)
        elif fn.name == '__init__' and any(self.single(eng, st, v) for v in vals):
            self.mark(st, 'new', None, None)

    def on_loop(self, eng, st, node, phase, it):
        if len(eng.acts) != 1:
            return
        if phase == 'enter':
            st.facts[('put',)] = ()
        elif phase == 'iter-end':
            f = st.facts.get(('put',))
            self.rows.append(((([k for k, v in f], [v for k, v in f]) if f is not None else None), dict(st.conds), dict(st.frames[st.cur][1]),
                              eng.where(node), None))


# ------------------------------------------------------------------ nothing is left out
SEARCH = {'discardID', 'removeID', 'getID', 'containsID', 'localCitesOf', 'citeFilter', '_extractTagged', 'findProbableCopyright', 'peek', 'pop',
          'split', '__init__', '__contains__'}


class Loops(Base):
    max_states = 10

    def __init__(self):
        self.rows, self.asides, self.cuts = {}, {}, {}

    def source(self, eng, st, it):
        """is `it` a collection, its records, or a field of one"""
        for t in alts(it):
            if t[0] == 'enum':
                t = t[1]
            if t in (ME, HELD):
                return 'the collection'
            el = T('el', HELD)
            if field_of(t, el) is not None and (t[0] in ('call', 'it')):
                return 'the {} of a record'.format(field_of(t, el))
            t = strip_calls(t, ('iter', 'list', 'sorted', 'reversed', 'tuple', 'set'))
            if t in (ME, HELD):
                return 'the collection'
            if t[0] == 'r':
                o = eng.obj(st, t)
                if o is not None and o.kind in ('list', 'set') and o.alg == T('base', HELD):
                    return 'the collection'
        return None

    def part(self, eng, st, it):
        for t in alts(it):
            if t[0] == 'enum':
                t = t[1]
            if t[0] == 'it' and t[2][0] == 'slice':
                s = self.source(eng, st, t[1])
                if s and not all(x == NONE for x in t[2][1:]):
                    return s
            if t[0] == 'call' and t[1] == T('x', 'itertools.islice') and t[2]:
                return self.source(eng, st, t[2][0])
            if t[0] == 'range' and eng.fn.cls is not None:
                lens = [x for x in subterms(t) if x[0] == 'call' and x[1] == T('x', 'len')]
                if lens:
                    got = [number(x, lambda u: 10 if u in lens else None) for x in t[1:]]
                    if None not in got and len(set(range(*[int(x) for x in got]))) < 10:
                        return 'the rows of a table'
            if t[0] == 'r':
                o = eng.obj(st, t)
                if o is not None and o.alg is not None and o.alg[0] == 'sub' and o.alg[1] == T('base', HELD):
                    return 'the collection'
        return None

    def on_loop(self, eng, st, node, phase, it):
        if it is None or phase not in ('break', 'enter', 'iter-end'):
            return
        s = self.source(eng, st, it)
        p = self.part(eng, st, it)
        if s is None and p is None:
            return
        k = (eng.fn.fid, eng.where(node), s or p, len(eng.acts))
        row = self.rows.setdefault(k, set())
        row.add('break' if phase == 'break' else 'part' if p else 'ok')

    def on_return(self, eng, st, fn, value, node):
        # what was gathered is handed out whole
        if len(eng.acts) != 1 or value is None:
            return
        vals = [x for x in alts(value)]
        for x in list(vals):
            o = eng.obj(st, x) if x[0] == 'r' else None
            if o is not None and o.kind in ('dict', 'tuple'):
                vals += [y for e in list(o.slots.values()) + list(o.seq or ()) if isinstance(e, tuple) for y in alts(e)]
        self.cut(eng, vals, eng.where(node) if node is not None else fn.where())

    def on_enter(self, eng, st, fn, args):
        # given to a helper that makes the result of it, too
        if len(eng.acts) <= 2 and fn.name.startswith('_') and not fn.name.startswith('__'):
            self.cut(eng, [x for v in args.values() if isinstance(v, tuple) for x in alts(v)], fn.where())

    def cut(self, eng, vals, where):
        for x in vals:
            for b, lost in origins(eng, x):
                if (b[0] == 'r' or b[0] in ('dview', 'call') and any(y[0] == 'r' for y in subterms(b))) and set(lost) & {'part', 'filter'} and not any(y[0] == 'p' for z, k in eng.slices.get(x, ()) for y in subterms(k)):
                    self.cuts.setdefault(sorted(set(lost) & {'part', 'filter'})[0], where)

    def on_branch(self, eng, st, node, atom, val):
        if not st.loops or eng.fn.cls is not None and any(getattr(k, 'name', '') == 'Record' for k in eng.m.mro(eng.fn.cls)):
            return
        fs = fields_of(atom, T('el', HELD))
        if fs and fs <= ASIDE:
            self.asides.setdefault((eng.fn.fid, sorted(fs)[0]), eng.where(node))


class RowClient(Base):
    """does every record leave something in the result?"""
    max_states = 300
    exact_conds = True
    progress = False

    def __init__(self):
        self.ends = []

    def join_fact(self, k, a, b):
        return (a or 0) and (b or 0) if k == 'did' else Base.join_fact(self, k, a, b)

    def did(self, st):
        if st.loops:
            st.facts['did'] = 1

    def outside(self, t):
        return t[0] != 'r' or not t[1][-1]

    def on_add(self, eng, st, r, v, node):
        if self.outside(r):
            self.did(st)

    def on_mutate(self, eng, st, node, target, how, value=None):
        if self.outside(target):
            self.did(st)

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name in ('writerow', 'write', 'writelines', 'writeRecord', 'writerows', 'print') or name == 'for:' and len(st.loops) >= 1:
            self.did(st)

    def on_handler(self, eng, st, handler, exc):
        if exc in ('BadRecord', 'BadWOSRecord'):
            self.did(st)

    def on_loop(self, eng, st, node, phase, it):
        if it is None or len(eng.acts) != 1 or strip_calls(it[1] if it[0] == 'enum' else it, ('iter', 'list', 'tuple', 'sorted')) not in (ME, HELD):
            return
        if phase == 'enter':
            st.facts['did'] = 0
        elif phase == 'iter-end':
            self.ends.append((eng.site(node), st.facts.get('did', 0), dict(st.conds), eng.where(node)))


ROWS = {'makeDict': {}, 'forNLP': {}, 'writeCSV': {'splitByTag': NONE}, 'writeFile': {}, 'writeBib': {}}


def rows(ctx):
    """an export with a row per record has a row for every record"""
    m = ctx.model
    for name, args in ROWS.items():
        fn = m.funcs.get('metaknowledge.recordCollection:RecordCollection.' + name)
        if fn is None:
            continue
        cl = RowClient()
        eng = Engine(m, cl, 500000)
        try:
            eng.run(fn, args=args, selfcls=m.cls('RecordCollection'))
        except (Budget, RecursionError):
            ctx.undecided('rows', name, 'path budget')
            continue
        ctx.saw(fn)
        for site in sorted({e[0] for e in cl.ends}, key=str):
            es = [e for e in cl.ends if e[0] == site]
            if not any(e[1] for e in es):
                continue
            bad = next((e for e in es if not e[1]), None)
            ctx.ob('rows', '{} loop {}'.format(name, site[0]), bad is None, 'a record can be passed over' + (
                ' when ' + ' and '.join('{} is {}'.format(show(a)[:60], v) for a, v in list(bad[2].items())[-2:]) if bad else ''), bad[3] if bad else '')


ASIDE = {'bad', '_bad', 'error', '_error', 'sourceFile', '_sourceFile', 'sourceLine', '_sourceLine'}
BY_STATE = {'badEntries', 'dropBadEntries', 'dropNonJournals'}


def exhaustive(ctx):
    n = 0
    for f, c in er.entries(ctx):
        if f.cls is None or not any(getattr(k, 'name', '') == 'Collection' for k in ctx.model.mro(f.cls)):
            continue
        if f.name in SEARCH:
            continue
        cl = Loops()
        eng = Engine(ctx.model, cl, 150000)
        try:
            eng.run(f, selfcls=c)
        except (Budget, RecursionError):
            cl2 = Loops()
            cl2.max_states = 2
            eng = Engine(ctx.model, cl2, 400000)
            try:
                eng.run(f, selfcls=c)
            except (Budget, RecursionError):
                ctx.undecided('whole-collection', f.fid, 'path budget')
            for k, v in cl2.rows.items():
                cl.rows.setdefault(k, set()).update(v)
            cl.asides.update(cl2.asides)
            cl.cuts.update(cl2.cuts)
        ctx.saw(f)
        for (fid, where, what, depth_), kinds in sorted(cl.rows.items()):
            n += 1
            key = '{} over {}'.format(f.name if fid == f.fid else f.name + ' > ' + fid.split(':')[-1], what)
            ctx.ob('whole-collection', key, 'break' not in kinds, 'the loop over {} stops early'.format(what), where)
            ctx.ob('whole-collection', key, 'part' not in kinds, 'only a part of {} is looked at'.format(what), where)
        for how, where in sorted(cl.cuts.items()):
            ctx.ob('whole-collection', f.name + ' result', False, 'only a part of what was gathered is returned', where)
        for (fid, field), where in sorted(cl.asides.items()):
            if f.name not in BY_STATE:
                ctx.ob('whole-collection', '{} by {}'.format(f.name if fid == f.fid else f.name + ' > ' + fid.split(':')[-1], field), False,
                       'what happens to a record depends on its {}, though nothing says that such records are left out'.format(field), where)
    ctx.need('loops over a collection or a field of its records', n, 30)


def anonymous(ctx):
    """the author of a citation is written in title case, what it is compared with has to be as well"""
    m = ctx.model
    for c in m.classes.values():
        f, init = c.methods.get('isAnonymous'), c.methods.get('__init__')
        if f is None or init is None:
            continue
        made = [n.value for n in ast.walk(init.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'author' for t in n.targets)]
        if not any(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'title' for v in made):
            continue
        ctx.saw(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                ab = [n.left, n.comparators[0]]
                k = next((x.value for x in ab if isinstance(x, ast.Constant) and isinstance(x.value, str)), None)
                who = [x for x in ab if isinstance(x, ast.Attribute) and x.attr == 'author']
                if k is not None and who:
                    ctx.ob('selects', '{}.isAnonymous'.format(c.name), k == k.replace('.', '').title() and 'nonymous' in k,
                           'the author of a citation is written like Doe J or [Anonymous], never {}'.format(k), f.where(n))


def parts_of(e, names):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & names or any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(e))


def of_grants(ctx):
    """every field asked for and every value in it is looked at"""
    m = ctx.model
    for fid, f in sorted(m.funcs.items()):
        if f.cls is None or f.name not in ('getInvestigators', 'getInstitutions'):
            continue
        ctx.saw(f)
        a = f.node.args
        names = {x.arg for x in a.args + a.kwonlyargs} & {'tags'}
        ok, why, at = True, '', f.node
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Break, ast.Return)):
                p = n
                while p is not f.node and not isinstance(p, (ast.For, ast.While)):
                    p = p._parent
                if isinstance(p, ast.For) and parts_of(p.iter, names):
                    ok, why, at = False, 'the search ends before every field is looked at', n
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and (n.slice.upper is not None or n.slice.lower is not None) and parts_of(n.value, names):
                ok, why, at = False, 'only a part of the fields or of their values is looked at', n
        ctx.ob('whole-collection', f.fid + ' fields', ok, why, f.where(at))


def run(ctx):
    ctx.rule('selects', 'the result holds a record exactly if the documented condition holds for it')
    ctx.rule('search-stops', 'a search over the citations of a record or the collection stops early only at a match')
    ctx.rule('network-citations', 'a citation enters a network exactly if none of the requested filters drops it')
    ctx.rule('partition', 'chunk and split put every record into exactly one chunk, none larger than asked for')
    ctx.rule('whole-collection', 'statistics, exports and networks look at every record and at every value of the fields they use')
    simple(ctx)
    cite_filter(ctx)
    local_cites(ctx)
    network_cites(ctx)
    chunks(ctx)
    ctx.rule('rows', 'an export with a row for every record writes one for each')
    rows(ctx)
    citesof.record(ctx)
    anonymous(ctx)
    of_grants(ctx)
    for f in ctx.model.funcs.values():
        if f.cls is not None and f.name.startswith('network'):
            merged.counted(ctx, f, 'whole-collection')
    exhaustive(ctx)
    ctx.need('documented selections decided', len([1 for r, c in list(ctx.obligations) + list(ctx.undec) if r == 'selects']), 25)
