"""C24: every way of asking a record for a field gives the same answer: by tag
or by long name, first or later, through [], in, get, values, items, subDict."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, FALSE, NONE, T, TRUE, alts, is_c, show, subterms
from ..model import Cls

ME = T('p', 'self')
FIELDS, MEMO = T('at', ME, '_fieldDict'), T('at', ME, '_computedFields')
HOOKS = ('getAltName', 'tagProcessingFunc', 'specialFuncs')


class Client(Base):
    max_states = 200
    handler_states = 40
    exact_conds = True
    progress = False

    def __init__(self, top):
        self.top = top
        self.memo, self.put, self.dropped = [], [], []
        self.result = None

    def inline(self, eng, fn, st):
        return fn.name not in HOOKS

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name.split('.')[-1] == 'specialFuncs':
            st.facts['asked'] = True

    def on_handler(self, eng, st, handler, exc):
        if st.facts.get('asked'):
            st.facts['asked'] = 'failed'

    def join_fact(self, k, a, b):
        if k in ('asked', 'put'):
            return a if a == b else None
        return Base.join_fact(self, k, a, b)

    def on_mutate(self, eng, st, node, t, how, value=None):
        if t == MEMO and how == 'item':
            self.memo.append((value[0], value[1], dict(st.conds), eng.where(node)))
        elif t == MEMO or t == FIELDS:
            self.memo.append((None, None, how, eng.where(node)))
        elif how == 'item' and isinstance(value, tuple) and t[0] == 'r':
            st.facts['put'] = True
            self.put.append((value[0], value[1], eng.where(node), dict(st.conds)))

    def on_add(self, eng, st, t, v, node):
        if t[0] == 'r' and t[1][0] == 'gen':
            st.facts['put'] = True

    def on_put(self, eng, st, r, k, v, node):
        self.on_mutate(eng, st, node, r, 'item', (k, v))

    def on_loop(self, eng, st, node, phase, *a):
        if eng.fn is self.top:
            if phase == 'enter':
                st.facts.pop('put', None)
            elif phase == 'iter-end' or phase == 'exit' and isinstance(node, ast.DictComp):
                if not st.facts.get('put'):
                    self.dropped.append(eng.where(node))
                st.facts.pop('put', None)
            elif phase == 'break':
                self.dropped.append(eng.where(node))


def hook(t, name):
    """argument terms of a call of one of the record's hooks"""
    if t[0] == 'call' and name in show(t[1]).split('.')[-1]:
        return [a for a in t[2] if a != ME]
    return None


def alt(m, t):
    a = hook(t, 'getAltName')
    return a[0] if a and len(a) == 1 else None


def kind(t):
    """('memo'|'raw'|'field'|'special', key) of a value, or None"""
    if t[0] == 'it' and t[1] == MEMO:
        return 'memo', t[2]
    if t[0] == 'it' and t[1] == FIELDS:
        return 'raw', t[2]
    if t[0] == 'call' and len(t) > 2 and t[1][0] == 'meth' and t[1][1] in (FIELDS, MEMO) and t[1][2] in ('get', 'setdefault', 'pop') and t[2]:
        return 'raw' if t[1][1] == FIELDS else 'memo', t[2][0]
    a = hook(t, 'specialFuncs')
    if a and len(a) == 1:
        return 'special', a[0]
    if t[0] == 'call' and len(t) > 2 and len(t[2]) == 1:
        f = t[1]
        inner = f
        for y in (f, f[1] if len(f) > 1 and isinstance(f[1], tuple) else f):
            a = hook(y, 'tagProcessingFunc') if y[0] == 'call' else None
            if a:
                r = t[2][0]
                if r[0] == 'it' and r[1] == FIELDS:
                    return 'field', (a[0], r[2])
                return 'field', (a[0], None)
    return None


def isin(conds, key, where):
    return conds.get(T('cmp', 'in', key, where))


def same(m, a, b):
    """b is a or the other name of a (alternative names are mutual: C10)"""
    return a == b or alt(m, b) == a or alt(m, a) == b or alt(m, b) is not None and alt(m, b) == alt(m, a) or \
        alt(m, b) is not None and alt(m, alt(m, b)) == a or alt(m, a) is not None and alt(m, alt(m, a)) == b


def check_value(m, key, t, conds, raw=False):
    """None if t is the right value for key, or what is wrong; '?' if not understood"""
    k = kind(t)
    if k is None:
        return '?'
    what, x = k
    if what == 'raw':
        if not raw:
            return 'the unprocessed text is returned'
        x = (x, x)
        what = 'field'
    elif raw:
        return 'a processed value is returned for raw'
    if what == 'memo':
        return None if same(m, key, x) else 'the remembered value of another tag ({}) is returned'.format(show(x))
    if what == 'field':
        f, v = x
        if v is None:
            return '?'
        if f != v:
            return 'the text of {} is processed as {}'.format(show(v), show(f))
        if not same(m, key, v):
            return 'the value of {} is returned for {}'.format(show(v), show(key))
        if v != key and isin(conds, key, FIELDS) is not False:
            return 'the field {} is looked up before {} itself'.format(show(v), show(key))
        return None
    if what == 'special':
        if not same(m, key, x):
            return 'the special function of {} is used for {}'.format(show(x), show(key))
        if isin(conds, key, FIELDS) is not False:
            return 'a special function is used although the record may have the field'
        other = [c for c, v in conds.items() if c[0] == 'cmp' and c[1] == 'in' and c[3] == FIELDS and alt(m, c[2]) is not None and v is False]
        if not other:
            return 'a special function is used although the record may have the field under its other name'
        return None
    return '?'


def go(ctx, m, c, f, rule):
    cl = Client(f)
    eng = Engine(m, cl, 400000)
    try:
        rets, raises = eng.run(f, {}, c, {})
    except Budget:
        ctx.undecided(rule, '{}.{}'.format(c.name, f.name), 'too many paths')
        return None
    ctx.saw(f)
    return eng, cl, rets, raises


def run(ctx):
    m = ctx.model
    ctx.rule('lookup', 'looking up a field gives the remembered value, the processed field, the field under its other name, or the special function, in that order')
    ctx.rule('remembered', 'a remembered value is stored under the names it belongs to, and only there')
    ctx.rule('contained', 'a name is in the record exactly if looking it up gives a value')
    ctx.rule('get', 'get gives what [] gives or the default, and the unprocessed field when asked for raw data')
    ctx.rule('views', 'values, items, subDict, iteration and length are those of the record fields')
    ext = m.cls('ExtendedRecord')
    n = 0
    for c in m.subclasses(ext):
        if c is ext:
            continue
        n += 1
        lookup(ctx, m, c)
        contained(ctx, m, c)
        get(ctx, m, c)
        views(ctx, m, c)
    ctx.count('record classes', n)
    plain(ctx, m, m.cls('Record'))


def plain(ctx, m, c):
    """a record without processing: [] gives the field, in tells if it is there"""
    f = c.methods.get('__getitem__')
    r = f and go(ctx, m, c, f, 'lookup')
    if r:
        key = T('p', [a.arg for a in f.node.args.args][1])
        for st, v in r[2]:
            for x in alts(v):
                k = kind(x)
                if is_c(x) or k:
                    ctx.ob('lookup', c.name + '.__getitem__', k is not None and k[0] == 'raw' and k[1] == key, 'gives {} for {}'.format(show(x), show(key)), f.where())
                else:
                    ctx.undecided('lookup', c.name + '.__getitem__', 'returns ' + show(x)[:100])
    f = c.methods.get('__contains__')
    r = f and go(ctx, m, c, f, 'contained')
    if r:
        key = T('p', [a.arg for a in f.node.args.args][1])
        for st, v in r[2]:
            there = isin(st.conds, key, FIELDS)
            for x in alts(v):
                while x[0] == 'truth' or x[0] == 'call' and x[1] in (('x', 'bool'),) and len(x[2]) == 1:
                    x = x[1] if x[0] == 'truth' else x[2][0]
                if x == T('cmp', 'in', key, FIELDS):
                    ok = True
                elif is_c(x):
                    known = any(FIELDS in list(subterms(cc)) for cc in st.conds)
                    ok = bool(x[2]) == there if there is not None else None if known else False
                else:
                    # what the field holds says nothing about whether it is there
                    ok = False if any(kind(y) or y[0] == 'call' and y[1][0] == 'meth' and y[1][2] == 'get' and y[1][1] == FIELDS for y in subterms(x)) else None
                if ok is None:
                    ctx.undecided('contained', c.name + '.__contains__', 'returns ' + show(x)[:100])
                else:
                    ctx.ob('contained', c.name + '.__contains__', ok, 'the answer is {}'.format(show(x)), f.where())
    f = c.methods.get('__len__')
    r = f and go(ctx, m, c, f, 'views')
    if r:
        for st, v in r[2]:
            ctx.ob('views', c.name + '.__len__', not is_c(v), 'the length is {}'.format(show(v)), f.where())


def memo(ctx, m, c, f, cl, key):
    bad = None
    for k, v, conds, where in cl.memo:
        if k is None:
            if conds in ('clear', 'pop', 'delitem', 'update'):
                bad = bad or ('the remembered values or fields are changed ({})'.format(conds), where)
            continue
        for x in alts(v):
            kd = kind(x)
            if kd is None:
                if is_c(x):
                    bad = ('the fixed value {} is remembered'.format(show(x)), where)
                continue
            what, y = kd
            if what == 'field':
                if y[1] is None:
                    continue
                if y[0] != y[1]:
                    bad = ('the text of {} processed as {} is remembered'.format(show(y[1]), show(y[0])), where)
                y = y[1]
            elif what == 'raw':
                bad = ('the unprocessed text is remembered', where)
                continue
            if not same(m, k, y):
                bad = ('the value of {} is remembered as {}'.format(show(y), show(k)), where)
    ctx.ob('remembered', '{}.{}'.format(c.name, f.name), bad is None, bad[0] if bad else '', bad[1] if bad else '')


def lookup(ctx, m, c):
    f = m.method(c, '__getitem__')
    r = go(ctx, m, c, f, 'lookup')
    if r is None:
        return
    eng, cl, rets, raises = r
    key = T('p', [a.arg for a in f.node.args.args][1])
    kinds, wrong, unk = set(), None, None
    for st, v in rets:
        for x in alts(v):
            w = check_value(m, key, x, st.conds)
            if w == '?':
                unk = unk or show(x)
                if is_c(x):
                    wrong = wrong or 'a missing name gives {}'.format(show(x))
            elif w:
                wrong = wrong or w
            k = kind(x)
            if k:
                kinds.add(('field-alt' if k[0] == 'field' and k[1][1] != key else k[0]))
    nm = c.name + '.__getitem__'
    ctx.ob('lookup', nm, wrong is None, wrong or '', f.where())
    if unk and not wrong:
        ctx.undecided('lookup', nm, 'returns ' + unk[:150])
    else:
        for k, what in (('field', 'fields of the record'), ('field-alt', 'fields under their other name'), ('special', 'special functions')):
            ctx.ob('lookup', '{} {}'.format(nm, k), k in kinds, 'does not find ' + what, f.where())
    early = [(st, n) for st, e, n, i in raises if e in ('KeyError', KeyError) or getattr(e, 'name', None) == 'KeyError' or show_exc(e) == 'KeyError'
             if not i and (isin(st.conds, key, FIELDS) is not False or not any(cc[0] == 'cmp' and cc[1] == 'in' and cc[3] == FIELDS and alt(m, cc[2]) is not None and v is False for cc, v in st.conds.items()))]
    ctx.ob('lookup', nm + ' missing', not early, 'a name is reported missing before every place was looked at' if early else '', f.where())
    memo(ctx, m, c, f, cl, key)


def show_exc(e):
    return e if isinstance(e, str) else getattr(e, '__name__', getattr(e, 'name', ''))


def joined(m, conds, key):
    """paths were joined, each of which found the name"""
    for k, v in conds.items():
        if k[0] == 'dnf' and v:
            ok = True
            for conj in k[1:]:
                hit = False
                for y in subterms(conj):
                    if y[0] == 'lit' and y[1][0] == 'cmp' and y[1][1] == 'in' and y[2] is TRUE and \
                            (y[1][2] == key and y[1][3] in (FIELDS, MEMO) or alt(m, y[1][2]) == key and y[1][3] == FIELDS):
                        hit = True
                ok = ok and hit
            if ok:
                return True
    return False


def contained(ctx, m, c):
    f = m.method(c, '__contains__')
    r = go(ctx, m, c, f, 'contained')
    if r is None:
        return
    eng, cl, rets, raises = r
    key = T('p', [a.arg for a in f.node.args.args][1])
    wrong = unk = None
    for st, v in rets:
        inf, inm = isin(st.conds, key, FIELDS), isin(st.conds, key, MEMO)
        ina = [x for cc, x in st.conds.items() if cc[0] == 'cmp' and cc[1] == 'in' and cc[3] == FIELDS and alt(m, cc[2]) is not None]
        asked = st.facts.get('asked')
        for x in alts(v):
            if x is TRUE:
                if joined(m, st.conds, key):
                    continue
                if not (inf or inm or True in ina or asked is True):
                    wrong = wrong or 'a name is reported as contained without having been found'
            elif x is FALSE:
                if inf is not False or not (ina and True not in ina):
                    wrong = wrong or 'a name is reported missing although the record may have the field'
                elif asked is None:
                    wrong = wrong or 'a name with a special function is reported missing'
                elif asked is True:
                    wrong = wrong or 'a name is reported missing although its special function gives a value'
            else:
                unk = unk or show(x)
    nm = c.name + '.__contains__'
    ctx.ob('contained', nm, wrong is None, wrong or '', f.where())
    if unk and not wrong:
        ctx.undecided('contained', nm, 'returns ' + unk[:150])
    memo(ctx, m, c, f, cl, key)


def get(ctx, m, c):
    f = m.method(c, 'get')
    r = go(ctx, m, c, f, 'get')
    if r is None:
        return
    eng, cl, rets, raises = r
    ps = [a.arg for a in f.node.args.args]
    key, dflt, raw = (T('p', x) for x in ps[1:4])
    wrong = unk = None
    kinds = {True: set(), False: set()}
    for st, v in rets:
        israw = st.conds.get(T('truth', raw))
        if israw is None:
            unk = unk or 'raw is not tested'
            continue
        for x in alts(v):
            if x == dflt:
                kinds[israw].add('default')
                if any(kind(y) for cc in st.conds for y in ((cc,) if cc[0] == 'call' else cc[1:] if cc[0] == 'truth' else cc[2:] if cc[0] == 'cmp' and cc[1] != 'in' else ())
                       if isinstance(y, tuple)):
                    wrong = wrong or 'whether the default is given depends on the value of the field'
                if israw:
                    ina = [y for cc, y in st.conds.items() if cc[0] == 'cmp' and cc[1] == 'in' and cc[3] == FIELDS and alt(m, cc[2]) is not None]
                    if isin(st.conds, key, FIELDS) is True or True in ina:
                        wrong = wrong or 'the default is returned although the record has the field'
                continue
            w = check_value(m, key, x, st.conds, israw)
            if w == '?':
                if is_c(x):
                    wrong = wrong or 'gives {} for a missing name instead of the default'.format(show(x))
                unk = unk or show(x)
            elif w:
                wrong = wrong or w
            k = kind(x)
            if k:
                what = 'field' if k[0] == 'raw' else k[0]
                y = k[1] if k[0] != 'field' else k[1][1]
                kinds[israw].add('field-alt' if what == 'field' and y != key else what)
    nm = c.name + '.get'
    ctx.ob('get', nm, wrong is None, wrong or '', f.where())
    missing = [(r, k) for r, ks in ((True, ('field', 'field-alt', 'default')), (False, ('field', 'field-alt', 'special', 'default'))) for k in ks if k not in kinds[r]]
    if unk and not wrong:
        ctx.undecided('get', nm, 'returns ' + unk[:150])
    else:
        ctx.ob('get', nm + ' all', not missing, 'never gives the {} (raw is {})'.format(missing[0][1], missing[0][0]) if missing else '', f.where())
    esc = [1 for st, e, n, i in raises if show_exc(e) == 'KeyError' and not i]
    ctx.ob('get', nm + ' missing', not esc, 'a missing name makes get fail' if esc else '', f.where())


def mentions(t, x):
    return x in list(subterms(t))


def views(ctx, m, c):
    for nm in ('values', 'items'):
        f = m.method(c, nm)
        if f is None or len(f.node.args.args) < 2:
            continue
        r = go(ctx, m, c, f, 'views')
        if r is None:
            continue
        eng, cl, rets, raises = r
        raw = T('p', f.node.args.args[1].arg)
        for st, v in rets:
            israw = st.conds.get(T('truth', raw))
            view = v[0] == 'dview'
            s = show(v)
            own = any(x == FIELDS for x in subterms(v)) or view and FIELDS in v
            if israw is True and (v[0] == 'dview' or v[0] == 'call'):
                ctx.ob('views', '{}.{} raw'.format(c.name, nm), nm in s and own, 'gives {} for raw data'.format(s), f.where())
            elif israw is False and (v[0] == 'dview' or v[0] == 'call'):
                ctx.ob('views', '{}.{}'.format(c.name, nm), nm in s and not own and ME in list(subterms(v)) and not mentions(v, MEMO), 'gives {}'.format(s), f.where())
            elif israw is None:
                ctx.ob('views', '{}.{}'.format(c.name, nm), False, 'does not depend on raw', f.where())
            else:
                ctx.undecided('views', '{}.{}'.format(c.name, nm), s[:100])
    f = m.method(c, 'subDict')
    if f is not None:
        r = go(ctx, m, c, f, 'views')
        if r is not None:
            eng, cl, rets, raises = r
            ps = [a.arg for a in f.node.args.args]
            el = T('el', T('p', ps[1]))
            wrong = None
            raw = T('truth', T('p', ps[2])) if len(ps) > 2 else None
            given = set()
            for k, v, w, conds in cl.put:
                for x in alts(v):
                    kd = kind(x)
                    if kd is None:
                        if is_c(x) and x != NONE:
                            wrong = wrong or ('a missing tag gives {}'.format(show(x)), w)
                        given.add('none' if is_c(x) else '?')
                        continue
                    given.add('raw' if kd[0] == 'raw' else 'processed')
                    want = conds.get(raw)
                    if want is not None and want != (kd[0] == 'raw'):
                        wrong = wrong or ('gives the {} when raw is {}'.format('unprocessed text' if kd[0] == 'raw' else 'processed value', want), w)
                if k[0] == 'el' and v[0] != 'c':
                    kd = kind(v)
                    if kd and not same(m, k, kd[1][1] if kd[0] == 'field' and kd[1][1] is not None else kd[1] if kd[0] != 'field' else k):
                        wrong = wrong or ('gives the value of {} for {}'.format(show(kd[1] if kd[0] != 'field' else kd[1][1]), show(k)), w)
                elif k[0] != 'el':
                    wrong = wrong or ('the result has the key {}'.format(show(k)), w)
            if cl.put and raw and '?' not in given:
                for what, flag in (('raw', True), ('processed', False)):
                    if what not in given:
                        wrong = wrong or ('never gives the {} (raw is {})'.format('unprocessed text' if flag else 'processed value', flag), f.where())
            if cl.put and cl.dropped:
                wrong = wrong or ('a requested tag is left out', cl.dropped[0])
            ctx.ob('views', c.name + '.subDict', wrong is None, wrong[0] if wrong else '', wrong[1] if wrong else '')
    f = m.method(c, '__len__')
    if f is not None:
        r = go(ctx, m, c, f, 'views')
        if r is not None:
            for st, v in r[2]:
                ctx.ob('views', c.name + '.__len__', v[0] != 'c' and (mentions(v, FIELDS) or not mentions(v, MEMO) and v[0] != 'call'), 'the length is {}'.format(show(v)), f.where())
    f = m.method(c, '__iter__')
    if f is not None:
        used = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
        ctx.ob('views', c.name + '.__iter__', '_computedFields' not in used, 'iterates over remembered values', f.where())
        if any(isinstance(x, ast.Yield) for x in ast.walk(f.node)):
            r = go(ctx, m, c, f, 'views')
            if r is not None:
                left = r[1].dropped
                ctx.ob('views', c.name + '.__iter__ all', not left, 'a tag of the record is passed over', left[0] if left else '')
