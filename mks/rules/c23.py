"""C23: what cannot be answered is refused: a wrong argument, or a bad record,
leaves every function that checks it with the documented exception and no
answer; every exception that is built is raised or handed on; and the package's
exceptions can be caught as the families they are documented to belong to."""
import ast

from ..clients import Base
from ..interp import Budget, C, Engine, T, is_c, show, subterms
from ..model import Cls

NODE = ('full', 'original', 'author', 'journal', 'year')
STATS = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity')
# function -> [(kind, what, allowed, may be None, exceptions)]
SPECS = {
    'diffusion:diffusionGraph': [('oneof', 'sourceType', ('raw', '@tagsAndNameSet'), False, ('RuntimeError',)), ('oneof', 'targetType', ('raw', '@tagsAndNameSet'), False, ('RuntimeError',)),
                                 ('caught', 'labelEdgesBy', 'normalizeToTag', None, ('RuntimeError', 'KeyError'))],
    'diffusion:diffusionCount': [('type', 'sourceType', ('str',), False, ('RuntimeError',)), ('type', 'source', ('RecordCollection',), False, ('RuntimeError',)),
                                 ('type', 'target', ('RecordCollection',), False, ('RuntimeError',)), ('type', 'extraValue', ('str',), True, ('RuntimeError',))],
    'mkCollection:Collection.add': [('type', 'elem', ('@_allowedTypes',), False, ('CollectionTypeError',))],
    'mkCollection:Collection.remove': [('caught', 'elem', 'remove', None, ('KeyError',))],
    'mkCollection:Collection.pop': [('caught', None, 'pop', None, ('KeyError',))],
    'mkCollection:CollectionWithIDs.rankedSeries': [('notboth', ('giveRanks', 'giveCounts'), None, False, ('mkException',))],
    'mkCollection:CollectionWithIDs.cooccurrenceCounts': [('type', 'keyTag', ('str',), False, ('TagError',)), ('each', 'countedTags', ('str',), False, ('TagError',)), ('some', 'countedTags', None, False, ('TagError',))],
    'mkCollection:CollectionWithIDs.networkMultiLevel': [('type', 'stemmer', ('Callable',), True, ('TagError',))],
    'mkCollection:CollectionWithIDs.networkTwoMode': [('type', 'tag1', ('str',), False, ('TagError',)), ('type', 'tag2', ('str',), False, ('TagError',)),
                                                      ('type', 'stemmerTag1', ('Callable',), True, ('TagError',)), ('type', 'stemmerTag2', ('Callable',), True, ('TagError',))],
    'mkCollection:CollectionWithIDs.networkMultiMode': [('each', 'tags', ('str',), False, ('TagError',)), ('type', 'stemmer', ('Callable',), True, ('TagError',))],
    'recordCollection:RecordCollection.networkCoCitation': [('oneof', 'nodeType', NODE, False, ('RCValueError',))],
    'recordCollection:RecordCollection.networkCitation': [('oneof', 'nodeType', NODE, False, ('RCValueError',))],
    'recordCollection:RecordCollection.localCiteStats': [('oneof', 'keyType', ('citation', 'journal', 'year', 'author'), False, ('TypeError',))],
    'recordCollection:RecordCollection.localCitesOf': [('type', 'rec', ('Record', 'str', 'Citation'), False, ('ValueError',))],
    'graphHelpers:dropEdges': [('unless', 'ignoreUnweighted', 'KeyError', True, ('KeyError',))],
    'graphHelpers:dropNodesByDegree': [('unless', 'includeUnweighted', 'KeyError', True, ('KeyError',))],
    'graphHelpers:dropNodesByCount': [('unless', 'ignoreMissing', 'KeyError', True, ('KeyError',))],
    'graphHelpers:getNodeDegrees': [('unless', 'strictMode', 'KeyError', False, ('KeyError',)), ('oneof', 'edgeType', ('bi', 'in', 'out'), 'loop', ('ValueError',))],
    'graphHelpers:getDegreeDistribution': [('oneof', 'weightType', ('@int',), False, ('ValueError',))],
    'graphHelpers:graphStats': [('eachoneof', 'stats', STATS, False, ('RuntimeError',))],
    'contour.plotting:graphDensityContourPlot': [('type', 'G', ('DiGraph', 'Graph'), False, ('TypeError',)), ('type', 'layout', ('dict',), True, ('TypeError',))],
    'journalAbbreviations.backend:addToDB': [('type', 'abbr', ('str', 'dict'), True, ('TypeError',))],
    'journalAbbreviations.backend:excludeFromDB': [('type', 'abbr', ('str', 'list', 'tuple'), True, ('TypeError',))],
    'grants.baseGrant:Grant.__setitem__': [('type', 'key', ('str',), False, ('KeyError',))],
    'WOS.recordWOS:WOSRecord.__init__': [('type', 'inRecord', ('dict', 'OrderedDict', 'chain', 'IOBase', 'str'), False, ('TypeError',))],
    'medline.recordMedline:MedlineRecord.__init__': [('type', 'inRecord', ('dict', 'OrderedDict', 'chain', 'IOBase', 'str'), False, ('TypeError',))],
    'proquest.recordProQuest:ProQuestRecord.__init__': [('type', 'inRecord', ('dict', 'OrderedDict', 'chain', 'enumerate', 'IOBase', 'str'), False, ('TypeError',))],
    'scopus.recordScopus:ScopusRecord.__init__': [('type', 'inRecord', ('dict', 'OrderedDict', 'str'), False, ('TypeError',))],
    'WOS.recordWOS:WOSRecord.writeRecord': [('good', None, None, False, ('BadRecord',))],
    'medline.recordMedline:MedlineRecord.writeRecord': [('good', None, None, False, ('BadPubmedRecord',))],
    'scopus.recordScopus:ScopusRecord.writeRecord': [('good', None, None, False, ('BadScopusRecord',))],
    'mkRecord:Record.__bytes__': [('good', None, None, False, ('BadRecord',))],
    'mkRecord:ExtendedRecord.bibString': [('good', None, None, False, ('BadRecord',))],
    'recordCollection:RecordCollection.__init__': [('type', 'inCollection', ('str', 'Iterable'), True, ('RCTypeError',)), ('each', 'inCollection', ('Record',), False, ('RCTypeError',))],
    'grantCollection:GrantCollection.__init__': [('type', 'inGrants', ('str', 'Iterable'), True, ('GrantCollectionException',)), ('each', 'inGrants', ('Grant',), False, ('GrantCollectionException',))],
    'WOS.tagProcessing.funcDicts:normalizeToName': [('oneof', 'val', ('@tagsAndNameSet',), False, ('KeyError',))],
    'genders.nameGender:nameStringGender': [('unless', 'noExcept', 'IndexError', True, ('GenderException',))],
}
FAMILIES = {'CollectionTypeError': ('mkException', 'TypeError'), 'RCTypeError': ('mkException', 'TypeError'), 'BadWOSRecord': ('BadRecord',)}
NOT_MK = ('Warning',)


def last(t):
    """the last part of the name of what a term stands for"""
    s = t[1] if t[0] in ('x', 'k', 'm') else t[2] if t[0] in ('g', 'at') else None
    if t[0] == 'g':
        s = t[-1]
    return s.replace(':', '.').split('.')[-1] if isinstance(s, str) else None


class Refuse(Base):
    exact_conds = True
    max_states = 300

    def __init__(self, m, top, specs):
        self.m, self.top, self.specs = m, top, specs
        self.after, self.loops, self.given = [], [], []
        self.hazards = 0

    def inline(self, eng, fn, st):
        if fn is self.top:
            return True
        if fn.parent is not None or fn.cls is not None and fn.cls.name in self.opaque_classes or fn.name.startswith('__') or fn.mod is not self.top.mod:
            return False
        return fn.cls is None and len(list(ast.walk(fn.node))) < 150 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)) or fn.cls is self.top.cls and fn.name.startswith('_')

    def on_call(self, eng, st, node, name, recv, args, kw):
        if ':' in name:
            self.given.append((name, {x for a in list(args) + list(kw.values()) for x in subterms(a)}))
        for kind, p, f, none, excs in self.specs:
            if kind == 'caught' and name.replace(':', '.').split('.')[-1] == f and (p is None or any(T('p', p) in set(subterms(a)) for a in args)):
                if p is not None and f != 'normalizeToTag' or p is None or f == 'normalizeToTag':
                    if recv is not None and f in ('remove', 'pop') and recv == T('p', 'self'):
                        continue
                    self.hazards += 1
                    q = st.copy()
                    q.facts['failed', f] = True
                    eng.do_raise(q, 'KeyError', node, implicit=True)

    def on_handler(self, eng, st, h, exc):
        n = getattr(exc, 'name', exc)
        st.facts['handled', n] = True
        body = next((n.body for n in ast.walk(self.top.node) if isinstance(n, ast.Try) and h in n.handlers), None)
        names = {'*'} if body is None else {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name)}
        st.facts['failed', None] = (st.facts.get(('failed', None)) or frozenset()) | names

    def join_fact(self, k, a, b):
        if k == ('failed', None):
            return frozenset(a or ()) | frozenset(b or ())
        if isinstance(k, tuple) and k[0] == 'failed':
            return a or b
        if isinstance(k, tuple) and k[0] == 'handled':
            return a and b or None
        return Base.join_fact(self, k, a, b)

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if phase in ('iter-end', 'break') and it is not None and eng.fn is self.top:
            self.loops.append((it, dict(st.conds), eng.where(node), node))
        if phase in ('iter-end', 'break') and eng.fn is self.top:
            for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == 'handled']:
                if st.facts.pop(k):
                    self.after.append((k[1], st.copy()))


def values(eng_obj, t):
    """the constants of a literal container"""
    if t[0] == 'tup' and all(is_c(x) for x in t[1:]):
        return {x[2] for x in t[1:]}
    return None


class Judge:
    def __init__(self, m, eng, objs):
        self.m, self.eng, self.objs = m, eng, objs

    def content(self, st, t):
        v = values(None, t)
        if v is None and st is not None and t[0] == 'r':
            o = self.eng.obj(st, t)
            if o is not None and o.seq is not None and all(is_c(x) for x in o.seq):
                return {x[2] for x in o.seq}
        return v

    def test(self, st, c, w, subj, spec):
        """does the literal (c, w) say the subject is acceptable (True), is not (False, partly or wholly), or neither (None)
        -> (verdict, names refused)"""
        kind, p, allowed, none, excs = spec
        if c[0] == 'not':
            return self.test(st, c[1], not w, subj, spec)
        x = c[1] if c[0] == 'truth' else c
        if none is True and c[0] == 'cmp' and c[1] in ('is', '==') and subj in c[2:] and T('c', 'NoneType', None) in c[2:]:
            return True if w else None
        if none is True and c[0] == 'cmp' and c[1] in ('is', '==') and subj in c[2:] and any(is_c(y) and y[2] is None for y in c[2:]):
            return True if w else None
        if kind in ('type', 'each') and x[0] == 'call' and x[1] == T('x', 'isinstance') and len(x[2]) == 2 and x[2][0] == subj:
            ks = x[2][1]
            names = [last(y) for y in (ks[1:] if ks[0] == 'tup' else (ks,))]
            ok = [n in allowed or n is not None and '@' + n in allowed for n in names]
            if w:
                return True if all(ok) else 'other'
            return [n for n in names]
        if kind in ('type', 'each') and x[0] == 'call' and x[1] == T('x', 'callable') and x[2] and x[2][0] == subj and 'Callable' in allowed:
            return True if w else ['Callable']
        if kind in ('type', 'each') and x[0] == 'call' and x[1] == T('x', 'hasattr') and x[2] and x[2][0] == subj and 'Callable' in allowed and len(x[2]) > 1 and x[2][1] == C('__call__'):
            return True if w else ['Callable']
        if kind in ('oneof', 'eachoneof') and x[0] == 'cmp' and subj in {y for z in x[2:4] for y in subterms(z)}:
            a, b = x[2], x[3]
            if x[1] in ('==', 'is'):
                o = b if subj in set(subterms(a)) else a
                v = o[2] if is_c(o) else '@' + str(last(o)) if last(o) else None
                if v is None:
                    return None
                if w:
                    return True if v in allowed else 'other'
                return [v]
            if x[1] == 'in' and subj in set(subterms(a)):
                vs = self.content(st, b)
                if vs is None and last(b):
                    vs = {'@' + last(b)}
                if vs is None:
                    return None
                if w:
                    return True if vs <= set(allowed) else 'other'
                return sorted(vs, key=str)
        return None

    def verdict(self, st, conds, subj, spec):
        """True: known to be acceptable; False: known not to be; None: not said;
        'odd': tested in a form not known; 'partly': some wrong one gets here"""
        rs = [self.literals(st, w, subj, spec) for w in worlds(conds)]
        if st is not None and not all(x is True for x in rs) and set(st.facts.get(('failed', None)) or ()) & {'*', spec[1]}:
            # a handler's state stands for every point of its try
            return 'mixed'
        for r in (False, 'other', 'odd', 'partly', None):
            if r in [x if x is not True else 'yes' for x in rs]:
                return r
        return True

    def literals(self, st, conds, subj, spec):
        allowed = set(spec[2]) if spec[2] else set()
        refused, odd, other = set(), False, False
        for c, w in conds.items():
            if c[0] == 'dnf':
                odd = odd or subj in set(subterms(c))
                continue
            r = self.test(st, c, w, subj, spec)
            if r is True:
                return True
            if r == 'other':
                other = True
            elif isinstance(r, list):
                refused |= set(r)
            elif c == T('truth', subj) and spec[3] is True:
                if not w:
                    return True
            elif asks(c, subj) and not (c[0] == 'cmp' and any(is_c(y) and y[2] is None for y in c[2:])):
                odd = True
        if other:
            return 'other'
        if allowed and {str(a).lstrip('@') for a in allowed} <= {str(r).lstrip('@') for r in refused}:
            return False
        if spec[0] in ('type', 'each') and refused:
            rest = {str(a).lstrip('@') for a in allowed} - {str(r).lstrip('@') for r in refused}
            return False if not rest or rest == {'OrderedDict'} or rest == {'DiGraph'} else 'partly'
        return 'partly' if refused else 'odd' if odd else None


def asks(c, subj):
    """can a condition be about the subject itself, and not about what is looked up with it"""
    if c == subj:
        return True
    if not isinstance(c, tuple) or subj not in set(subterms(c)):
        return False
    if c[0] == 'call' and c[1][0] == 'meth' and c[1][2] in ('get', 'keys', 'values', 'items'):
        return asks(c[1][1], subj)
    if c[0] == 'it':
        return asks(c[1], subj)
    return any(asks(x, subj) for x in c[1:] if isinstance(x, tuple))


def worlds(conds, cap=48):
    """the ways the conditions of a path can hold, as literals; what would take
    too many ways is left as it is"""
    flat = {c: w for c, w in conds.items() if c[0] != 'dnf'}
    out = [flat]
    for c, w in conds.items():
        if c[0] != 'dnf':
            continue
        if not all(l[0] == 'lit' for conj in c[1:] for l in conj[1:]):
            out = [dict(o, **{}) for o in out]
            for o in out:
                o[c] = w
            continue
        if w:
            groups = [[{l[1]: l[2][2] for l in conj[1:]} for conj in c[1:]]]
        else:
            groups = [[{l[1]: not l[2][2]} for l in conj[1:]] for conj in c[1:]]
        for g in groups:
            nxt = [dict(o) | alt for o in out for alt in g if all(o.get(k, v) == v for k, v in alt.items())]
            if len(nxt) > cap:
                for o in out:
                    o[c] = w
                break
            out = nxt
    return out


def feasible(st):
    return bool(worlds(st.conds))


def family(m, exc):
    if isinstance(exc, Cls):
        return {k.name if isinstance(k, Cls) else str(k).split('.')[-1] for k in m.mro(exc)} | {exc.name}
    return {str(exc)}


def refusals(ctx, m):
    ctx.rule('refused', 'no path that answers has found a wrong argument, every path that answers has found a right one, and what is raised for a wrong one is the documented exception')
    for name, specs in sorted(SPECS.items()):
        f = m.funcs.get('metaknowledge.' + name)
        if f is None:
            # moved within the package
            found = [x for x in m.funcs.values() if x.fid.split(':')[-1] == name.split(':')[-1]]
            f = found[0] if len(found) == 1 else None
        if f is None:
            ctx.undecided('refused', name, 'the function is not there')
            continue
        ctx.saw(f)
        params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} | {a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a is not None}
        cl = Refuse(m, f, specs)
        eng = Engine(m, cl, max_steps=1500000)
        try:
            rets, raises = eng.run(f, {}, f.cls if isinstance(f.cls, Cls) else None, {})
        except Budget:
            for s in specs:
                ctx.undecided('refused', '{} {}'.format(name, s[1]), 'too many paths')
            continue
        rets = [r for r in rets if feasible(r[0])]
        raises = [r for r in raises if feasible(r[0])]
        j = Judge(m, eng, None)
        for spec in specs:
            kind, p, allowed, none, excs = spec
            key = '{} {}'.format(name, p if isinstance(p, str) else '/'.join(p or ('',))).strip()
            key += ' ({})'.format(kind) if kind in ('each', 'eachoneof', 'some') else ''
            if isinstance(p, str) and p not in params:
                ctx.undecided('refused', key, 'the parameter is not there')
                continue
            ctx.count('refusals')
            bad = one(ctx, m, f, cl, j, rets, raises, spec, key)
            if bad is None:
                ctx.undecided('refused', key, 'the check is in a form that is not followed')
            else:
                ctx.ob('refused', key, not bad, bad[0] if bad else '', bad[1] if bad else f.where())


def kinds(m, exc, excs):
    return bool(family(m, exc) & set(excs))


def one(ctx, m, f, cl, j, rets, raises, spec, key):
    """() when the rule holds, (message, where) when not, None when not decided"""
    kind, p, allowed, none, excs = spec
    says = ' or '.join(excs)
    if kind == 'caught':
        if not cl.hazards:
            return None
        for st, v in rets:
            if st.facts.get(('failed', allowed)):
                return 'what {} refuses is answered'.format(allowed), f.where()
        for st, exc, node, imp in raises:
            if st.facts.get(('failed', allowed)) and not kinds(m, exc, excs):
                return 'what {} refuses leaves as {}, not {}'.format(allowed, getattr(exc, 'name', exc), says), f.where(node)
        return ()
    if kind == 'unless':
        # `none` is the value of the option that asks for an answer all the same
        says_so = 'set' if none else 'not set'
        ok = [r for r in raises if not r[3] and kinds(m, r[1], excs)]
        if not ok:
            return 'no path raises {}'.format(says), f.where()
        for st, exc, node, imp in ok:
            if st.conds.get(T('truth', T('p', p))) is none:
                return '{} is raised although {} is {}'.format(says, p, says_so), f.where(node)
        for st in [r[0] for r in rets if r[0].facts.get(('handled', allowed))] + [a[1] for a in cl.after if a[0] == allowed]:
            if any(w.get(T('truth', T('p', p))) is not none for w in worlds(st.conds)):
                return 'what cannot be answered is answered although {} is not {}'.format(p, says_so), f.where()
        return ()
    if kind == 'notboth':
        a, b = (T('truth', T('p', x)) for x in p)
        ok = [r for r in raises if not r[3] and r[0].conds.get(a) is True and r[0].conds.get(b) is True]
        for st, v in rets:
            if st.conds.get(a) is True and st.conds.get(b) is True:
                return 'both {} and {} are accepted'.format(*p), f.where()
        if not ok:
            if any(a in set(subterms(c)) and b in set(subterms(c)) for st, *_ in raises for c in st.conds):
                return None
            return 'having both {} and {} is never refused'.format(*p), f.where()
        for st, exc, node, imp in ok:
            if not kinds(m, exc, excs):
                return 'having both raises {}, not {}'.format(getattr(exc, 'name', exc), says), f.where(node)
        return ()
    if kind == 'some':
        subj = T('p', p)
        n = T('call', T('x', 'len'), (subj,))
        ok = [r for r in raises if not r[3] and r[0].conds.get(T('truth', subj)) is False]
        if any(st.conds.get(T('truth', subj)) is False for st, v in rets):
            return 'no {} are accepted'.format(p), f.where()
        if ok:
            wrong = [r for r in ok if not kinds(m, r[1], excs)]
            return ('having no {} raises {}, not {}'.format(p, getattr(wrong[0][1], 'name', wrong[0][1]), says), f.where(wrong[0][2])) if wrong else ()
        if any(subj in set(subterms(c)) and (n in set(subterms(c)) or c[0] == 'dnf') for st, *_ in raises for c in st.conds):
            return None
        return 'having no {} is never refused'.format(p), f.where()
    if kind == 'good':
        flag = T('at', T('p', 'self'), 'bad')
        at = [T('truth', flag)]
        seen = [r for r in raises if not r[3] and any(r[0].conds.get(a) is True for a in at)]
        for st, v in rets:
            if any(st.conds.get(a) is True for a in at):
                return 'a bad record is answered', f.where()
            if not any(st.conds.get(a) is False for a in at):
                return ('a bad record is not refused on every path', f.where()) if not any(flag in set(subterms(c)) for c in st.conds) else None
        if not seen:
            return None
        for st, exc, node, imp in seen:
            if not kinds(m, exc, excs):
                return 'a bad record raises {}, not {}'.format(getattr(exc, 'name', exc), says), f.where(node)
        return ()
    subj = T('p', p)
    if kind in ('each', 'eachoneof'):
        refs = [r for r in raises if not r[3] and kinds(m, r[1], excs)]
        checks = [x for x in cl.loops if x[0] == subj]
        for it, conds, w, loop in checks:
            v = j.verdict(None if kind == 'each' else rets[0][0] if rets else None, conds, T('el', subj), spec)
            if v is False or v in (None, 'partly', 'other') and isinstance(loop, ast.For) and any(node is x for st, e, node, i in refs for b in loop.body for x in ast.walk(b)):
                return 'an element of {} that is wrong is passed over'.format(p), w
        hit = [r for r in refs if any(of_elements(c, subj) for c in r[0].conds) or r[0].loops]
        if not hit:
            return 'wrong elements of {} are never refused'.format(p), f.where()
        wrong = [r for r in raises if not r[3] and j.verdict(r[0], r[0].conds, T('el', subj), spec) is False and not kinds(m, r[1], excs)]
        if wrong:
            return 'a wrong element raises {}, not {}'.format(getattr(wrong[0][1], 'name', wrong[0][1]), says), f.where(wrong[0][2])
        return ()
    verdicts = [(j.verdict(st, st.conds, subj, spec), st) for st, v in rets]
    inloop = [(j.verdict(st0, conds, subj, spec), w) for it, conds, w, _ in cl.loops for st0 in [rets[0][0] if rets else None]]
    for v, st in verdicts:
        if v is False:
            return 'a wrong {} is answered'.format(p), f.where()
        if v == 'other':
            return '{} is accepted as something else'.format(p), f.where()
    wrongs = 0
    for st, exc, node, imp in raises:
        if imp:
            continue
        v = j.verdict(st, st.conds, subj, spec)
        if v is False:
            wrongs += 1
            if not kinds(m, exc, excs):
                return 'a wrong {} raises {}, not {}'.format(p, getattr(exc, 'name', exc), says), f.where(node)
    for v, w in inloop:
        if v is False:
            return 'a wrong {} is passed over'.format(p), w
    if none == 'loop':
        if wrongs:
            return ()
        return ('a wrong {} is never refused'.format(p), f.where()) if not any(v in ('odd', 'partly') for v, _ in verdicts + inloop) else None
    for v, st in verdicts:
        if v is None:
            return '{} is not checked on every path'.format(p), f.where()
        if v == 'partly':
            return 'some wrong {} is answered'.format(p), f.where()
    if any(v == 'odd' for v, _ in verdicts) or not wrongs:
        # not followed: but is there a refusal at all?
        said = [r for r in raises if not r[3] and any(subj in set(subterms(c)) for c in r[0].conds)]
        if not said and rets and not elsewhere(m, cl, subj, excs):
            return 'a wrong {} is never refused'.format(p), f.where()
        return None
    return ()


def of_elements(c, subj):
    """a condition that can be about what the subject holds"""
    if c[0] == 'dnf':
        return any(l[0] != 'lit' or of_elements(l[1], subj) for conj in c[1:] for l in conj[1:])
    whole = {subj} | {x for x in subterms(c) if x[0] in ('r', 'comp', 'tup')}
    for x in subterms(c):
        if x == T('el', subj) or x == T('it', subj, C(0)) or x[0] in ('comp', 'r'):
            return True
        if x[0] == 'call' and x[1][0] == 'x' and x[1][1] in ('any', 'all', 'set', 'frozenset', 'map', 'filter', 'sum', 'next', 'sorted', 'list', 'tuple') and set(subterms(x)) & whole:
            return True
        if x[0] == 'cmp' and x[1] == 'in' and x[3] == subj:
            return True
    return False


def elsewhere(m, cl, subj, excs):
    """a function that is given the subject and may refuse it"""
    for fid, args in cl.given:
        if subj in args:
            g = m.funcs.get(fid)
            if g is None or any(isinstance(n, ast.Raise) for n in ast.walk(g.node)):
                return True
    return False


def strings(ctx, m, c, f, p):
    from . import c24
    eng = Engine(m, c24.Client(f), 400000)
    sub = next((k for k in m.classes.values() if k.name == 'WOSRecord'), c)
    try:
        rets, raises = eng.run(f, {}, sub, {})
    except Budget:
        return
    key = T('p', p)
    tests = {(k, w) for st in [r[0] for r in rets] + [r[0] for r in raises] for k, w in st.conds.items() if k[0] == 'call' and k[1] == T('x', 'isinstance') and k[2] and k[2][0] == key}
    if not tests:
        ctx.undecided('refused', f.fid + ' tag', 'no test of the kind of the tag')
        return
    wide = [k for k, w in tests if k[2][1] != T('x', 'str')]
    ctx.ob('refused', f.fid + ' tag', not wide, 'a tag that is no string is looked up', f.where())
    for st, exc, node, imp in raises:
        if not imp and any(k in st.conds and st.conds[k] is False for k, w in tests if k[2][1] == T('x', 'str')):
            ctx.ob('refused', f.fid + ' tag', bool(kinds(m, exc, ('TypeError',))), 'a tag that is no string leaves as {}'.format(getattr(exc, 'name', exc)), f.where(node))


def swallowed(ctx, m):
    """a lookup of what the caller gave refuses what is no string with a TypeError: nothing on the way out turns that into an answer"""
    for c in m.classes.values():
        if c.name != 'ExtendedRecord' and not any(isinstance(k, Cls) and k.name == 'ExtendedRecord' for k in m.mro(c)):
            continue
        for f in c.methods.values():
            ps = [a.arg for a in f.node.args.args] if not isinstance(f.node, ast.Lambda) else []
            if f.kind != 'method' or len(ps) < 2 or f.name in ('__contains__', '__init__'):
                continue
            if f.name == '__getitem__':
                strings(ctx, m, c, f, ps[1])
            for t in ast.walk(f.node):
                if not isinstance(t, ast.Try):
                    continue
                asked = [x for s in t.body for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == ps[0]
                         and isinstance(x.slice, ast.Name) and x.slice.id in ps[1:]]
                checked = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance' for x in ast.walk(f.node))
                if not asked or checked:
                    continue
                for h in t.handlers:
                    names = [y.attr if isinstance(y, ast.Attribute) else getattr(y, 'id', '') for y in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ['BaseException']
                    wide = [n for n in names if n in ('TypeError', 'Exception', 'BaseException')]
                    ends = any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s))
                    ctx.ob('refused', '{} asked for no string'.format(f.fid), not wide or ends, 'the refusal of a tag that is no string is caught and answered', f.where(h))


def built(ctx, m):
    """an exception that is made is raised, kept or handed on"""
    ctx.rule('built', 'an exception that is built is raised or handed on beside the answer, never dropped and never given as the answer')
    ctx.rule('family', 'every exception of the package belongs to its documented family')
    excs = {k.cid for k in m.classes.values() if any((x.name if isinstance(x, Cls) else str(x).split('.')[-1]) in ('Exception', 'mkException', 'Warning', 'BaseException') for x in m.mro(k)[1:])}
    import builtins

    def is_exc(mod, e):
        if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)):
            return False
        r = m.resolve_expr(mod, e.func)
        if r is None:
            return False
        if r[0] == 'k':
            return r[1].cid in excs
        if r[0] == 'x' and '.' not in r[1]:
            o = getattr(builtins, r[1], None)
            return isinstance(o, type) and issubclass(o, BaseException)
        return False
    for fid, f in sorted(m.funcs.items()):
        for n in ast.walk(f.node):
            if not is_exc(f.mod, n):
                continue
            ctx.count('exceptions built')
            par = getattr(n, '_parent', None)
            key = '{} {}'.format(fid, ast.unparse(n.func))
            if isinstance(par, ast.Expr):
                ctx.ob('built', key, False, 'an exception is built and dropped', f.where(n))
            elif isinstance(par, ast.Return) or isinstance(par, ast.IfExp) and isinstance(getattr(par, '_parent', None), ast.Return):
                # given as the answer: only where it is what callers ask for
                rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
                other = [x for x in rets if not is_exc(f.mod, x.value) and not (isinstance(x.value, ast.Constant) and x.value.value is None)]
                ctx.ob('built', key, not (other or used_as_value(m, f)) or raised_by_callers(m, f), 'an exception is given as the answer', f.where(n))
            elif isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
                v = par.targets[0].id
                used = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node))
                ctx.ob('built', key, used, 'an exception is built and dropped', f.where(n))
            else:
                ctx.ob('built', key, True)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Name, ast.Attribute)):
                r = m.resolve_expr(f.mod, n.value)
                if r and r[0] == 'k' and r[1].cid in excs:
                    ctx.ob('built', '{} {}'.format(fid, ast.unparse(n.value)), False, 'an exception is named and dropped', f.where(n))
    for k in sorted(m.classes.values(), key=lambda k: k.cid):
        if k.cid not in excs or k.name == 'mkException':
            continue
        fam = {x.name if isinstance(x, Cls) else str(x).split('.')[-1] for x in m.mro(k)}
        for want in FAMILIES.get(k.name, ()):
            ctx.ob('family', '{} {}'.format(k.name, want), want in fam, '{} cannot be caught as {}'.format(k.name, want), k.mod.rel)
        ctx.ob('family', k.name, 'mkException' in fam or 'Warning' in fam, '{} cannot be caught as mkException'.format(k.name), k.mod.rel)


def used_as_value(m, f):
    return True


def raised_by_callers(m, f):
    """every call of f is the operand of a raise"""
    calls = []
    for g in m.funcs.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == f.name:
                calls.append(n)
    return bool(calls) and all(isinstance(getattr(n, '_parent', None), ast.Raise) for n in calls)


def run(ctx):
    m = ctx.model
    refusals(ctx, m)
    swallowed(ctx, m)
    built(ctx, m)
