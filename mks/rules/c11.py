"""C11: what is written is written in the format it is read in: the lines a
record is written as, the header, order and end of the file, the encoding, the
way csv files are opened, and the columns of the graph files."""
import ast
import string

from ..clients import Base
from ..table import order_atom
from ..interp import Budget, C, Engine, T, alts, is_c, show, subterms
from ..model import Cls
from .graphrows import graph_rows

# what the formats are: (first line of a field, further lines, end of a record)
# a tag is padded to PAD characters, what is kept starts at BODY
FORMATS = {
    'WOS': dict(cls='WOSRecord', writer='WOS.recordWOS:WOSRecord.writeRecord', reader='WOS.recordWOS:recordParser', pad=2, sep=' ', cont='   ', end='ER\n', body=3, tag=2),
    'medline': dict(cls='MedlineRecord', writer='medline.recordMedline:MedlineRecord.writeRecord', reader='medline.recordMedline:medlineRecordParser', pad=4, sep='- ', cont='      ', end='', body=6, tag=4),
}


MARK = ('loop',)


def cat(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return tuple(out)


def seqs(parts):
    out = [()]
    for p in parts:
        out = [o + q for o in out for q in p]
        if len(out) > 64:
            return None
    return out


def pieces(eng, st, t, depth=0):
    """the ways a text can be made up: tuples of constant texts and terms"""
    if depth > 8:
        return [(t,)]
    if t[0] == 'j':
        return [q for a in alts(t) for q in pieces(eng, st, a, depth + 1)][:64]
    if is_c(t):
        return [(t[2],)] if isinstance(t[2], str) else [(str(t[2]),)]
    parts = None
    if t[0] == 'bin' and t[1] == '+':
        parts = [pieces(eng, st, x, depth + 1) for x in t[2:4]]
    elif t[0] == 'fstr':
        parts = [pieces(eng, st, x, depth + 1) for x in (t[1] if isinstance(t[1], tuple) and t[1] and not isinstance(t[1][0], str) else t[1:])]
    elif t[0] == 'fmtv' and is_c(t[2]):
        return spec(eng, st, t[1], t[2][2], depth)
    elif t[0] == 'bin' and t[1] == '*' and any(is_c(x) and isinstance(x[2], str) for x in t[2:4]):
        s, n = (t[2], t[3]) if is_c(t[2]) and isinstance(t[2][2], str) else (t[3], t[2])
        if s[2] == ' ' and n[0] == 'bin' and n[1] == '-' and is_c(n[2]) and n[3][0] == 'call' and n[3][1] == T('x', 'len'):
            return [(('pad', n[3][2][0], n[2][2]),)]
        return [(t,)]
    elif t[0] == 'bin' and t[1] == '%' and is_c(t[2]) and isinstance(t[2][2], str):
        vals = list(t[3][1:]) if t[3][0] == 'tup' else [t[3]]
        bits = t[2][2].split('%s')
        if len(bits) == len(vals) + 1 and '%' not in t[2][2].replace('%s', ''):
            parts = []
            for b, v in zip(bits, vals + [None]):
                parts.append([(b,)])
                if v is not None:
                    parts.append(pieces(eng, st, v, depth + 1))
    elif t[0] == 'call' and t[1][0] == 'x' and t[1][1] == 'str' and len(t[2]) == 1:
        return pieces(eng, st, t[2][0], depth + 1)
    elif t[0] == 'call' and t[1][0] == 'meth':
        recv, name = t[1][1], t[1][2]
        if name == 'format' and is_c(recv) and isinstance(recv[2], str):
            parts, auto = [], 0
            try:
                for lit, field, sp, conv in string.Formatter().parse(recv[2]):
                    parts.append([(lit,)])
                    if field is None:
                        continue
                    if field == '':
                        field, auto = str(auto), auto + 1
                    if not field.isdigit() or int(field) >= len(t[2]):
                        return [(t,)]
                    parts.append(spec(eng, st, t[2][int(field)], sp or '', depth))
            except ValueError:
                return [(t,)]
        elif name == 'ljust' and t[2] and is_c(t[2][0]) and (len(t[2]) == 1 or t[2][1] == C(' ')):
            return [p + (('pad', recv, t[2][0][2]),) for p in pieces(eng, st, recv, depth + 1)]
        elif name == 'join' and is_c(recv) and len(t[2]) == 1:
            a = t[2][0]
            o = eng.obj(st, a) if a[0] == 'r' else None
            if o is not None and o.seq is not None and o.exact:
                parts = []
                for i, x in enumerate(o.seq):
                    parts += ([[(recv[2],)]] if i else []) + [pieces(eng, st, x, depth + 1)]
            elif o is not None and len(o.bag) == 1:
                el = next(iter(o.bag))[0]
                ps = pieces(eng, st, el, depth + 1)
                return [(('join', recv[2], cat(p)),) for p in ps]
            elif a[0] not in ('r', 'tup', 'j'):
                return [(('join', recv[2], (T('el', a),)),)]
            elif a[0] == 'tup':
                parts = []
                for i, x in enumerate(a[1:]):
                    parts += ([[(recv[2],)]] if i else []) + [pieces(eng, st, x, depth + 1)]
        elif name == 'replace' and len(t[2]) == 2 and all(is_c(x) for x in t[2]):
            return [(('rep', recv, t[2][0][2], t[2][1][2]),)]
    if parts is None:
        return [(t,)]
    r = seqs(parts)
    return [(t,)] if r is None else [cat(x) for x in r]


def spec(eng, st, v, sp, depth):
    if sp in ('', 's'):
        return pieces(eng, st, v, depth + 1)
    if sp.lstrip('<').rstrip('s').isdigit():
        n = int(sp.lstrip('<').rstrip('s'))
        return [p + (('pad', v, n),) for p in pieces(eng, st, v, depth + 1)]
    return [(('fmt', v, sp),)]


class Text(Base):
    """the text written to files, per iteration of the innermost loop"""
    exact_conds = True
    max_states = 120

    def __init__(self, m, top, helpers=()):
        self.m, self.top, self.helpers = m, top, helpers
        self.units, self.before = [], []
        self.opens = []

    def inline(self, eng, fn, st):
        return fn is self.top or fn.mod is self.top.mod and fn.cls is None and fn.parent is None and any(isinstance(n, ast.Attribute) and n.attr == 'write' for n in ast.walk(fn.node))

    def put(self, st, ps):
        cur = st.facts.get(('out',), frozenset([()]))
        new = frozenset(cat(c + p) for c in cur for p in ps)
        st.facts[('out',)] = new if len(new) <= 64 else frozenset([(('?',),)])

    def on_call(self, eng, st, node, name, recv, args, kw):
        short = name.replace(':', '.').split('.')[-1]
        if short == 'write' and recv is not None and len(args) == 1:
            self.put(st, pieces(eng, st, args[0]))
        elif short == 'writelines' and recv is not None and len(args) == 1:
            self.put(st, pieces(eng, st, T('call', T('meth', C(''), 'join'), (args[0],))))
        elif short == 'print' and 'file' in kw:
            ps = seqs([pieces(eng, st, a) for a in args[:1]] + [[(kw['end'][2] if 'end' in kw and is_c(kw['end']) else '\n',)]])
            self.put(st, ps if len(args) <= 1 and ps else [(('?',),)])
        elif short == 'writeRecord':
            self.put(st, [(('rec', recv),)])
        elif short == 'open' and (recv is None or name.startswith('io.')):
            self.opens.append((st.copy(), list(args), dict(kw), eng.where(node)))
            st.facts[('enc',)] = frozenset([kw.get('encoding', args[3] if len(args) > 3 else None)])

    def join_fact(self, k, a, b):
        if k == ('out',):
            if a is None or b is None:
                return (a or frozenset([()])) | (b or frozenset([()]))
            return a | b
        if k == ('enc',) or k[0] == 'pre':
            return (a or frozenset([None])) | (b or frozenset([None])) if not (a is None and b is None) else None
        return Base.join_fact(self, k, a, b)

    def on_mutate(self, eng, st, node, t, how, value):
        for v in value if isinstance(value, (list, tuple)) and not (value and isinstance(value[0], str)) else [value]:
            self.on_add(eng, st, t, v, node)

    def on_add(self, eng, st, t, v, node):
        """a line that is made first and written later"""
        vs = [v]
        if isinstance(v, tuple) and v and v[0] == 'r':
            o = eng.obj(st, v)
            vs = [x for x in o.seq or ()] if o is not None else []
        elif isinstance(v, tuple) and v and v[0] == 'tup':
            vs = v[1:]
        for x in vs:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('bin', 'call', 'fstr'):
                for p in pieces(eng, st, x):
                    if len(p) > 1 and isinstance(p[-1], str) and p[-1].endswith('\n'):
                        self.units.append((node, None, frozenset([p]), {}, eng.where(node), 'made'))

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        out = st.facts.get(('out',), frozenset([()]))
        if phase == 'enter':
            self.before.append((node, out, len(st.loops)))
            st.facts[('pre', node)] = out
            st.facts[('out',)] = frozenset([()])
        elif phase in ('iter-end', 'break'):
            self.units.append((node, it, out, dict(st.conds), eng.where(node), phase))
            st.facts[('out',)] = frozenset(p + (MARK,) for p in st.facts.get(('pre', node), frozenset([()])))
        elif phase == 'exit':
            st.facts[('out',)] = frozenset(p if p[-1:] == (MARK,) else p + (MARK,) for p in out)


def followed(p, d):
    """False when a part of the text is carried over from elsewhere"""
    return not any(isinstance(x, tuple) and any(y[0] in ('phi', 'j') for y in subterms(x) if isinstance(y, tuple) and y) for x in p if isinstance(x, tuple) and x[0] not in ('pad', 'rep', 'join', 'rec', 'loop', 'fmt', '?'))


def line_ok(fmt, p):
    """is this text one line (or some lines) of a field: 'first', 'cont' or None"""
    d = FORMATS[fmt]
    p = list(p)
    if not p or not isinstance(p[-1], str) or not p[-1].endswith('\n') or p[-1] != '\n':
        return None
    p = p[:-1]
    if fmt == 'WOS':
        if len(p) == 3 and not isinstance(p[0], str) and p[1] == d['sep'] and not isinstance(p[2], str):
            return 'first'
        if len(p) == 2 and p[0] == d['cont'] and not isinstance(p[1], str):
            return 'cont'
        return None
    if len(p) == 4 and not isinstance(p[0], str) and p[1] == ('pad', p[0], d['pad']) and p[2] == d['sep'] and isinstance(p[3], tuple):
        v = p[3]
        return 'first' if v[0] == 'rep' and v[2] == '\n' and v[3] == '\n' + d['cont'] else 'bare'
    return None


def run_text(ctx, m, fid, rule):
    f = m.funcs.get('metaknowledge.' + fid)
    if f is None:
        ctx.undecided(rule, fid, 'the function is not there')
        return None
    ctx.saw(f)
    cl = Text(m, f)
    eng = Engine(m, cl, max_steps=1500000)
    try:
        rets, raises = eng.run(f, {}, f.cls if isinstance(f.cls, Cls) else None, {})
    except Budget:
        ctx.undecided(rule, fid, 'too many paths')
        return None
    return f, cl, eng, rets, raises


def known(p):
    return all(isinstance(x, str) or isinstance(x, tuple) and x and x[0] != '?' for x in p)


def writers(ctx, m):
    ctx.rule('lines', 'every line a record is written as has the layout of its format: tag, separator, value, line end; continuation lines; the end mark once, last')
    for fmt in sorted(FORMATS):
        d = FORMATS[fmt]
        r = run_text(ctx, m, d['writer'], 'lines')
        if r is None:
            continue
        f, cl, eng, rets, raises = r
        texts, odd = [], False
        for node, it, out, conds, where, phase in cl.units:
            for p in out:
                p = tuple(x for x in p if x != MARK)
                if p == ():
                    continue
                if followed(p, d) is False:
                    odd = True
                    ctx.undecided('lines', d['writer'], 'a line is made in a form that is not followed')
                    continue
                if any(isinstance(x, tuple) and x[0] == 'join' and x[1] == '\n' + d['cont'] for x in p):
                    texts.append(('cont', {}, where, it))
                k = line_ok(fmt, p)
                if k is None and fmt == 'medline' and len(p) == 1 and not isinstance(p[0], str) and not p[0][0] in ('pad', 'rep', 'fmt'):
                    # lines made before and written later
                    continue
                ctx.count('lines written')
                ctx.ob('lines', '{} {}'.format(d['writer'], k or 'other'), k in ('first', 'cont'),
                       'a line is written as {}'.format(' '.join(repr(x) if isinstance(x, str) else '<{}>'.format(x[0] if x[0] in ('pad', 'rep') else 'value') for x in p))
                       + (' without marking the further lines of its value' if k == 'bare' else ''), where)
                texts.append((k, conds, where, it))
        if fmt == 'WOS':
            for k, conds, where, it in texts:
                first = [w for c, w in conds.items() if c[0] == 'cmp' and c[1] in ('==', 'is') and C(0) in c[2:] and any(x[0] == 'idx' for x in c[2:])]
                if first and k in ('first', 'cont'):
                    ctx.ob('lines', d['writer'] + ' order', all(w == (k == 'first') for w in first), 'the tag is not on the first line of its field', where)
            ctx.ob('lines', d['writer'] + ' kinds', odd or {'first', 'cont'} <= {k for k, *_ in texts} or not texts, 'fields with several values are not written with continuation lines', f.where())
        for st, v in rets:
            for p in st.facts.get(('out',), frozenset([()])):
                if not known(p):
                    continue
                p = cat(p[max((i for i, x in enumerate(p) if x == MARK), default=-1) + 1:])
                if p and not any(isinstance(x, str) for x in p) or followed(p, d) is False:
                    ctx.undecided('lines', d['writer'] + ' end', 'the text is made in a form that is not followed')
                    continue
                ctx.ob('lines', d['writer'] + ' end', cat(p) == ((d['end'],) if d['end'] else ()), 'a record ends with {!r}'.format(''.join(x if isinstance(x, str) else '<>' for x in p)), f.where())
    r = run_text(ctx, m, 'scopus.recordScopus:ScopusRecord.writeRecord', 'lines')
    if r is not None:
        f, cl, eng, rets, raises = r
        for st, v in rets:
            for p in st.facts.get(('out',), frozenset([()])):
                p = cat(x for x in p if x != MARK)
                key = 'scopus.recordScopus:ScopusRecord.writeRecord'
                if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'join':
                    _, sep, el = p[0]
                    tab = [x for e in el if isinstance(e, tuple) for x in subterms(e) if x[0] == 'el' and x[1][0] == 'g']
                    ok = sep == ',' and len(el) == 3 and el[0] == '"' and el[2] == '"' and bool(tab) and tab[0][1][-1] == 'scopusHeader'
                    miss = [x for e in el if isinstance(e, tuple) for x in subterms(e) if x[0] == 'call' and x[1][0] == 'meth' and x[1][2] == 'get']
                    ctx.ob('lines', key, ok, 'a row is not the quoted fields in the order of the header', f.where())
                    if miss:
                        ctx.ob('lines', key + ' missing', all(len(x[2]) == 2 and x[2][1] == C('') for x in miss), 'a field that is not there is not written as empty', f.where())
                    ctx.count('lines written')
                elif p == ():
                    ctx.ob('lines', key, False, 'a row is not written on every path', f.where())
                elif isinstance(p[-1], str) and p[-1].endswith('\n'):
                    ctx.ob('lines', key, False, 'a row carries its own line end', f.where())
                else:
                    ctx.undecided('lines', key, 'the row is made in a form that is not followed')


class Read(Base):
    exact_conds = True
    max_states = 80

    def __init__(self, m, top):
        self.m, self.top = m, top
        self.stored = []

    def inline(self, eng, fn, st):
        return fn is self.top

    def on_mutate(self, eng, st, node, t, how, value):
        vs = [x for x in (value if isinstance(value, (list, tuple)) and not (value and isinstance(value[0], str)) else [value]) if isinstance(x, tuple)]
        vs += [how] if isinstance(how, tuple) else []
        self.stored.append((vs, dict(st.conds), eng.where(node), st.copy()))

    def on_add(self, eng, st, t, v, node):
        self.stored.append(([v], dict(st.conds), eng.where(node), st.copy()))


def num(t):
    return None if not is_c(t) else t[2]


def readers(ctx, m):
    ctx.rule('reading', 'the tag, the value and the marks are taken from the columns of the line they are written to')
    for fmt in sorted(FORMATS):
        d = FORMATS[fmt]
        fid = d['reader']
        f = m.funcs.get('metaknowledge.' + fid)
        if f is None:
            ctx.undecided('reading', fid, 'the function is not there')
            continue
        ctx.saw(f)
        cl = Read(m, f)
        eng = Engine(m, cl, max_steps=1500000)
        try:
            rets, raises = eng.run(f, {}, None, {})
        except Budget:
            ctx.undecided('reading', fid, 'too many paths')
            continue
        par = T('p', f.node.args.args[0].arg)
        line = T('it', T('el', par), C(1))

        def slices(t):
            return [(x, num(x[2][1]), num(x[2][2])) for x in subterms(t) if x[0] == 'it' and x[1] == line and x[2][0] == 'slice']
        for vs, conds, where, st in cl.stored:
            for v in vs:
                if v[0] == 'r':
                    o = eng.obj(st, v)
                    more = [x for x in (o.seq or ())] + [b[0] for b in o.bag] if o is not None else []
                elif v[0] == 'tup':
                    more = [x for y in v[1:] if y[0] == 'r' for o in [eng.obj(st, y)] if o is not None for x in (o.seq or ())]
                else:
                    more = []
                for x, a, b in [s for y in [v] + more for s in slices(y)]:
                    ctx.count('columns read')
                    is_t = a in (None, 0)
                    ok = b == d['tag'] if is_t else a == d['body'] and b in (-1, None)
                    ctx.ob('reading', '{} {}'.format(fid, 'tag' if is_t else 'value'), ok, 'the {} is taken from columns {} to {} of the line'.format('tag' if is_t else 'value', a or 0, b), where)
                whole = [x for y in [v] + more for x in subterms(y) if x == line]
                used = [x for y in [v] + more for x in subterms(y) if x[0] == 'it' and x[1] == line]
                if whole and not used:
                    ctx.undecided('reading', fid + ' columns', 'the line is taken apart in a form that is not followed')
        marks = {'WOS': [(None, 2, 'ER'), (None, 3, '   ')], 'medline': [(None, 6, '      ')]}[fmt]
        seen = set()
        allconds = [dict(r[0].conds) for r in rets + raises] + [c for _, c, _, _ in cl.stored]
        for conds in allconds:
            for c in conds:
                for q in subterms(c):
                    if q[0] == 'cmp' and any(is_c(x) and isinstance(x[2], str) for x in q[2:4]):
                        s = [x[2] for x in q[2:4] if is_c(x) and isinstance(x[2], str)][0]
                        for x, a, b in slices(q):
                            seen.add((a, b, s))
        for a, b, s in marks:
            hits = {(x, y) for x, y, z in seen if z == s}
            if hits:
                ctx.ob('reading', '{} mark {!r}'.format(fid, s), all((x or 0) == 0 and y == len(s) for x, y in hits), 'the mark {!r} is looked for in columns {}'.format(s, sorted(hits, key=str)), f.where())
            else:
                starts = any(q[0] == 'call' and q[1][0] == 'meth' and q[1][2] == 'startswith' and q[2] and q[2][0] == C(s) for conds in allconds for c in conds for q in subterms(c))
                other = sorted({z for x, y, z in seen if z.strip() == s.strip() and z != s})
                if other:
                    ctx.ob('reading', '{} mark {!r}'.format(fid, s), False, '{!r} is looked for instead of {!r}'.format(other[0], s), f.where())
                elif not starts:
                    ctx.undecided('reading', '{} mark {!r}'.format(fid, s), 'the mark is looked for in a form that is not followed')
        if fmt == 'WOS':
            from .c23 import worlds
            for st, v in rets:
                ws = worlds(st.conds)
                er = [any(w and c[0] != 'none' and 'ER' in [x[2] for x in subterms(c) if is_c(x)] for c, w in lits.items()) for lits in ws]
                ctx.ob('reading', fid + ' end', all(er), 'a record is answered although its end mark was not found', f.where())


def record_parsers(ctx, m):
    """every parser of one record: what it has read stays, and the end of the text is not the end of the record"""
    for fid, f in sorted(m.funcs.items()):
        if f.cls is not None or not f.name.lower().endswith('recordparser') or '.grants' in f.mod.name or '.bin' in f.mod.name:
            continue
        ctx.saw(f)
        back = {x.id for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.In) and isinstance(n.test.comparators[0], ast.Name) and n.test.comparators[0].id in back:
                k, d = ast.dump(n.test.left), n.test.comparators[0].id
                for x in n.body:
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == d and ast.dump(t.slice) == k for t in x.targets):
                        names = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                        before = {y.id for z in n.body if z is not x and z.lineno < x.lineno for w in ast.walk(z) if isinstance(w, ast.Name) and w.id == d for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                        ctx.ob('reading', fid + ' further lines', d in names or bool(names & before), 'a further line of a value replaces what was read before', f.where(x))
            if isinstance(n, ast.ExceptHandler) and n.type is not None and any(getattr(y, 'id', getattr(y, 'attr', '')) == 'StopIteration' for y in ast.walk(n.type)):
                p = n._parent
                if not any(isinstance(y, ast.Call) and getattr(y.func, 'id', getattr(y.func, 'attr', '')) in ('next', '__next__') for b in p.body for y in ast.walk(b)):
                    continue
                if f.mod.name.rsplit('.', 1)[-1] == 'recordMedline':
                    continue        # a blank line or the end of the file ends a record
                stops = any(isinstance(y, (ast.Break, ast.Return)) for b in n.body for y in ast.walk(b))
                ctx.ob('reading', fid + ' cut off', not stops, 'a record that is cut off is answered as if it were whole', f.where(n))


def whole_file(ctx, m):
    ctx.rule('file', 'a collection of one kind is written with the header its detector looks for, every record once and on lines of its own, and the end mark its parser needs, in the encoding its parser reads')
    fid = 'recordCollection:RecordCollection.writeFile'
    r = run_text(ctx, m, fid, 'file')
    if r is None:
        return
    f, cl, eng, rets, raises = r
    types = T('at', T('p', 'self'), '_collectedTypes')

    def kind(st):
        """the single type the path has found, False for one of several, None when not said"""
        refused, is_it = set(), set()
        for c, w in st.conds.items():
            if c[0] == 'cmp' and c[1] == '==' and types in c[2:4]:
                o = [x for x in c[2:4] if x != types][0]
                vals = None
                if o[0] == 'r':
                    ob = eng.obj(st, o)
                    if ob is not None and ob.bag:
                        vals = {b[0][2] for b in ob.bag if is_c(b[0])}
                    elif ob is not None and ob.seq is not None:
                        vals = {x[2] for x in ob.seq if is_c(x)}
                if vals and len(vals) == 1:
                    if w:
                        is_it |= vals
                    else:
                        refused |= vals
        if is_it & refused or len(is_it) > 1:
            return 'no'
        return next(iter(is_it)) if is_it else frozenset(refused)
    encs = {}
    for d in FORMATS.values():
        encs[d['cls']] = encoding_of(m, d['cls'])
    encs['ScopusRecord'] = encoding_of(m, 'ScopusRecord')
    recloops = [(node, it, out, conds, where, ph) for node, it, out, conds, where, ph in cl.units if any(x[0] == 'rec' for p in out for x in p if isinstance(x, tuple))]
    nodes = {u[0] for u in recloops}
    if not nodes:
        ctx.undecided('file', fid, 'no loop writes the records')
        return
    for node, it, out, conds, where, ph in cl.units:
        if node not in nodes:
            continue
        for p in out:
            recs = [x for x in p if isinstance(x, tuple) and x[0] == 'rec']
            ctx.ob('file', fid + ' each record once', len(recs) == 1 and ph == 'iter-end', 'a record is written {}'.format('not at all' if not recs else 'more than once' if len(recs) > 1 else 'and then the others are not'), where)
            if len(recs) == 1:
                rest = [x for x in p if not (isinstance(x, tuple) and x[0] == 'rec')]
                ctx.ob('file', fid + ' lines of its own', p[-1] == '\n' and len(p) == 2 and len(rest) == 1, 'a record is not followed by exactly one line end', where)
                ctx.ob('file', fid + ' the record', recs[0][1] is None or recs[0][1][0] != 'el' or it is None or recs[0][1][1] in set(subterms(it)), 'what is written is not the record the loop is at', where)
            ctx.ob('file', fid + ' all records', it is None or it[0] != 'r' and it[0] != 'it' or it[0] == 'r', 'not all records are written', where)
    size = T('call', T('x', 'len'), (types,))

    def fits(st, n):
        """can a collection of n kinds take this path? (None: not known)"""
        def says(c):
            if c[0] == 'dnf':
                rs = [[says(x[1]) if says(x[1]) is None else says(x[1]) == (x[2] == C(True)) for x in g[1:]] for g in c[1:]]
                rs = [False if False in r else None if None in r else True for r in rs]
                return True if True in rs else None if None in rs else False
            if c == T('truth', types) or c == T('truth', size):
                return n > 0
            return order_atom(c, lambda t: n if t == size else None)
        rs = [(says(c), w) for c, w in st.conds.items() if types in subterms(c) and not (c[0] == 'cmp' and c[1] == '==' and types in c[2:4])]
        if any(x is not None and x != w for x, w in rs):
            return False
        return None if any(x is None for x, w in rs) else True
    seen = set()
    for st, v in rets:
        k = kind(st)
        if k == 'no':
            continue
        for o in st.facts.get(('out',), frozenset([()])):
            at = [i for i, x in enumerate(o) if x == MARK]
            if at and not any(isinstance(x, tuple) and x[0] == '?' for x in o):
                layout(ctx, fid, f, k, cat(o[:at[0]]), cat(x for x in o[at[0]:] if x != MARK), seen)
        for e in st.facts.get(('enc',), frozenset()):
            if e is None:
                ctx.ob('file', fid + ' encoding', False, 'the file is written in the encoding of the machine', f.where())
            elif is_c(e) and isinstance(k, str) and encs.get(k):
                if fits(st, 1):
                    ctx.ob('file', fid + ' encoding', norm(e[2]) == norm(encs[k]), 'records read as {} are written as {}'.format(encs[k], e[2]), f.where())
            elif e[0] == 'call' and e[1][0] == 'meth' and e[1][2] == 'encoding':
                told = fits(st, 2)
                mixed = not isinstance(k, str) and told is not False
                if mixed and told is None:
                    ctx.undecided('file', fid + ' encoding', 'when the encoding of one record is used')
                else:
                    ctx.ob('file', fid + ' encoding', not mixed, 'a collection of several kinds is written in the encoding of one of its records', f.where())
    for want in ('WOSRecord', 'MedlineRecord', 'ScopusRecord'):
        ctx.ob('file', '{} {}'.format(fid, want), want in seen or not seen, 'no path writes a collection of {}s in their format'.format(want), f.where())


def layout(ctx, fid, f, k, pre, post, seen):
    txt = ''.join(x for x in pre if isinstance(x, str))
    end = ''.join(x for x in post if isinstance(x, str))
    joins = [x for x in pre if isinstance(x, tuple) and x[0] == 'join']
    look = 'WOSRecord' if 'VR 1.0' in txt else 'ScopusRecord' if joins else 'MedlineRecord' if txt.strip('\n') == '' and txt else None if not txt else 'other'
    if isinstance(k, str):
        seen.add(k)
        want = k if k in ('WOSRecord', 'MedlineRecord', 'ScopusRecord') else None
        ctx.ob('file', '{} header of {}'.format(fid, k), look == want or k == 'MedlineRecord' and look is None, 'a collection of {}s starts with {!r}'.format(k, txt[:40]), f.where())
    elif k:
        for x in k:
            ctx.ob('file', '{} header of others'.format(fid), look != x, 'a collection of other records starts with the header of {}s'.format(x), f.where())
    if isinstance(k, str) or k:
        ctx.ob('file', '{} end'.format(fid), (end in ('EF', 'EF\n')) == (k == 'WOSRecord') and (k == 'WOSRecord' or end == ''), 'a collection of {} ends with {!r}'.format(k if isinstance(k, str) else 'other records', end), f.where())
    if look == 'WOSRecord':
        ls = txt.lstrip('\ufeff').split('\n')
        at = [i for i, l in enumerate(ls) if 'VR 1.0' in l][0]
        ctx.ob('file', fid + ' WOS header', at < 3 and ls[at + 1:] == [''], 'the version line is not the last line of the header, or too late to be found', f.where())
    if look == 'ScopusRecord':
        ctx.ob('file', fid + ' Scopus header', len(pre) == 3 and pre[0] == '\ufeff' and pre[2] == '\n' and joins[0][1] == ',' and len(joins[0][2]) == 1 and joins[0][2][0][0] == 'el' and joins[0][2][0][1][-1] == 'scopusHeader',
               'the header is not the byte order mark and the line of column names', f.where())
    if look == 'MedlineRecord' and isinstance(k, str):
        ctx.ob('file', fid + ' Medline header', txt.count('\n') <= 1, 'the first record starts too late to be found', f.where())


def norm(e):
    return str(e).lower().replace('_', '-').replace('utf-8-sig', 'utf-8').replace('utf8', 'utf-8').replace('iso-8859-1', 'latin-1').replace('latin1', 'latin-1')


def encoding_of(m, cname):
    k = m.cls(cname)
    f = m.method(k, 'encoding') if k is not None else None
    if f is None:
        return None
    rs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    if len(rs) == 1 and isinstance(rs[0], ast.Constant):
        return rs[0].value
    return None


def encodings(ctx, m):
    ctx.rule('encoding', 'a kind of record is read by its detector and its parser in the encoding it says it has')
    for cname in ('WOSRecord', 'MedlineRecord', 'ScopusRecord', 'ProQuestRecord'):
        k = m.cls(cname)
        if k is None:
            ctx.undecided('encoding', cname, 'the class is not there')
            continue
        enc = encoding_of(m, cname)
        if enc is None:
            ctx.undecided('encoding', cname, 'the encoding is not a constant')
            continue
        base = k.mod.name.rsplit('.', 1)[0]
        marked = [f for fid, f in m.funcs.items() if f.mod.name.startswith(base + '.') and any(isinstance(n, ast.Compare) and any(isinstance(x, ast.Constant) and x.value == '\ufeff' for x in ast.walk(n)) for n in ast.walk(f.node))]
        for fid, f in sorted(m.funcs.items()):
            if not f.mod.name.startswith(base + '.'):
                continue
            if marked and f not in marked and f.cls is None and 'arser' in f.name and any(isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'open' for n in ast.walk(f.node)):
                ctx.ob('encoding', '{} {} mark'.format(cname, fid), drops_mark(m, f), 'the mark at the start of the file, which the detector demands, becomes part of the first line', f.where())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == 'open' and n.args:
                    kw = {x.arg: x.value for x in n.keywords}
                    mode = kw.get('mode', n.args[1] if len(n.args) > 1 else None)
                    if isinstance(mode, ast.Constant) and ('b' in mode.value or 'w' in mode.value):
                        continue
                    e = kw.get('encoding')
                    if e is not None:
                        v = const(m, f, e)
                        if v is None:
                            ctx.undecided('encoding', fid, 'the encoding is not a constant')
                            continue
                    else:
                        v = 'the encoding of the machine'
                    ctx.saw(f)
                    ctx.count('opened')
                    ctx.ob('encoding', '{} {}'.format(cname, fid), norm(v) == norm(enc), '{}s say {} but are read as {}'.format(cname, enc, v), f.where(n))
                    if 'errors' in kw:
                        ctx.ob('encoding', '{} {} errors'.format(cname, fid), isinstance(kw['errors'], ast.Constant) and kw['errors'].value in ('strict', None), 'what cannot be decoded is changed without notice', f.where(n))


def drops_mark(m, f, depth=0):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('read', 'seek') and n.args:
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and ('\ufeff' in n.value or n.value.lower().replace('_', '-') in ('utf-8-sig', 'utf8-sig')):
            return True
        if isinstance(n, ast.Name):
            r = m.resolve(f.mod, n.id)
            if const(m, f, n) == '\ufeff' or r and r[0] == 'g' and 'bom' in n.id.lower():       # a constant of the package
                return True
            if r and r[0] == 'f' and depth < 2 and r[1] is not f and drops_mark(m, r[1], depth + 1):
                return True
    return False


def const(m, f, e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        vals = vals or [v for v in [f.mod.assigns.get(e.id)] if v is not None and not isinstance(v, (list, tuple))]
        vals = [v.value if isinstance(v, ast.Assign) else v for v in vals]
        if vals and all(isinstance(v, ast.Constant) for v in vals) and len({v.value for v in vals}) == 1:
            return vals[0].value
    return None


def tables(ctx, m):
    ctx.rule('csv', 'a file that is given to the csv module is opened with its own line ends left alone')
    for fid, f in sorted(m.funcs.items()):
        # files by the name they are bound to
        opened = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', None) == 'open':
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        opened.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.withitem) and isinstance(n.context_expr, ast.Call) and getattr(n.context_expr.func, 'id', None) == 'open' and isinstance(n.optional_vars, ast.Name):
                opened.setdefault(n.optional_vars.id, []).append(n.context_expr)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not n.args:
                continue
            r = m.resolve_expr(f.mod, n.func)
            if not r or r[0] != 'x' or r[1] not in ('csv.writer', 'csv.DictWriter', 'csv.reader', 'csv.DictReader'):
                continue
            if isinstance(n.args[0], ast.Name):
                cs = [c for c in opened.get(n.args[0].id, ()) if c.lineno <= n.lineno]
                cs = [c for c in cs if c.lineno == max(x.lineno for x in cs)]
            elif isinstance(n.args[0], ast.Call) and getattr(n.args[0].func, 'id', None) == 'open':
                cs = [n.args[0]]
            else:
                cs = []
            for c in cs:
                if r[1] in ('csv.reader', 'csv.DictReader') and not f.mod.name.endswith('graphHelpers'):
                    # read from what others wrote
                    continue
                ctx.saw(f)
                ctx.count('csv files')
                kw = {x.arg: x.value for x in c.keywords}
                v = const(m, f, kw['newline']) if 'newline' in kw else None
                ctx.ob('csv', '{} {}'.format(fid, r[1]), v == '' or 'newline' in kw and not isinstance(kw['newline'], ast.Constant), 'line ends inside the file are changed on the way', f.where(c))


def graph_files(ctx, m):
    ctx.rule('columns', 'the columns that the graph writers use for the ends of an edge and the node are those that readGraph looks for')
    rd = m.funcs.get('metaknowledge.graphHelpers:readGraph')
    if rd is None:
        ctx.undecided('columns', 'readGraph', 'the function is not there')
        return
    a = rd.node.args
    dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    want = {k: dflt[k].value for k in ('idKey', 'eSource', 'eDest') if isinstance(dflt.get(k), ast.Constant)}
    ctx.saw(rd)
    for name, cols in (('writeEdgeList', ('eSource', 'eDest')), ('writeNodeAttributeFile', ('idKey',))):
        f = m.funcs.get('metaknowledge.graphHelpers:' + name)
        if f is None or not set(cols) <= set(want):
            ctx.undecided('columns', name, 'not there')
            continue
        ctx.saw(f)

        class Rows(Base):
            max_states = 60
            rows, heads = [], []

            def inline(self, eng, fn, st):
                return fn is f

            def on_call(self, eng, st, node, nm, recv, args, kw):
                short = nm.replace(':', '.').split('.')[-1]
                if short == 'DictWriter' and (len(args) > 1 or 'fieldnames' in kw):
                    self.heads.append((st.copy(), args[1] if len(args) > 1 else kw['fieldnames'], eng.where(node)))
                elif short == 'writerow' and args:
                    self.rows.append((st.copy(), args[0], eng.where(node)))
        cl = Rows()
        cl.rows, cl.heads = [], []
        eng = Engine(m, cl, max_steps=1500000)
        try:
            eng.run(f, {}, None, {})
        except Budget:
            ctx.undecided('columns', name, 'too many paths')
            continue
        names = [C(want[c]) for c in cols]
        for st, h, where in cl.heads:
            o = eng.obj(st, h) if h[0] == 'r' else None
            have = list(o.seq or ()) + [b[0] for b in o.bag] if o is not None else [x for x in subterms(h)]
            parts = [x for x in (h[2:4] if h[0] == 'bin' else ())]
            while parts:
                x = parts.pop()
                have.append(x)
                if x[0] == 'r':
                    o2 = eng.obj(st, x)
                    if o2 is not None:
                        have += list(o2.seq or ()) + [b[0] for b in o2.bag]
                elif x[0] == 'bin':
                    parts += list(x[2:4])
            ctx.count('headers')
            ctx.ob('columns', name + ' header', all(n in have for n in names), 'the header has no column {}, which readGraph looks for'.format(', '.join(repr(n[2]) for n in names if n not in have)), where)
        for st, row, where in cl.rows:
            o = eng.obj(st, row) if row[0] == 'r' else None
            if o is None or o.kind != 'dict' or str(row[1][0]).endswith('c'):
                continue
            keys = set(o.slots)
            if not keys:
                continue
            ctx.count('rows')
            ctx.ob('columns', name + ' rows', all(n in keys for n in names), 'a row has no value for {}'.format(', '.join(repr(n[2]) for n in names if n not in keys)), where)
            vals = [o.slots.get(n) for n in names]
            if len(vals) == 2 and all(v is not None for v in vals) and all(v[0] == 'it' and is_c(v[2]) for v in vals) and vals[0][1] == vals[1][1]:
                ctx.ob('columns', name + ' ends', (vals[0][2][2], vals[1][2][2]) == (0, 1), 'the ends of the edge are not in the columns for them', where)


def run(ctx):
    m = ctx.model
    writers(ctx, m)
    readers(ctx, m)
    record_parsers(ctx, m)
    whole_file(ctx, m)
    encodings(ctx, m)
    tables(ctx, m)
    graph_files(ctx, m)
    graph_rows(ctx, m, pieces)
