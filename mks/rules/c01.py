"""C01: malformed input is contained: no content of a file makes a detector, a
parser or a collection constructor fail, and no damage goes unreported."""
import ast

from ..clients import Base, put_in
from ..interp import Budget, C, Engine, NONE, T, alts, is_c, show, subterms
from ..model import Cls
from . import kept, merged, mixed

ALWAYS = ('OSError', 'IOError', 'FileNotFoundError', 'PermissionError', 'KeyboardInterrupt', 'SystemExit')
FULL = ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'cp437', 'l1')       # every byte decodes
CONTENT = ('UnicodeDecodeError', 'UnicodeError', 'Error', 'ParseError', 'ValueError', 'KeyError', 'IndexError', 'Exception', 'AttributeError', 'TypeError')
GENERATORS = ('csvAndLinesReader',)


def processors(m):
    """(kind, detector, processor, module, entry) of every registered file kind"""
    mm = next((x for x in m.mods.values() if x.name.endswith('fileHandlers')), None)
    out = []
    if mm is None:
        return out
    for name, vals in mm.assigns.items():
        for node in vals if isinstance(vals, list) else [vals]:
            val = getattr(node, 'value', node)
            if not isinstance(val, (ast.List, ast.Tuple)):
                continue
            for e in val.elts:
                if isinstance(e, (ast.Tuple, ast.List, ast.Call)):
                    elts = e.elts if not isinstance(e, ast.Call) else e.args + [k.value for k in e.keywords]
                    fs = []
                    for x in elts:
                        if isinstance(x, ast.Name):
                            r = m.resolve(mm, x.id)
                            fs.append(r[1] if r and r[0] == 'f' else None)
                        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                            fs.append(next((f for f in m.funcs.values() if f.cls is None and f.name == x.attr), None))
                        else:
                            fs.append(x.value if isinstance(x, ast.Constant) else None)
                    out.append((name, fs, e))
    return out


def exc_name(e):
    if isinstance(e, str):
        return e
    if isinstance(e, Cls):
        return e.name
    return show(e)


class Parse(Base):
    max_states = 80
    handler_states = 40
    exact_conds = True
    progress = False

    def __init__(self, m, top, errvar=None):
        self.m, self.top, self.errvar = m, top, errvar
        self.swallowed = []
        self.hazards = 0
        self.lost = []
        self.textless = set()
        self.inner = reading(top)

    def inline(self, eng, fn, st):
        if fn is self.top or fn.parent is not None:
            return True
        if fn.name in GENERATORS:
            return False
        if fn.cls is not None:
            return fn.name == '__init__' and self.reads(fn.cls) and 'super().__init__' is not None and fn.cls.name not in ('Record', 'ExtendedRecord', 'Grant')
        return fn.name.endswith(('Parser', 'parser')) or fn.name.startswith('_') or fn.mod is self.top.mod

    def reads(self, c):
        return any(isinstance(k, Cls) and k.name == 'Record' for k in self.m.mro(c))

    # -- hazards -----------------------------------------------------------
    def text_file(self, eng, st, t):
        """a text file whose encoding rejects some bytes occurs in the term"""
        for x in subterms(t):
            if x[0] == 'r':
                o = eng.obj(st, x)
                if o is not None and o.kind == 'file' and self.strict(o):
                    return True
                if o is not None and o.src is not None and o.src is not x and self.text_file(eng, st, o.src):
                    return True
        return False

    def strict(self, o):
        mode = o.slots.get('mode')
        if mode is not None and is_c(mode) and isinstance(mode[2], str) and 'b' in mode[2]:
            return False
        enc = o.slots.get('encoding')
        if enc is None:
            return None
        return not (is_c(enc) and str(enc[2]).lower().replace('_', '-') in FULL)

    def raise_(self, eng, st, exc, node):
        self.hazards += 1
        q = st.copy()
        q.facts['raised'] = exc
        eng.do_raise(q, exc, node, implicit=True)

    def on_call(self, eng, st, node, name, recv, args, kw):
        last = name.split('.')[-1]
        allargs = list(args) + list(kw.values())
        if last in ('next', '__next__'):
            src = recv if recv is not None else (args[0] if args else None)
            if not (len(args) > 1 and last == 'next'):
                q = st.copy()
                q.facts['early'] = id(node) in self.inner
                self.raise_(eng, q, 'StopIteration', node)
            if src is not None and self.text_file(eng, st, src):
                self.raise_(eng, st, 'UnicodeDecodeError', node)
        elif name == 'for:':
            if self.text_file(eng, st, recv):
                self.raise_(eng, st, 'UnicodeDecodeError', node)
            if any(x[0] == 'call' and (x[1] in (T('x', 'csv.DictReader'), T('x', 'csv.reader')) or x[1][0] == 'f' and x[1][1].split(':')[-1] in GENERATORS) for x in subterms(recv) if x[0] == 'call'):
                self.raise_(eng, st, 'Error', node)
        elif last in ('read', 'readline', 'readlines') and recv is not None and self.text_file(eng, st, recv):
            self.raise_(eng, st, 'UnicodeDecodeError', node)
        elif name in ('int', 'float') and args and not is_c(args[0]):
            self.raise_(eng, st, 'ValueError', node)
        elif name.endswith('ElementTree.parse') or name.endswith('ElementTree.fromstring'):
            self.raise_(eng, st, 'ParseError', node)
            self.raise_(eng, st, 'UnicodeDecodeError', node)
        elif last == 'pop' and recv is not None and not args and not kw:
            left = st.facts.get(('left', recv))
            n = T('call', T('x', 'len'), (recv,))
            for k, v in st.conds.items():
                if v is True and k[0] == 'cmp' and k[1] == '==' and n in (k[2], k[3]):
                    other = k[3] if k[2] is n else k[2]
                    if is_c(other) and isinstance(other[2], int):
                        left = other[2]
                elif k is T('truth', recv) and v is True or n in subterms(k):
                    left = max(left or 0, 1)
            if left is None and recv[0] == 'call' and recv[1][0] == 'meth' and recv[1][2] == 'split':
                left = 1
                if st.loops and not any(x[0] in ('el', 'it') for x in subterms(recv)):
                    left = 0
            if not left:
                self.raise_(eng, st, 'IndexError', node)
            st.facts['left', recv] = max((left or 0) - 1, 0)
        elif name in ('set', 'list', 'sorted', 'tuple', 'frozenset', 'len', 'enumerate') and args and args[0][0] == 'at' and args[0][2] == 'fieldnames' and not st.loops \
                and st.conds.get(T('cmp', 'is', args[0], NONE)) is not False and st.conds.get(T('truth', args[0])) is not True:
            self.raise_(eng, st, 'TypeError', node)     # an empty file has no header
        elif last in ('append', 'insert', 'add') and recv is not None and args and args[-1][0] == 'at' and args[-1][2] == 'text':
            x = args[-1]
            if st.conds.get(T('cmp', 'is', x, NONE)) is not False and st.conds.get(T('truth', x)) is not True:
                st.facts['nones', recv] = True
        elif last == 'join' and recv is not None and args and st.facts.get(('nones', args[0])):
            self.textless.add(id(node))
            self.raise_(eng, st, 'TypeError', node)     # an element without text
        elif last in ('index', 'remove') and recv is not None and len(args) == 1:
            has = st.conds.get(T('cmp', 'in', args[0], recv))
            if has is not True:
                self.raise_(eng, st, 'ValueError' if last == 'index' else 'KeyError', node)
        return None

    def fork_item(self, eng, st, b, k):
        o = eng.obj(st, b)
        if o is not None and o.kind == 'dict' and o.slots.get(k) is None and not isinstance(k, int):
            return not (o.exact and k in o.slots)
        return False

    def on_raise(self, eng, st, node, exc):
        st.facts['raised'] = exc

    def on_undef(self, eng, st, node, name, maybe):
        if eng.handled_here('NameError') or eng.handled_here('UnboundLocalError'):
            return
        self.lost.append((name, eng.where(node), eng.fn))

    # -- damage is reported -------------------------------------------------
    def on_handler(self, eng, st, h, exc):
        n = exc_name(exc)
        if eng.fn is self.top and n == 'StopIteration' and st.facts.get('raised') == exc and st.facts.get('early'):
            st.facts['caught'] = ('the early end of the file', eng.where(h))
        if eng.fn is self.top and (isinstance(exc, Cls) or n in CONTENT or n == 'ANY' and h.type is not None and isinstance(h.type, ast.Name) and h.type.id == 'Exception'):
            if not isinstance(exc, Cls) or self.damage(exc):
                st.facts.pop('early', None)
                if st.facts.get('raised') == exc:
                    st.facts['caught'] = (n, eng.where(h))

    def damage(self, c):
        return c.name.startswith('Bad')

    def error(self, eng, st):
        if self.errvar is None:
            return None
        return st.getvar(st.cur, self.errvar) if eng.fn is self.top else None

    def check(self, eng, st, v, where):
        c = st.facts.get('caught')
        if not c or v is None:
            return
        for x in alts(v):
            if x is NONE:
                continue
            if x[0] in ('phi', 'unk', 'p'):
                if st.conds.get(T('cmp', 'is', x, NONE)) is False or st.conds.get(T('truth', x)) is True:
                    break
                continue
            break
        else:
            self.swallowed.append((c, where))
            return
        st.facts.pop('caught', None)

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if phase in ('iter-end', 'break') and eng.fn is self.top and isinstance(node, (ast.For, ast.While)) and self.errvar:
            v = self.error(eng, st)
            if v is not None and NONE in alts(v) and any(isinstance(x, ast.Assign) and not (isinstance(x.value, ast.Constant) and x.value.value is None) and
                                 any(isinstance(t, ast.Name) and t.id == self.errvar for t in x.targets) for x in ast.walk(node)):
                self.swallowed.append((('an error of an earlier line', eng.where(node)), eng.where(node)))
            self.check(eng, st, v, eng.where(node))

    def on_return(self, eng, st, fn, value, node):
        if fn is self.top and self.errvar and value is not None:
            v = value
            if v[0] == 'tup' and len(v) == 3:
                v = v[2]
            elif eng.obj(st, v) is not None and eng.obj(st, v).kind == 'tuple' and eng.obj(st, v).seq:
                v = eng.obj(st, v).seq[1]
            else:
                return
            self.check(eng, st, v, eng.where(node) if node is not None else fn.where())

    def join_fact(self, k, a, b):
        if k == 'caught':
            return a or b
        if k == 'early':
            return a if a == b else None
        if isinstance(k, tuple) and k[0] == 'left':
            return None if a is None or b is None else min(a, b)
        if isinstance(k, tuple) and k[0] == 'nones':
            return a or b
        return Base.join_fact(self, k, a, b)


def reading(f):
    """calls inside loops that end otherwise than by running out of lines"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.While):
            ends = not (isinstance(n.test, ast.Constant) and n.test.value)
            stack = list(n.body)
            while stack and not ends:
                x = stack.pop()
                if isinstance(x, ast.Break):
                    ends = True
                if not isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                    stack.extend(ast.iter_child_nodes(x))
            if ends:
                out |= {id(x) for x in ast.walk(n) if isinstance(x, ast.Call)}
    return out


def pair_of(f):
    names = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    for n in ast.walk(f.node):
        v = n.value if isinstance(n, ast.Return) or isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets) else None
        if isinstance(v, ast.Tuple) and len(v.elts) == 2:
            yield v


def returned_error(f):
    """the variable that holds the error a parser returns"""
    for v in pair_of(f):
        if isinstance(v.elts[1], ast.Name):
            return v.elts[1].id
    none, given = set(), set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    (none if isinstance(n.value, ast.Constant) and n.value.value is None else given).add(t.id)
    back = {x.id for n in ast.walk(f.node) if isinstance(n, ast.Return) for x in ast.walk(n) if isinstance(x, ast.Name)}
    both = sorted(none & given & back)
    return both[0] if len(both) == 1 else None


def explicit_interrupt(st, node):
    """`raise error` where error is known to be an interruption by the user"""
    return any(v is True and k[0] == 'call' and k[1] == T('x', 'isinstance') and any('KeyboardInterrupt' in str(x) for x in k[2][1:]) for k, v in st.conds.items()) or \
        any(v is True and 'KeyboardInterrupt' in str(k) for k, v in st.conds.items())


def escapes(m, raises, own):
    out = []
    for st, exc, node, implicit in raises:
        n = exc_name(exc)
        if n == 'ANY' or n in ALWAYS:
            continue
        if explicit_interrupt(st, node):
            continue
        if isinstance(exc, Cls) and own(exc):
            continue
        if n in own.names:
            continue
        out.append((n, node, implicit))
    return out


class Own:
    def __init__(self, names=(), pred=None):
        self.names, self.pred = tuple(names), pred

    def __call__(self, c):
        return self.pred(c) if self.pred else False


def where(fn, node):
    return '{}:{}'.format(fn.mod.rel, getattr(node, 'lineno', '?'))


def run(ctx):
    m = ctx.model
    ctx.rule('parser-contained', 'no content of a file makes a parser raise: what cannot be read is turned into a bad record or a reported error')
    ctx.rule('detector-contained', 'no content of a file makes a detector raise, except the last one\'s "unknown file"')
    ctx.rule('damage-reported', 'a parser that catches an error in the content of a file returns an error')
    ctx.rule('always-defined', 'no damaged content leads to a variable without a value')
    ctx.rule('record-contained', 'making a record or grant from damaged content gives a bad record or the format\'s own error')
    ctx.rule('collection-contained', 'a collection constructor turns a file nobody recognises into its own error, and records every error reported by a parser')
    ctx.rule('records-kept', 'the records read from a damaged file are kept')
    n = 0
    seen = set()
    for table, fs, entry in processors(m):
        funcs = [f for f in fs if f is not None and hasattr(f, 'fid')]
        for f in funcs:
            if f.fid in seen:
                continue
            seen.add(f.fid)
            err = returned_error(f)
            gives_pair = err is not None or any(True for v in pair_of(f)) or fs.index(f) == 1 and len(funcs) == 2
            rule = 'parser-contained' if gives_pair else 'detector-contained'
            n += 1
            one(ctx, m, f, rule, err if gives_pair else None)
    mods = {f.mod.name for table, fs, entry in processors(m) for f in fs if f is not None and hasattr(f, 'fid')}
    mods |= {c.mod.name for c in m.classes.values() if any(isinstance(k, Cls) and k.name == 'Record' for k in m.mro(c))}
    for f in sorted(m.funcs.values(), key=lambda f: f.fid):
        if f.mod.name in mods:
            mixed.check(ctx, f, 'parser-contained')
    ctx.need('registered parsers and detectors', n, 8)
    for c in sorted(m.classes.values(), key=lambda c: c.cid):
        init = c.methods.get('__init__')
        if init is None or not any(isinstance(k, Cls) and k.name == 'Record' for k in m.mro(c)) or c.name in ('Record', 'ExtendedRecord', 'Grant'):
            continue
        ctx.count('record and grant constructors')
        one(ctx, m, init, 'record-contained', None, c)
    for c in sorted(m.classes.values(), key=lambda c: c.cid):
        init = c.methods.get('__init__')
        if init is None or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'detector' for x in ast.walk(init.node)) and not \
                any(isinstance(x, (ast.Name, ast.Attribute)) and getattr(x, 'id', getattr(x, 'attr', '')) in {t for t, fs, e in processors(m)} for x in ast.walk(init.node)):
            continue
        ctx.count('collection constructors')
        coll(ctx, m, c, init)
        merged.badness(ctx, init, where)


def one(ctx, m, f, rule, err, cls=None):
    cl = Parse(m, f, err)
    eng = Engine(m, cl, max_steps=3000000 if ctx.thorough else 800000)
    ctx.saw(f)
    try:
        rets, raises = eng.run(f, {}, cls, {})
    except Budget:
        ctx.undecided(rule, f.fid, 'too many paths')
        return
    if rule == 'parser-contained':
        own = Own(('TypeError',), lambda c: c.name in ('RCTypeError',))
    elif rule == 'detector-contained':
        own = Own((), lambda c: c.name == 'UnknownFile')
    else:
        own = Own(('TypeError',), lambda c: c.name.startswith('Bad') or c.name == 'RCTypeError')
    bad = escapes(m, raises, own) + [('TypeError', node, i) for st, exc, node, i in raises if i and id(node) in cl.textless and exc_name(exc) == 'TypeError']
    ctx.count('operations that damaged content can make fail', cl.hazards)
    ctx.ob(rule, f.fid, not bad, '{} caused by the content of the file can leave the function'.format(bad[0][0]) if bad else '', where(f, bad[0][1]) if bad else '')
    lost = [x for x in cl.lost]
    ctx.ob('always-defined', f.fid, not lost, '{} may have no value'.format(lost[0][0]) if lost else '', lost[0][1] if lost else '')
    if rule == 'parser-contained':
        kept.check(ctx, f, err)
    if err:
        ctx.ob('damage-reported', f.fid, not cl.swallowed, '{} is caught at {} but no error is returned'.format(*cl.swallowed[0][0]) if cl.swallowed else '', cl.swallowed[0][1] if cl.swallowed else '')


class Coll(Base):
    max_states = 200
    handler_states = 30
    exact_conds = True
    progress = False

    def __init__(self, m, top, unknown):
        self.m, self.top, self.unknown = m, top, unknown
        self.bad = []
        self.kept = []
        self.asked = 0
        self.badvar = None
        for n in ast.walk(top.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
                for a in n.args + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id == 'bad':
                        self.badvar = 'bad'

    def inline(self, eng, fn, st):
        return fn is self.top or fn.parent is not None or fn.name.startswith('_') and not fn.name.startswith('__') and 'ache' not in fn.name

    def pair(self, t):
        """the pair a parser returned, as part of which t was got"""
        if t[0] == 'it' and is_c(t[2]) and t[1][0] == 'call' and t[1][1][0] not in ('x', 'meth'):
            return t[1], t[2][2]
        return None, None

    def on_call(self, eng, st, node, name, recv, args, kw):
        if name == '<dyn>' and self.unknown is not None:
            self.asked += 1
            eng.do_raise(st.copy(), self.unknown, node, implicit=True)
        if name.split('.')[-1] == '__init__':
            self.settle(eng, st, eng.where(node), list(args) + list(kw.values()))

    def on_mutate(self, eng, st, node, t, how, value=None):
        for v in put_in(value):
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                for x in self.within(eng, st, v):
                    c, i = self.pair(x)
                    if c is not None:
                        st.facts['used', c, i] = True

    def within(self, eng, st, v):
        out = set(subterms(v))
        for x in list(out):
            o = eng.obj(st, x) if x[0] == 'r' else None
            if o is not None and o.kind in ('dict', 'tuple', 'list'):
                for y in list(o.seq or ()) + [b for b, g in o.bag or ()] + [e for e in (o.slots or {}).values() if isinstance(e, tuple)]:
                    out |= set(subterms(y))
        return out

    def on_branch(self, eng, st, node, atom, val):
        # no error to record on this path
        for x in subterms(atom):
            c, i = self.pair(x)
            if c is not None and i == 1 and (st.conds.get(T('cmp', 'is', x, NONE)) is True or st.conds.get(T('truth', x)) is False):
                st.facts['used', c, 1] = True

    def settle(self, eng, st, where, handed=None, keep=True):
        got = {k[1] for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'used' and v and k[2] == 0}
        got |= {self.pair(x)[0] for h in handed or () for x in subterms(h) if self.pair(x)[1] == 0}
        for c in got:
            if not st.facts.get('handled') and not st.facts.get(('used', c, 1)):
                self.bad.append(('an error reported by a parser may not be recorded', where))
        for k, v in list(st.conds.items()):
            if k[0] == 'cmp' and k[1] == 'is' and k[3] is NONE and v is False:
                c, i = self.pair(k[2])
                if c is not None and i == 1:
                    if not st.facts.get(('used', c, 1)):
                        self.bad.append(('an error reported by a parser is not recorded', where))
                    if self.badvar:
                        b = st.getvar(st.cur, self.badvar) if eng.fn is self.top else None
                        if b is not None and all(is_c(x) and x[2] is False for x in alts(b)):
                            self.bad.append(('a collection is not marked bad although a parser reported an error', where))
                    if keep and not st.facts.get('handled') and not st.facts.get(('used', c, 0)) and not any(self.pair(x) == (c, 0) for h in handed or () for x in subterms(h)):
                        self.kept.append(where)

    def on_handler(self, eng, st, handler, exc):
        st.facts['handled'] = True      # the state stands for every point of the try block

    def on_loop(self, eng, st, node, phase, it=None, *rest):
        if phase == 'enter' and eng.fn is self.top:
            st.facts.pop('handled', None)
        if phase in ('iter-end', 'break') and isinstance(node, ast.For) and eng.fn is self.top:
            self.settle(eng, st, eng.where(node), keep=any(isinstance(x, (ast.For, ast.While)) for y in node.body for x in ast.walk(y)))

    def join_fact(self, k, a, b):
        if isinstance(k, tuple) and k[0] == 'used':
            return True if (a and b or k[2] == 0 and (a or b)) else None
        if k == 'handled':
            return a or b
        return Base.join_fact(self, k, a, b)


def coll(ctx, m, c, init):
    unknown = next((k for k in m.classes.values() if k.name == 'UnknownFile'), None)
    cl = Coll(m, init, unknown)
    eng = Engine(m, cl, max_steps=3000000)
    ctx.saw(init)
    try:
        rets, raises = eng.run(init, {}, c, {})
    except Budget:
        ctx.undecided('collection-contained', init.fid, 'too many paths')
        return
    if not cl.asked:
        ctx.undecided('collection-contained', init.fid, 'the detectors are called in a way that is not followed')
        return
    esc = [(e, n) for st, e, n, i in raises if isinstance(e, Cls) and e is unknown]
    ctx.ob('collection-contained', init.fid, not esc, 'a file no detector recognises makes the constructor fail with the internal error' if esc else '', where(init, esc[0][1]) if esc else '')
    b = cl.bad
    ctx.ob('collection-contained', init.fid + ' errors', not b, b[0][0] if b else '', b[0][1] if b else '')
    ctx.ob('records-kept', init.fid, not cl.kept, 'the records of a file are dropped when its parser reports an error', cl.kept[0] if cl.kept else '')
