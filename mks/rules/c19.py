"""C19: the command line does what its menus, questions and options say."""
import ast
import re

from ..clients import Base
from ..interp import Budget, C, Engine, T, alts, cval, is_c, show, subterms
from .c23 import worlds

CLI = 'metaknowledge.bin.metaknowledgeCLI'

# words of a menu entry -> (call, named argument that has to be given or None)
ACTS = [
    (r'one.mode', 'networkOneMode', None),
    (r'two.mode', 'networkTwoMode', None),
    (r'n.mode', 'networkMultiMode', None),
    (r'co-?citation', 'networkCoCitation', None),
    (r'(?<!co-)(?<!co)\bcitation network', 'networkCitation', None),
    (r'co-?author', 'networkCoAuthor', None),
    (r'bibliographic coupling', 'networkBibCoupling', None),
    (r'\bwos style file', 'writeFile', None),
    (r'\bcsv file', 'writeCSV', None),
    (r'bib\w* file', 'writeBib', None),
    (r'isolates', 'dropNodesByDegree', 'minDegree'),
    (r'self.?loops', 'dropEdges', 'dropSelfLoops'),
    (r'edges below', 'dropEdges', 'minWeight'),
    (r'edges above', 'dropEdges', 'maxWeight'),
    (r'nodes below', 'dropNodesByDegree', 'minDegree'),
    (r'nodes above', 'dropNodesByDegree', 'maxDegree'),
    (r'edge list and node attribute', 'writeGraph', None),
    (r'^edge list$', 'writeEdgeList', None),
    (r'^node attribute list$', 'writeNodeAttributeFile', None),
    (r'graphml', 'write_graphml', None),
    (r'view', 'quickVisual', None),
    (r'citations to a single file', 'writelines', None),
    (r'non-journal', 'addToDB', None),
]
KNOWN = {a for r, a, k in ACTS}
NEUTRAL = {'print', 'format', 'len', 'list', 'nodes', 'edges', 'isolates', 'selfloop_edges', 'int', 'str', 'set', 'join', 'append', 'OrderedDict', 'dict', 'move_to_end', 'get', 'isJournal', 'hasattr', 'input', 'open', 'keys', 'items', 'values', 'sorted',
           'yesorNo', 'inputMenu', 'getOutputName', 'Tag', 'getNum', 'getThresholds', 'outputNetwork', 'getNetwork', 'getWhatToDo', 'number_of_nodes', 'number_of_edges', 'float', 'upper', 'lower', 'strip', 'copy'}
STOP = ('yesorNo', 'inputMenu', 'getOutputName', 'Tag', 'getNum', 'getFiles', 'argumentParser', 'mkCLI', 'getWhatToDo', 'getNetwork', 'getThresholds', 'outputNetwork')
SAME = {'writelines': {'writelines', 'write', 'writerow', 'writerows'}}
LIMITS = ('minWeight', 'maxWeight', 'minDegree', 'maxDegree')


class Client(Base):
    max_states = 400
    exact_conds = True
    progress = False
    handler_states = 200

    def __init__(self, mod, menu=None, pick=None, said=None):
        self.mod, self.menu, self.pick, self.said = mod, menu, pick, said
        self.calls, self.menus, self.vals = [], [], {}

    def inline(self, eng, fn, st):
        return fn.fid.startswith(CLI + ':') and fn.name not in STOP

    def on_call(self, eng, st, node, name, recv, args, kw):
        name = name if isinstance(name, str) else str(name)
        short = name.split('.')[-1].split(':')[-1]
        if name in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return []
        if short.startswith('for:'):
            return None
        self.calls.append((short, recv, args, dict(kw), eng.where(node), dict(st.conds)))
        st.facts['did'] = st.facts.get('did', ()) + (len(self.calls) - 1,)
        st.facts['done'] = st.facts.get('done', frozenset()) | {short}
        if self.menu is not None and short == self.menu:
            t = args[0] if args else kw.get('inputDict')
            for x in alts(t) if t is not None else ():
                o = eng.obj(st, x)
                if o is not None and o.kind == 'dict':
                    self.menus.append({cval(k): (v if is_c(v) else None) for k, v in o.slots.items() if is_c(k)})
            if self.pick is not None:
                return [(C(self.pick), st)]
        if short == 'yesorNo' and self.said is not None:
            return [(C(self.said), st)]
        return None

    def on_mutate(self, eng, st, node, t, how, value=None):
        if how.startswith('attr:'):
            self.calls.append((how, t, (value,), {}, eng.where(node), dict(st.conds)))
            st.facts['did'] = st.facts.get('did', ()) + (len(self.calls) - 1,)

    def on_handler(self, eng, st, handler, exc):
        st.facts['done'] = frozenset()      # what was tried has failed

    def join_fact(self, k, a, b):
        if k == 'done':
            return (a or frozenset()) & (b or frozenset())
        if k == 'did':
            b = set(b or ())
            return tuple(x for x in a or () if x in b)
        return Base.join_fact(self, k, a, b)


def play(m, f, menu=None, pick=None, said=None):
    c = Client(f.mod, menu, pick, said)
    eng = Engine(m, c, 300000)
    rets, raises = eng.run(f, {}, None)
    return c, eng, rets, raises


def callee(t):
    """short name of the function a term is the answer of"""
    if t[0] == 'truth':
        return callee(t[1])
    if t[0] == 'call' and isinstance(t[1], tuple):
        g = t[1]
        n = g[1] if g[0] in ('f', 'x', 'k') else g[2] if g[0] == 'meth' else None
        if isinstance(n, str):
            return n.split('.')[-1].split(':')[-1]
    return None


def asks(t, names, seen=None):
    return any(callee(x) in names for x in subterms(t))


# helpers ------------------------------------------------------------------------

def helpers(m, mod):
    """the functions of the command line by what they are for"""
    out = {}
    for n in ('yesorNo', 'inputMenu', 'getOutputName', 'Tag', 'getNum', 'getFiles', 'argumentParser', 'mkCLI'):
        f = m.funcs.get(CLI + ':' + n)
        if f is not None:
            out[n] = f
    return out


def typed(t):
    """is it what the user typed (maybe in upper case)"""
    return any(callee(x) == 'input' for x in subterms(t))


def again(f, t):
    """the answer of asking again"""
    return callee(t) == f.name


def ways(rets):
    """the answers with the conditions of each way to them"""
    for st, v in rets:
        for w in worlds(st.conds):
            s = st.copy()
            s.conds = dict(w)
            yield s, v


def yes(ctx, m, f):
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('answer', f.fid, 'too many paths')
    ctx.saw(f)
    for st, v in ways(rets):
        for x in alts(v):
            if again(f, x):
                continue
            if not is_c(x) or len(alts(v)) > 1:
                ctx.undecided('answer', f.fid, 'what is answered is not a constant')
                continue
            said = {cval(o) for a, val in st.conds.items() if a[0] == 'cmp' and val is True and a[1] in ('==', 'in')
                    for y, z in ((a[2], a[3]), (a[3], a[2])) if typed(y) for o in consts(eng, st, z)}
            if x[2] is True:
                ok = said and all(isinstance(s, str) and s[:1].upper() != 'N' for s in said)
                ctx.ob('answer', f.fid + ' yes', bool(ok), 'anything but a yes is taken for one', f.where())
            elif x[2] is False:
                ok = said and all(isinstance(s, str) and s[:1].upper() == 'N' for s in said)
                ctx.ob('answer', f.fid + ' no', bool(ok), 'anything but a no is taken for one', f.where())
            else:
                ctx.ob('answer', f.fid + ' other', False, 'a question is answered with {}, neither yes nor no'.format(show(x)), f.where())


def consts(eng, st, t):
    if is_c(t):
        return [t]
    if t[0] == 'tup':
        return [x for x in t[1:] if is_c(x)]
    o = eng.obj(st, t)
    if o is not None and o.seq is not None:
        return [x for x in o.seq if is_c(x)]
    return []


def tag(ctx, m, f):
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('answer', f.fid, 'too many paths')
    ctx.saw(f)
    args = [a.arg for a in f.node.args.args]
    for st, v in ways(rets):
        for x in alts(v):
            if again(f, x):
                continue
            if is_c(x) and not x[2]:
                ok = any(val is True and T('p', 'nMode') in subterms(a) for a, val in st.conds.items()) or 'nMode' not in args
                ctx.ob('answer', f.fid + ' nothing', ok, 'the question for a tag is answered with nothing though one is needed', f.where())
            elif is_c(x):
                ctx.ob('answer', f.fid + ' other', False, 'the question for a tag is answered with {}'.format(show(x)), f.where())
            else:
                ok = any(a[0] == 'cmp' and a[1] == 'in' and a[2] == x and val is True and T('p', 'collection') in subterms(a[3]) for a, val in st.conds.items())
                loop = any(y[0] in ('phi', 'j') for y in subterms(x))
                if not ok and loop:
                    ctx.undecided('answer', f.fid, 'asked in a loop')
                else:
                    ctx.ob('answer', f.fid + ' tag', ok, 'a tag is taken that no Record has', f.where())


def num(ctx, m, f):
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('answer', f.fid, 'too many paths')
    ctx.saw(f)
    for st, v in ways(rets):
        for x in alts(v):
            if again(f, x):
                continue
            ok = callee(x) in ('float', 'int') and typed(x)
            ctx.ob('answer', f.fid + ' number', ok, 'the question for a number is answered with {}'.format(show(x)[:60]), f.where())
    for st, exc, node, implicit in raises:
        e = getattr(exc, 'name', exc)
        if e == 'ValueError':
            ctx.ob('answer', f.fid + ' asked again', False, 'an answer that is no number is not asked for again', f.where(node))
    handled = any(isinstance(n, ast.ExceptHandler) and (n.type is None or {getattr(y, 'id', None) for y in ast.walk(n.type)} & {'ValueError', 'Exception', 'BaseException'}) for n in ast.walk(f.node)) or any(isinstance(n, ast.With) for n in ast.walk(f.node))
    ctx.ob('answer', f.fid + ' not a number', handled or not any(x[0] in ('float', 'int') for x in c.calls), 'an answer that is no number ends the program', f.where())


def menu(ctx, m, f):
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('answer', f.fid, 'too many paths')
    ctx.saw(f)
    for st, v in ways(rets):
        for x in alts(v):
            if again(f, x):
                continue
            if is_c(x):
                ctx.ob('answer', f.fid + ' option', False, 'a menu is left with {} chosen, which is not one of its options'.format(show(x)), f.where())
                continue
            ok = any(a[0] == 'cmp' and a[1] == 'in' and a[2] == x and val is True for a, val in st.conds.items())
            if not ok and any(y[0] in ('phi', 'j') for y in subterms(x)):
                ctx.undecided('answer', f.fid, 'asked in a loop')
            else:
                ctx.ob('answer', f.fid + ' option', ok, 'what is typed is taken for a choice though it is not one of the options', f.where())
    for name, recv, args, kw, where, conds in c.calls:
        if name == f.name:
            first = args[0] if args else kw.get(f.node.args.args[0].arg)
            ctx.ob('answer', f.fid + ' same menu', first == T('p', f.node.args.args[0].arg), 'another menu is shown when the choice is no option', where)


def name(ctx, m, f):
    """a file name: what was typed or --name, with the suffix; one that exists only after a yes"""
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('overwrite', f.fid, 'too many paths')
    ctx.saw(f)
    pars = [a.arg for a in f.node.args.args]
    for st, v in ways(rets):
        for x in alts(v):
            if again(f, x):
                continue
            if is_c(x):
                ctx.ob('overwrite', f.fid + ' name', False, 'the question for a file name is answered with {}'.format(show(x)), f.where())
                continue
            if 'suffix' in pars:
                ctx.ob('given', f.fid + ' suffix', T('p', 'suffix') in subterms(x), 'a file is named without its suffix', f.where())
            if not typed(x):
                ok = any(y == T('p', pars[0]) for y in subterms(x))
                ctx.ob('given', f.fid + ' named', ok, 'the file is not named as asked for by --name', f.where())
                continue
            if any(y[0] in ('phi',) for y in subterms(x)):
                ctx.undecided('overwrite', f.fid, 'asked in a loop')
                continue
            free = [a for a, val in st.conds.items() if val is False and callee(a) in ('lexists', 'exists', 'isfile') and x in subterms(a)]
            asked = [a for a, val in st.conds.items() if val is True and asks(a, {'yesorNo'})]
            free_all = any(T('p', 'checking') in subterms(a) and callee(a) is None for a, val in st.conds.items() if val is False)
            ctx.ob('overwrite', f.fid + ' typed', bool(free or asked or free_all), 'a file name that may exist is taken without asking', f.where())
            for a in asked:
                if not any(x in subterms(y) for y in subterms(a)) and callee(a) == 'yesorNo':
                    ctx.ob('overwrite', f.fid + ' question', False, 'the file that is asked about is not the one that is overwritten', f.where())
            empty = [a for a, val in st.conds.items() if a[0] == 'truth' and typed(a) and callee(a) in ('input', 'strip') and val is True or a[0] == 'cmp' and typed(a) and is_c(a[3]) and val is False or a[0] == 'cmp' and typed(a) and is_c(a[2])]
            ctx.ob('answer', f.fid + ' empty', bool(empty) , 'an empty answer is taken for a file name', f.where())


# menus -----------------------------------------------------------------------------

def wanted(text):
    t = text.lower()
    out = []
    for r, a, k in ACTS:
        if re.search(r, t):
            out.append((a, k))
    names = {a for a, k in out}
    if 'writeGraph' in names:
        out = [x for x in out if x[0] not in ('writeEdgeList', 'writeNodeAttributeFile')]
    return out


def given(c, eng, call, f):
    """is what is handed to an action what the user said it to be: the network or
    collection the menu is for, the tag, number or file name that was asked for"""
    short, recv, args, kw, where, conds = call
    return list(args) + [v for k, v in sorted(kw.items())]


def options(ctx, m, f, menu_name):
    try:
        c, eng, rets, raises = play(m, f, menu_name)
    except Budget:
        return ctx.undecided('does', f.fid, 'too many paths')
    if not c.menus:
        return
    ctx.saw(f)
    table = {}
    for t in c.menus:
        for k, v in t.items():
            table[k] = v[2] if v is not None else None
    ctx.count('menus')
    done = {}
    for k, text in sorted(table.items(), key=str):
        if not isinstance(text, str):
            ctx.undecided('does', '{} {}'.format(f.fid, k), 'the words of the option are not known')
            continue
        try:
            c, eng, rets, raises = play(m, f, menu_name, k)
        except Budget:
            ctx.undecided('does', '{} {}'.format(f.fid, k), 'too many paths')
            continue
        ctx.count('options')
        acts = [x for x in c.calls if x[0] in KNOWN or x[0] in ('open',)]
        opens = [x for x in acts if x[0] == 'open']
        acts = [x for x in acts if x[0] != 'open']
        want = wanted(text)
        done[k] = (text, want, acts, c, eng, rets)
    if not any(acts for text, want, acts, c, eng, rets in done.values()):
        return ctx.undecided('does', f.fid, 'nothing is seen to be done for any option')
    first = f.node.args.args[-1].arg if f.node.args.args else None
    for k, (text, want, acts, c, eng, rets) in sorted(done.items(), key=str):
        key = '{} {}'.format(f.name, text)
        names = {a for a, kk in want}
        for a, kk in want:
            like = SAME.get(a, {a})
            mine = [x for x in acts if x[0] in like] or [x for x in c.calls if x[0] in like]
            if not mine:
                other = {x[0] for x in c.calls} - NEUTRAL - KNOWN
                if other and not acts:
                    ctx.undecided('does', key, 'it does {} instead of {}'.format(', '.join(sorted(other)), a))
                    continue
                ctx.ob('does', key, False, 'option {} ({}) does not do {}'.format(k, text, a), f.where())
                continue
            ctx.ob('does', key, True, '', mine[0][4])
            every(ctx, f, key, k, text, mine, c, rets)
            for x in mine:
                limits(ctx, f, key, k, text, x, kk)
                graph(ctx, f, key, k, text, x, first, c)
        for x in acts:
            if x[0] not in names and not any(x[0] in SAME.get(n, ()) for n in names):
                ctx.ob('does', key + ' only', False, 'option {} ({}) does {}'.format(k, text, x[0]), x[4])
        answers(ctx, f, key, k, text, rets, first, c, table)
        journals(ctx, m, f, menu_name, key, k, text, c, acts)
        overwrites(ctx, f, key, acts)
        typed_used(ctx, f, key, k, text, c, acts)
    return done


def every(ctx, f, key, k, text, mine, c, rets):
    """no way of answering leaves the action out"""
    if any(x[0] == 'addToDB' or x[0] in SAME['writelines'] and False for x in mine):
        return
    like = {x[0] for x in mine}
    for st, v in rets:
        ok = bool(like & st.facts.get('done', frozenset()))
        ctx.ob('does', key + ' always', ok, 'option {} ({}) can be left without {}'.format(k, text, mine[0][0]), f.where())


def limits(ctx, f, key, k, text, x, want):
    short, recv, args, kw, where, conds = x
    if short not in ('dropEdges', 'dropNodesByDegree'):
        return
    got = {n for n in kw if n in LIMITS or n == 'dropSelfLoops' and not (is_c(kw[n]) and not kw[n][2])}
    if any(n is None for n in kw) or len(args) > 1:
        ctx.undecided('does', key + ' limit', 'what is given is not named')
        return
    ctx.ob('does', '{} {}({})'.format(key, short, ', '.join(sorted(got))), got == {want},
           'option {} ({}) gives {} {} instead of {}'.format(k, text, short, ', '.join(sorted(got)) or 'nothing', want), where)
    if re.search('isolates', text.lower()) and want in kw:
        v = kw[want]
        ctx.ob('does', key + ' isolates', is_c(v) and v[2] == 1, 'isolates are not the nodes below degree {}'.format(show(v)), where)


def graph(ctx, f, key, k, text, x, first, c):
    """it is done to the network or collection at hand"""
    short, recv, args, kw, where, conds = x
    if short in SAME['writelines'] or short in ('addToDB', 'isJournal'):
        return
    who = recv if recv is not None and recv[0] == 'p' else args[0] if args else None
    if who is None or first is None:
        return
    if who[0] == 'p':
        ctx.ob('given', key + ' object', who == T('p', first), 'option {} ({}) is done to something else'.format(k, text), where)


def answers(ctx, f, key, k, text, rets, first, c, table):
    """the collection menu answers whether to go on to a graph"""
    graphs = [t for t in table.values() if t and re.search('make a graph', t.lower())]
    if graphs:
        want = bool(re.search('make a graph', text.lower()))
        for st, v in rets:
            for x in alts(v):
                if is_c(x):
                    ctx.ob('next', key, bool(x[2]) is want, 'option {} ({}) {} a graph'.format(k, text, 'goes on to' if x[2] else 'does not go on to'), f.where())
                elif again(f, x):
                    continue
                else:
                    ctx.undecided('next', key, 'what is answered is not known')
        return
    if any(re.search('drop|remove', (t or '').lower()) for t in table.values()):
        for st, v in rets:
            for x in alts(v):
                if again(f, x):
                    ctx.ob('next', key, not re.search('continue', text.lower()), 'option {} ({}) asks again'.format(k, text), f.where())
                    continue
                ctx.ob('next', key, x == T('p', first), 'the network is not handed on after option {} ({})'.format(k, text), f.where())
        return
    if any(re.search('network', (t or '').lower()) for t in table.values()):
        for st, v in rets:
            for x in alts(v):
                ctx.ob('next', key, callee(x) in KNOWN or again(f, x) or not is_c(x), 'option {} ({}) makes a network and does not hand it on'.format(k, text), f.where())


def overwrites(ctx, f, key, acts):
    for short, recv, args, kw, where, conds in acts:
        v = kw.get('overwrite')
        if short == 'writeGraph' and v is not None and not (is_c(v) and not v[2]):
            ok = any(val is True and (asks(a, {'yesorNo'}) or '.name' in show(a)) for a, val in conds.items())
            ctx.ob('overwrite', key, ok, 'files are overwritten without asking', where)
        elif short == 'writeGraph' and v is None:
            ctx.ob('overwrite', key, False, 'files are overwritten without asking', where)


def journals(ctx, m, f, menu_name, key, k, text, c, acts):
    """citations are written and sorted as the questions say"""
    for short, recv, args, kw, where, conds in acts:
        if short == 'addToDB':
            said = {val for a, val in conds.items() if callee(a) == 'yesorNo'}
            inv = kw.get('invert')
            if len(said) != 1 or inv is not None and not is_c(inv):
                ctx.undecided('given', key + ' journal', 'what was answered is not known')
                continue
            ctx.ob('given', key + ' journal', bool(inv is not None and inv[2]) is not said.pop(), 'a journal is sorted the other way than was answered', where)
        if short in ('addToDB', 'isJournal') and 'input' in {x[0] for x in c.calls}:
            db = kw.get('manualDB')
            if db is None:
                ctx.ob('given', key + ' database', False, 'the database that was named is not used', where)
                continue
            for x in alts(db):
                if typed(x):
                    none = any(a[0] == 'cmp' and a[1] == '==' and typed(a) and val is False or a[0] == 'truth' and typed(a) and val is True for a, val in conds.items())
                    ctx.ob('given', key + ' database', none or callee(x) != 'input', 'no name at all is taken for the name of a database', where)
                elif any(a[0] == 'cmp' and a[1] == '==' and typed(a) and val is False for a, val in conds.items()) and len(alts(db)) == 1:
                    ctx.ob('given', key + ' database', False, 'the database that was named is not used', where)
    if not re.search('citations to a', text.lower()):
        return
    for only in (True, False):
        try:
            c, eng, rets, raises = play(m, f, menu_name, k, only)
        except Budget:
            ctx.undecided('given', key + ' journals', 'too many paths')
            return
        if not any(x[0] == 'yesorNo' and x[2] and re.search('only journals', show(x[2][0]).lower()) for x in c.calls):
            ctx.undecided('given', key + ' journals', 'the question is not known')
            return
        for st, v in rets:
            for i in st.facts.get('did', ()):
                short, recv, args, kw, where, conds = c.calls[i]
                if short not in SAME['writelines'] or not args:
                    continue
                els = written(eng, st, args[0])
                if els is None:
                    ctx.undecided('given', key + ' journals', 'what is written is not known')
                    continue
                for x, guards in els:
                    g = {val for a, val in guards if callee(a) == 'isJournal'}
                    ctx.ob('given', key + ' journals', g == ({True} if only else set()),
                           'what is written when only journals are asked for are not the citations of journals' if only else 'citations are left out though all are asked for', where)


def written(eng, st, t, depth=0):
    o = eng.obj(st, t)
    if o is None or depth > 3:
        return None
    if o.bag:
        out = []
        for x, g in o.bag:
            if x[0] == 'el' and eng.obj(st, x[1]) is not None:
                sub = written(eng, st, x[1], depth + 1)
                if sub is None:
                    return None
                out += [(y, h | g) for y, h in sub]
            else:
                out.append((x, g))
        return out
    if o.exact and o.seq == ():
        return []
    return None


SUFFIX = {'writeFile': ('.txt', '.isi', '.wos'), 'writeCSV': ('.csv',), 'writeEdgeList': ('.csv',), 'writeNodeAttributeFile': ('.csv',), 'write_graphml': ('.graphml',), 'writeBib': ('.bib',)}


def typed_used(ctx, f, key, k, text, c, acts):
    """what the user is asked for is what the action is given"""
    for q, what in (('getOutputName', 'file name'), ('getNum', 'number'), ('Tag', 'tag')):
        asked = [x for x in c.calls if x[0] == q]
        if not asked:
            for x in acts:
                if q == 'getOutputName' and x[0] in SUFFIX:
                    ctx.ob('given', key + ' ' + what, False, 'the file is written without asking for its name', x[4])
                if q == 'getNum' and x[0] in ('dropEdges', 'dropNodesByDegree'):
                    lim = [v for n, v in x[3].items() if n in LIMITS]
                    if any(is_c(v) for v in lim) and not re.search('isolates|self', text.lower()):
                        ctx.ob('given', key + ' ' + what, False, 'option {} ({}) does not ask for the limit'.format(k, text), x[4])
            continue
        if q == 'Tag' and len(asked) > 1:
            qs = {show(x[2][0]) if x[2] else '' for x in asked}
            used = set()
            for x in acts:
                for v in list(x[2]) + list(x[3].values()):
                    if callee(v) == 'Tag':
                        used.add(show(v))
            many = [x for x in acts if x[0] == 'networkTwoMode']
            for x in many:
                vs = [v for v in list(x[2]) + list(x[3].values()) if callee(v) == 'Tag']
                if len(vs) >= 2:
                    ctx.ob('given', key + ' ' + what, vs[0] != vs[1], 'the same tag is used for both modes', x[4])
                elif len(list(x[2])) >= 2:
                    ctx.ob('given', key + ' ' + what, False, 'one of the tags asked for is not used', x[4])
                order = [callee(v) == 'Tag' and bool(re.search('first', show(v).lower())) for v in x[2]]
                if len(order) == 2 and any(order):
                    ctx.ob('given', key + ' ' + what + ' order', order[0], 'the tags asked for are used the wrong way round', x[4])
            continue
        for x in acts:
            if x[0] in ('writelines', 'write') or x[0] == 'addToDB':
                continue
            vs = list(x[2]) + list(x[3].values())
            if any(n is None for n in x[3]):
                continue
            flat = [y for v in vs for y in alts(v)]
            if any(y[0] in ('unk', 'phi', 'undef') for v in flat for y in subterms(v)):
                continue
            ctx.ob('given', key + ' ' + what, any(callee(y) == q for v in flat for y in subterms(v)), 'the {} asked for by option {} ({}) is not used'.format(what, k, text), x[4])
        if q == 'getOutputName':
            for x in asked:
                suf = x[2][1] if len(x[2]) > 1 else x[3].get('suffix')
                mine = {a[0] for a in acts if any(callee(y) == q for v in list(a[2]) + list(a[3].values()) for y in subterms(v))}
                if suf is None or not is_c(suf):
                    continue
                for a in mine & set(SUFFIX):
                    ctx.ob('given', key + ' suffix', suf[2] in SUFFIX[a], '{} writes a file called *{}'.format(a, suf[2]), x[4])


# program ------------------------------------------------------------------------------

def flags(m, f):
    """{destination: kind} of the options of the command line"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', None) == 'add_argument':
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            dest = [k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)]
            long = [x for x in names if x.startswith('--')]
            d = dest[0] if dest else (long[0].lstrip('-') if long else names[0].lstrip('-') if names else None)
            act = [k.value.value for k in n.keywords if k.arg == 'action' and isinstance(k.value, ast.Constant)]
            default = [k.value for k in n.keywords if k.arg == 'default']
            if d:
                out[d.replace('-', '_')] = (act[0] if act else 'store', default[0] if default else None, n)
    return out


def program(ctx, m, mod, hs):
    ap, main = hs.get('argumentParser'), hs.get('mkCLI')
    if ap is not None:
        ctx.saw(ap)
        used = set()
        for f in mod_funcs(m):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    used.add(n.attr)
                elif isinstance(n, ast.Call) and getattr(n.func, 'id', None) in ('getattr', 'vars'):
                    used |= {a.value for a in n.args if isinstance(a, ast.Constant)}
                    if n.func.id == 'vars':
                        used = None
                        break
            if used is None:
                break
        for d, (act, default, node) in sorted(flags(m, ap).items()):
            ctx.ob('option', d, used is None or d in used, 'the option --{} is never looked at'.format(d), ap.where(node))
            if act == 'store_true':
                ctx.ob('option', d + ' default', default is None or isinstance(default, ast.Constant) and not default.value, 'the option --{} is on when it is not given'.format(d), ap.where(node))
            elif act == 'store_false':
                ctx.ob('option', d + ' default', False, 'giving the option --{} turns it off'.format(d), ap.where(node))
    if main is None:
        return
    try:
        c, eng, rets, raises = play(m, main)
    except Budget:
        return ctx.undecided('program', main.fid, 'too many paths')
    ctx.saw(main)
    for name, t, args, kw, where, conds in c.calls:
        if name == 'attr:VERBOSE_MODE':
            v = args[0]
            if not is_c(v):
                ctx.undecided('option', 'VERBOSE_MODE', 'what it is set to is not known')
                continue
            on = {d for d in ('quiet', 'verbose', 'debug', 'name', 'suffix', 'files') for a, val in conds.items() if val is True and '.' + d in show(a)}
            off = {d for d in ('quiet', 'verbose') for a, val in conds.items() if val is False and '.' + d in show(a)}
            if v[2]:
                ctx.ob('option', 'verbose', 'verbose' in on, 'progress is shown though --verbose is not given', where)
                ctx.ob('option', 'verbose quiet', 'quiet' in off, 'progress is shown though --quiet is given', where)
            else:
                ctx.ob('option', 'quiet', 'quiet' in on or 'verbose' in off, 'progress is turned off though --quiet is not given', where)
    # what is done in turn
    make = [x for x in c.calls if x[0] == 'getNetwork']
    what = [x for x in c.calls if x[0] == 'getWhatToDo']
    thres = [x for x in c.calls if x[0] == 'getThresholds']
    out = [x for x in c.calls if x[0] == 'outputNetwork']
    for x in what:
        ctx.ob('program', 'collection', any(callee(v) == 'getFiles' for v in x[2]) or not any(y[0] == 'getFiles' for y in c.calls), 'what is done is not done to the collection that was read', x[4])
    for x in make:
        yes_ = any(val is True and asks(a, {'getWhatToDo'}) for a, val in x[5].items())
        no_ = any(val is False and asks(a, {'getWhatToDo'}) for a, val in x[5].items())
        if what:
            ctx.ob('program', 'network', yes_ and not no_, 'a network is made though none was asked for', x[4])
        ctx.ob('program', 'network from', any(callee(v) == 'getFiles' for v in x[2]) or not any(y[0] == 'getFiles' for y in c.calls), 'the network is not made from the collection that was read', x[4])
    for x in thres:
        ctx.ob('program', 'filter', any(callee(v) == 'getNetwork' for v in x[2]), 'it is not the network that was made that is filtered', x[4])
    for x in out:
        ctx.ob('program', 'output', any(callee(v) == 'getThresholds' for v in x[2]) or not thres, 'it is not the filtered network that is written', x[4])
    for st, v in rets:
        for a, val in st.conds.items():
            if val is True and callee(a) == 'getWhatToDo' and is_c(v) and v[2] == 1:
                names = {c.calls[i][0] for i in st.facts.get('did', ())}
                ctx.ob('program', 'all', {'getNetwork', 'outputNetwork'} <= names or not make, 'a graph that was asked for is not made or not written', main.where())
    for st, exc, node, implicit in raises:
        e = getattr(exc, 'name', exc)
        if e in ('SystemExit', 'ANY', 'BaseException', 'GeneratorExit'):
            continue
        ok = any(val is True and '.debug' in show(a) for a, val in st.conds.items())
        early = not any('argumentParser' in show(a) for a in st.conds) and False
        if implicit and not ok:
            ctx.undecided('program', 'errors', 'an error may come from handling another')
            continue
        ctx.ob('program', 'errors', ok, 'errors are not reported but end the program with a traceback, without --debug', main.where(node))


def mod_funcs(m):
    return [f for fid, f in sorted(m.funcs.items()) if fid.startswith(CLI + ':')]


def files(ctx, m, f):
    """every file that is named is read, with the suffix that is asked for; one that is missing is told"""
    try:
        c, eng, rets, raises = play(m, f)
    except Budget:
        return ctx.undecided('files', f.fid, 'too many paths')
    ctx.saw(f)
    reads = [x for x in c.calls if x[0] == 'RecordCollection' and x[2]]
    for x in reads:
        ctx.ob('files', 'read', any('.files' in show(v) for v in x[2]), 'what is read is not what was named', x[4])
        vals = list(x[2][1:]) + list(x[3].values())
        ctx.ob('files', 'suffix', any('.suffix' in show(v) for v in vals), 'the suffix that is asked for is not used', x[4])
        guard = [a for a, val in x[5].items() if val is True and callee(a) in ('exists', 'isfile', 'isdir', 'lexists')]
        ctx.count('reads')
    rdefs = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    for loop in ast.walk(f.node):
        if isinstance(loop, (ast.For, ast.While)):
            for n in ast.walk(loop):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'attr', getattr(n.value.func, 'id', None)) == 'RecordCollection':
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            own = any(isinstance(y, ast.Name) and y.id == t.id for y in ast.walk(n.value))
                            ctx.ob('files', 'all', own or t.id not in rdefs, 'only the last of the files is kept', f.where(n))
    for st, v in rets:
        for x in alts(v):
            if again(f, x):
                continue
            ctx.ob('files', 'answer', x[0] == 'r' or callee(x) == 'RecordCollection' or not is_c(x), 'the collection that was read is not handed on', f.where())


def run(ctx):
    m = ctx.model
    ctx.rule('does', 'every option of a menu does what it says, on every way through it, and nothing else')
    ctx.rule('next', 'after an option the program goes on as the option says')
    ctx.rule('given', 'what the user is asked for is what is used')
    ctx.rule('overwrite', 'no file is overwritten unasked')
    ctx.rule('answer', 'a question is only left with an answer that fits it')
    ctx.rule('option', 'every option of the command line is looked at, and is off unless given')
    ctx.rule('program', 'what is read, made, filtered and written is one and the same')
    ctx.rule('files', 'what is named is read')
    mod = m.mods.get(CLI)
    if mod is None:
        ctx.undecided('does', CLI, 'there is no such module')
        return
    hs = helpers(m, mod)
    for n, g in (('yesorNo', yes), ('Tag', tag), ('getNum', num), ('inputMenu', menu), ('getOutputName', name), ('getFiles', files)):
        if n in hs:
            g(ctx, m, hs[n])
        else:
            ctx.undecided('answer', n, 'there is no such function')
    for f in mod_funcs(m):
        if f.name not in hs and 'inputMenu' in {getattr(n.func, 'id', getattr(n.func, 'attr', None)) for n in ast.walk(f.node) if isinstance(n, ast.Call)}:
            options(ctx, m, f, 'inputMenu')
    program(ctx, m, mod, hs)
