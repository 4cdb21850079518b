"""Deciding a selection predicate: the guards under which an arbitrary element
of a collection gets into a result, evaluated over every scenario of named
propositions (three-valued; a guard nobody recognises is unknown)."""
from .interp import C, T, alts, is_c, subterms
from .setalg import KIND

CASE = ('upper', 'lower', 'casefold')


def field_of(t, el):
    """name of the field of el that t is the value of"""
    if t[0] == 'call' and t[1][0] == 'meth' and t[1][1] == el and t[1][2] in ('get', '__getitem__') and t[2] and is_c(t[2][0]):
        return t[2][0][2]
    if t[0] == 'it' and t[1] == el and is_c(t[2]):
        return t[2][2]
    if t[0] == 'at' and t[1] == el:
        return t[2]
    if t[0] == 'call' and t[1] == T('x', 'getattr') and len(t[2]) >= 2 and t[2][0] == el and is_c(t[2][1]):
        return t[2][1][2]
    if t[0] == 'call' and t[1][0] == 'x' and t[1][1] in ('list', 'set', 'tuple', 'iter', 'sorted') and t[2]:
        return field_of(t[2][0], el)
    if t[0] == 'j':
        fs = {field_of(x, el) for x in t[1] if not is_c(x) and x[0] != 'r'}
        return fs.pop() if len(fs) == 1 else None
    return None


def peel(t):
    """(term without case changes, the case change)"""
    how = None
    while t[0] == 'call' and t[1][0] == 'meth' and t[1][2] in CASE:
        how = how or t[1][2]
        t = t[1][1]
    return t, how


def strip_calls(t, names):
    while t[0] == 'call' and t[1][0] == 'x' and t[1][1] in names and t[2]:
        t = t[2][0]
    return t


class Wrong(Exception):
    """a recognised test that decides something else than documented"""


def member(alg, env, lit):
    """is an arbitrary element of the source in alg?  lit(atom, val, el) -> bool/None"""
    k = alg[0]
    if k == 'base':
        return env.get(alg[1])
    if k == 'lit':
        r = False
        for x in alg[1]:
            r = KIND['|'](r, env.get(x))
        return r
    if k == 'sop':
        return KIND[alg[1]](member(alg[2], env, lit), member(alg[3], env, lit))
    if k == 'filt':
        src = alg[1]
        r = member(src[1], env, lit) if src[0] == 'cont' else env.get(src)
        for atom, val in alg[3]:
            if r is False:
                break
            r = KIND['&'](r, any_of(atom, val, lambda a, v: lit(a, v, alg[2])) if atom[0] == 'dnf' else lit(atom, val, alg[2]))
        return r
    if k == 'alt':
        a, b = member(alg[1], env, lit), member(alg[2], env, lit)
        return a if a == b else None
    if k == 'sub':
        return False if member(alg[1], env, lit) is False else None
    return None


def any_of(atom, val, lit):
    """truth of a 'one of these groups of conditions holds' atom"""
    r = False
    for c in atom[1:]:
        x = True
        for _, a, v in c[1:]:
            x = KIND['&'](x, any_of(a, v[2], lit) if a[0] == 'dnf' else lit(a, v[2]))
            if x is False:
                break
        r = KIND['|'](r, x)
    return None if r is None else r == val


def guard(conds, lit):
    """truth of a conjunction of conditions; a test that decides something else than
    documented (Wrong) counts only where the rest does not rule the path out"""
    r, wrong = True, None
    for a, v in conds.items():
        try:
            x = any_of(a, v, lit) if a[0] == 'dnf' else lit(a, v)
        except Wrong as e:
            wrong, x = e, True
        r = KIND['&'](r, x)
        if r is False:
            return False
    if wrong is not None:
        raise wrong
    return r


ORD = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, 'is': lambda a, b: a is b}


def number(t, val):
    """value of an arithmetic term, val(term) -> number or None"""
    v = val(t)
    if v is not None:
        return v
    if is_c(t) and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
        return t[2]
    if t[0] == 'call' and t[1][0] == 'x' and t[1][1] in ('int', 'float', 'abs') and len(t[2]) == 1:
        v = number(t[2][0], val)
        return None if v is None else abs(v) if t[1][1] == 'abs' else int(v) if t[1][1] == 'int' and abs(v) != float('inf') else v
    if t[0] == 'bin' and t[1] in ('+', '-', '*'):
        a, b = [int(x[2]) if is_c(x) and isinstance(x[2], bool) else number(x, val) for x in t[2:4]]
        if a is None or b is None:
            return None
        return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
    if t[0] == 'cmp' and t[1] in ORD:
        a, b = number(t[2], val), number(t[3], val)
        return None if a is None or b is None else int(ORD[t[1]](a, b))
    if t[0] == 'call' and t[1][0] == 'x' and t[1][1] in ('min', 'max') and len(t[2]) > 1:
        vs = [number(x, val) for x in t[2]]
        if None in vs:
            return None
        return min(vs) if t[1][1] == 'min' else max(vs)
    return None


def order_atom(atom, val):
    """truth of an order atom when val gives the numbers"""
    if atom[0] == 'cmp' and atom[1] in ORD:
        a, b = number(atom[2], val), number(atom[3], val)
        if a is None or b is None:
            return None
        return ORD[atom[1]](a, b)
    if atom[0] == 'cmp' and atom[1] == 'in' and atom[3][0] == 'range':
        a = number(atom[2], val)
        bs = [number(x, val) for x in atom[3][1:]]
        if a is None or None in bs:
            return None
        return a in range(*[int(b) for b in bs])
    return None


def summands(t):
    """[(sign, term)] of a sum"""
    if t[0] == 'bin' and t[1] in ('+', '-'):
        r = summands(t[3])
        return summands(t[2]) + [(-x if t[1] == '-' else x, y) for x, y in r]
    return [(1, t)]


def carried(eng, st, node):
    """{(frame, name): [(sign, term)]} for the variables carried around loop `node`: what this
    iteration added to the value from the previous one ([] = unchanged)"""
    out = {}
    site = eng.site(node)
    for fid, (_, env) in st.frames.items():
        for n, v in (env or {}).items():
            if not isinstance(v, tuple) or not v:
                continue
            for a in alts(v):
                ss = summands(a)
                mine = [x for x in ss if x[1][0] == 'phi' and x[1][1] == site and x[1][2] == n]
                if len(mine) == 1 and mine[0][0] == 1:
                    out.setdefault((fid, n), []).append([x for x in ss if x is not mine[0]])
    return out
