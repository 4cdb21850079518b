"""Membership of an arbitrary element in a symbolic container content.

Contents are the expressions the interpreter keeps for every container
(base | literal | union, intersection, difference, symmetric difference |
selection of another container's elements under guards).  For one arbitrary
element and one assignment of membership in the bases the expression is
evaluated in three-valued logic; comparing it with the expected function over
every assignment decides set equality for all contents."""
import itertools

from .interp import T, is_c

KIND = {'|': lambda a, b: True if True in (a, b) else None if None in (a, b) else False,
        '&': lambda a, b: False if False in (a, b) else None if None in (a, b) else True,
        '-': lambda a, b: False if a is False or b is True else None if None in (a, b) else True,
        '^': lambda a, b: None if None in (a, b) else a != b}


def norm(t):
    """collections stand for the set inside them"""
    return t


def member(alg, env, guard=None):
    k = alg[0]
    if k == 'base':
        return env.get(alg[1])
    if k == 'lit':
        r = False
        for x in alg[1]:
            v = env.get(x)
            r = KIND['|'](r, v)
        return r
    if k == 'sop':
        return KIND[alg[1]](member(alg[2], env, guard), member(alg[3], env, guard))
    if k == 'filt':
        src = alg[1]
        r = member(src[1], env, guard) if src[0] == 'cont' else env.get(src)
        for atom, val in alg[3]:
            r = KIND['&'](r, holds(atom, val, alg[2], env, guard))
        return r
    if k == 'alt':
        a, b = member(alg[1], env, guard), member(alg[2], env, guard)
        return a if a == b else None
    if k == 'sub':
        return False if member(alg[1], env, guard) is False else None
    return None


def holds(atom, val, el, env, guard):
    if atom[0] == 'dnf':
        r = False
        for c in atom[1:]:
            x = True
            for _, a, v in c[1:]:
                x = KIND['&'](x, holds(a, v[2], el, env, guard))
            r = KIND['|'](r, x)
        return None if r is None else r == val
    g = guard(atom, el, env) if guard is not None else None
    return None if g is None else g == val


def std_guard(atom, el, env):
    """guards every selection may carry: membership tests against a base"""
    if atom[0] == 'cmp' and atom[1] == 'in' and atom[2] == el:
        b = atom[3]
        if b[0] == 'cont':
            return member(b[1], env, std_guard)
        if b in env:
            return env[b]
        t = T('at', b, '_collection')
        return env.get(t)
    if atom[0] == 'cmp' and atom[1] == '==' and el in (atom[2], atom[3]):
        o = atom[3] if atom[2] == el else atom[2]
        return env.get(o)
    return None


def compare(alg, bases, expected, guard=std_guard):
    """True / False (with a witness) / None over every assignment of bases"""
    und = False
    for vals in itertools.product((False, True), repeat=len(bases)):
        env = dict(zip(bases, vals))
        got = member(alg, env, guard)
        want = expected(*vals)
        if got is None:
            und = True
        elif got != want:
            return False, dict(zip([b for b in bases], vals)), got
    return (None if und else True), None, None


def looks_inside(alg):
    """a guard atom that decides membership by what an element is made of (an attribute, field or
    method result of the element), which two different elements can share"""
    from .interp import subterms
    if not isinstance(alg, tuple) or not alg:
        return None
    if alg[0] == 'filt':
        el = alg[2]
        for atom, val in alg[3]:
            if atom[0] == 'call' and atom[1] == T('x', 'isinstance'):
                continue
            for x in subterms(atom):
                if x[0] in ('at', 'it') and x[1] == el and not (x[0] == 'at' and str(x[2]).startswith('__')):
                    return atom
                if x[0] == 'meth' and x[1] == el and not x[2].startswith('__'):
                    return atom
                if x[0] == 'call' and x[1] == T('x', 'getattr') and x[2] and x[2][0] == el:
                    return atom
    for x in alg[1:]:
        if isinstance(x, tuple):
            r = looks_inside(x[1] if x and x[0] == 'cont' and len(x) > 1 else x)
            if r is not None:
                return r
    return None


def show_alg(a):
    from .interp import show
    k = a[0]
    if k == 'base':
        return show(a[1])
    if k == 'lit':
        return '{' + ', '.join(sorted(show(x) for x in a[1])) + '}'
    if k == 'sop':
        return '({} {} {})'.format(show_alg(a[2]), a[1], show_alg(a[3]))
    if k == 'filt':
        src = show_alg(a[1][1]) if a[1][0] == 'cont' else show(a[1])
        g = sorted(('' if v else 'not ') + show(x) for x, v in a[3])
        return '{{x in {}{}}}'.format(src, ' if ' + ' and '.join(g) if g else '')
    if k == 'sub':
        return 'part of ' + show_alg(a[1])
    if k == 'alt':
        return '({} or {})'.format(show_alg(a[1]), show_alg(a[2]))
    return '?'
