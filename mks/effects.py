"""Side-effect analysis: every in-place change a function can make (through any
alias, helper, nested function or container it was put into), with the owner of
the object that is changed."""
import ast

from .clients import Base, is_coll, is_record
from .interp import Budget, C, Engine, NONE, T, UNDEF, alts, is_c, show, subterms
from .model import Cls

# call results that are (a part of) the object they are called on
PARTS = {'get', 'pop', 'setdefault', 'values', 'items', 'keys', '__getitem__', 'popitem', 'peek', '__iter__', '__next__', 'next', 'getID',
         '_getitem', 'nodes', 'edges', 'popleft'}
EXT_PARTS = {'next', 'iter', 'reversed', 'vars', 'getattr', 'itertools.chain.from_iterable', 'itertools.islice', 'itertools.cycle', 'max', 'min'}
# outside functions that change an argument in place: name -> positions
EXT_MUT = {'random.shuffle': (0,), 'heapq.heappush': (0,), 'heapq.heappop': (0,), 'heapq.heapify': (0,), 'heapq.heapreplace': (0,),
           'heapq.heappushpop': (0,), 'bisect.insort': (0,), 'bisect.insort_left': (0,), 'bisect.insort_right': (0,),
           'networkx.set_node_attributes': (0,), 'networkx.set_edge_attributes': (0,), 'networkx.add_path': (0,), 'networkx.add_star': (0,),
           'networkx.add_cycle': (0,), 'operator.setitem': (0,), 'operator.delitem': (0,), 'operator.iadd': (0,), 'operator.ior': (0,),
           'operator.iand': (0,), 'operator.isub': (0,), 'operator.ixor': (0,), 'networkx.freeze': (0,)}


def owner(t, n=0):
    """the term the object t belongs to, following part-of steps"""
    while n < 60:
        n += 1
        k = t[0]
        if k == 'it' and t[2][0] == 'slice':
            return t                 # slicing copies
        if k in ('at', 'it', 'el', 'meth', 'enum', 'iter'):
            t = t[1]
        elif k == 'cont':
            t = t[1]
        elif k == 'dview':
            t = t[2]
        elif k == 'base':
            t = t[1]
        elif k in ('filt',):
            t = t[1]
        elif k == 'call' and t[1][0] == 'meth' and t[1][2] in PARTS:
            t = t[1][1]
        elif k == 'call' and t[1][0] == 'x' and t[1][1] in EXT_PARTS and t[2]:
            t = t[2][0]
        else:
            return t
    return t


def owners(t):
    """all owners: element terms of a set expression have several"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in alts(x):
            o = owner(a)
            if o[0] == 'j':
                todo.append(o)
            elif o[0] == 'sop':
                todo.append(o[2])
                if o[1] in '|^':
                    todo.append(o[3])
            elif o[0] == 'alt':
                todo += [y for y in o[1:] if isinstance(y, tuple)]
            elif o[0] == 'lit':
                todo += list(o[1])
            elif o[0] == 'zip':
                todo += list(o[1:])
            elif o[0] == 'sub':
                todo.append(o[1])
            else:
                out.append((a, o))
    return out


def through_copy(st, t):
    """an element of a shallow copy is the original's element"""
    if t[0] == 'it' and t[2][0] != 'slice':
        b = through_copy(st, t[1])
        if b[0] == 'r':
            o = st.heap.get(b[1])
            if o is not None and o.kind in ('list', 'dict') and o.src is not None and not o.bag and not o.slots:
                return T('el', o.src)
        return T('it', b, t[2]) if b != t[1] else t
    return t


class Client(Base):
    max_states = 6
    max_depth = 5

    def __init__(self):
        self.muts = []

    def on_mutate(self, eng, st, node, t, how, value=None):
        for a in alts(t):
            if a not in (UNDEF, NONE):
                a = through_copy(st, a)
                self.muts.append((a, how, eng.where(node), eng.acts[0].fn, eng.fn, value))

    def on_global_store(self, eng, st, node, mod, name, value):
        self.muts.append((T('g', mod, name), 'global', eng.where(node), eng.acts[0].fn, eng.fn, value))

    def on_call(self, eng, st, node, name, recv, args, kw):
        if recv is None and name in EXT_MUT:
            for i in EXT_MUT[name]:
                if i < len(args):
                    self.on_mutate(eng, st, node, args[i], name)
        elif recv is None and name == 'networkx.relabel_nodes' and args:
            c = kw.get('copy', args[2] if len(args) > 2 else None)
            if c is not None and eng.known(st, c) is not True:
                self.on_mutate(eng, st, node, args[0], name)
        elif recv is None and '.' in name and args:
            head, _, meth = name.rpartition('.')
            if head in ('list', 'dict', 'set', 'collections.OrderedDict') and meth in UNBOUND:
                self.on_mutate(eng, st, node, args[0], meth)
        elif recv is not None and name in ('sort_values', 'drop', 'fillna', 'rename', 'sort_index', 'reset_index', 'set_index', 'dropna', 'replace') and \
                'inplace' in kw and eng.known(st, kw['inplace']) is not False:
            self.on_mutate(eng, st, node, recv, name)
        elif recv is not None and name in ('__setitem__', '__delitem__', '__iadd__', '__ior__', '__iand__', '__isub__', '__ixor__') and \
                not isinstance(eng.type_of(st, recv), Cls):
            self.on_mutate(eng, st, node, recv, name)
        return None


UNBOUND = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem',
           '__setitem__', '__delitem__', 'difference_update', 'intersection_update', 'symmetric_difference_update'}


def run(model, fn, selfcls=None, ptypes=None, budget=200000, client=None):
    """-> (mutations, decided?)"""
    cl = client or Client()
    eng = Engine(model, cl, budget)
    try:
        eng.run(fn, selfcls=selfcls, ptypes=ptypes or {})
        return cl.muts, None
    except Budget:
        return cl.muts, 'step budget'
    except RecursionError:
        return cl.muts, 'recursion'
