"""Shared engine client: what the package's own attributes hold, and which
parts of it are irrelevant to every rule (progress display)."""
from .interp import Client, T
from .model import Cls

ATTR_TYPES = {'_collection': 'set', '_collectedTypes': 'set', '_fieldDict': 'dict', '_computedFields': 'dict'}
COLL_ATTRS = {'errors': 'dict', 'name': 'str', 'bad': 'bool'}


def put_in(value):
    """the terms a mutation puts into its target"""
    if not isinstance(value, tuple) or not value:
        return ()
    return (value,) if isinstance(value[0], str) else value


def is_coll(m, ty):
    return isinstance(ty, Cls) and any(isinstance(k, Cls) and k.name == 'Collection' for k in m.mro(ty))


def is_record(m, ty):
    return isinstance(ty, Cls) and any(isinstance(k, Cls) and k.name == 'Record' for k in m.mro(ty))


def is_progress(m, ty):
    return isinstance(ty, Cls) and ty.name == '_ProgressBar'


class Base(Client):
    max_states = 48
    opaque_classes = ('_ProgressBar',)
    opaque_funcs = ()
    progress = True        # analysed with the progress display switched on / off / None: both

    def inline(self, eng, fn, st):
        if fn.cls is not None and fn.cls.name in self.opaque_classes:
            return False
        return fn.name not in self.opaque_funcs

    def type_of(self, eng, st, t):
        if t[0] == 'at':
            ty = ATTR_TYPES.get(t[2])
            if ty is not None:
                return ty
            if t[2] in COLL_ATTRS and is_coll(eng.m, eng.type_of(st, t[1])):
                return COLL_ATTRS[t[2]]
            if t[2] in ('_sourceFile', '__name__', '__qualname__'):
                return 'str'
        return None

    def decide(self, eng, st, atom):
        if atom[0] == 'truth' and self.progress is not None:
            x = atom[1]
            if x[0] == 'r' and is_progress(eng.m, eng.type_of(st, x)):
                return self.progress
            if x[0] == 'g' and x[-1] == 'VERBOSE_MODE' or x[0] == 'at' and x[2] == 'VERBOSE_MODE':
                return self.progress
        return None
