"""C05: queries, exports, derived collections and network builders leave the
collection, record, citation or grant they are asked of unchanged."""
from . import effrules as er


def run(ctx):
    ctx.rule('query-leaves-object', 'a method that is not a documented in-place operation changes neither the object it is called on, nor '
             'anything that object holds (records, their fields, errors), except to remember a value it computed')
    n = 0
    for f, c, rows, why in er.analyse(ctx):
        if f.kind == 'static' or f.cls is None or not er.params(f):
            continue
        if f.name in er.INPLACE_SELF:
            continue
        me = er.params(f)[0]
        cons = '{}({})'.format(f.fid, me)
        n += 1
        if why:
            ctx.undecided('query-leaves-object', cons, why)
        bad = [(t, how, where, v) for t, o, how, where, v, fn in rows if o[0] == 'p' and o[1] == me
               and not er.is_memo(ctx.model, f, c, t, how) and not er.keeps_value(t, how, v)]
        if bad:
            t, how, where, v = bad[0]
            ctx.ob('query-leaves-object', cons, False, '{} is changed in place ({}) at {}'.format(er.show(t), how, where), where)
        else:
            ctx.ob('query-leaves-object', cons, True)
    ctx.need('methods that must not change their object', n, 100)
