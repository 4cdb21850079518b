"""C04: what a caller passes in is left as it was."""
from . import effrules as er


def run(ctx):
    ctx.rule('argument-untouched', 'no function changes an argument in place, except the graph given to the functions documented as changing it')
    n = 0
    for f, c, rows, why in er.analyse(ctx):
        names = er.params(f)
        if f.cls is not None and f.kind != 'static':
            names = names[1:]
        allowed = {names[i] for i in er.INPLACE_ARG.get(f.name, ()) if i < len(names)} if f.cls is None else set()
        for p in names:
            if p in allowed:
                continue
            n += 1
            cons = '{}({})'.format(f.fid, p)
            if why:
                ctx.undecided('argument-untouched', cons, why)
            bad = [(t, how, where) for t, o, how, where, v, fn in rows if o[0] == 'p' and o[1] == p
                   and not er.is_memo(ctx.model, f, c, t, how)]
            if bad:
                t, how, where = bad[0]
                ctx.ob('argument-untouched', cons, False, '{} is changed in place ({}) at {}'.format(er.show(t), how, where), where)
            else:
                ctx.ob('argument-untouched', cons, True)
    ctx.need('arguments that must not be changed', n, 300)
