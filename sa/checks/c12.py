"""C12: what a range product of the segment trees combines, in the segment domain over leaf positions.

Assumed here, decided in C15 and C13: node k holds the combination of the leaves below it, with nothing pending above the
nodes that are read."""
from tree import *

RULE = 'a range product combines exactly the elements l .. r-1 in order'
ALL = 'the whole-array product combines all elements'


def run_prod(crates, adt, ctor, f, lazy):
    nm = '%s::%s' % (adt.split('::')[-1], f.name)
    o = Out(f, nm)
    infos = []
    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        s = start(t)
        abstract_steps(I, t)
        args = [ref(('obj', 'self'))]
        if len(f.inputs) == 3:
            l, r = P(sym('l', 'usize')), P(sym('r', 'usize'))
            s.assume(ge(l, 0), le(l, r), le(r, N))
            args += [l, r]
            want, rule = Seg(SIZE + l, SIZE + r), RULE
        else:
            want, rule = Seg(SIZE, SIZE + N), ALL
        res, _ = call(I, f.path, s, args)
        infos = I.loops_done
        o.rows += [('an', 'loops', len(infos)), ('an', 'paths', len(res))]
        D = LevelD(I, t)
        good = True
        for info in infos:
            for x in val_phis(info):
                e = D.climb(info, x)
                if e:
                    good = False
                    o.fail(rule, 'step', e, info)
        if good:
            for s2, v in res:
                try:
                    if s2.unk:
                        raise Stop(str(s2.unk))
                    s3 = s2
                    for i in infos:
                        s3 = products(s3, i, i.it)
                    x = D.value(v, s3)
                    if not D.same(x, want, s3):
                        raise Bad(s3, D.eqf(x, want), 'the product covers %s, wanted %s' % (x, want))
                    o.ok(rule)
                except Stop as e:
                    o.fail(rule, 'result', e, *infos)
        panics(o, I, rule)
    except Stop as e:
        o.fail(RULE, 'shape', e)
    return o.rows


def trees(ctx, cfg='debug'):
    crates = ctx.crates(cfg)
    cr = crates[0]
    out = []
    for name in ('Segtree', 'LazySegtree'):
        adt = find_adt(cr, name)
        if not ctx.need(adt, name):
            return None
        cs = [f for f in ctors(cr, adt) if f.impl_trait and f.name == 'from']
        if not ctx.need(len(cs) == 1, name + '::from'):
            return None
        out.append((crates, adt, cs[0], name == 'LazySegtree'))
    return out


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        ts = trees(ctx, cfg)
        if not ts:
            return
        for crates, adt, ctor, lazy in ts:
            for m in ('prod', 'all_prod'):
                f = method(crates[0], adt, m)
                if not ctx.need(f, '%s::%s' % (adt, m)):
                    return
                tasks.append((f.path, run_prod, crates, adt, ctor, f, lazy))
    ctx.tasks(tasks, limit=150)
    ctx.floor(len(tasks), 8, 'functions')
    ctx.assumptions += ['length at most 2^30', 'the operation is associative with the given identity',
                        'every node holds the combination of the leaves below it (C15), nothing pending above it (C13)']
