"""C22: relaxation rules of the shortest-path search, on every path of the loops."""
from graph import *

START = 'the search starts from distance zero at the source only'
RELAX = 'a recorded distance is the first one or smaller, is the settled distance plus the edge length, and is queued with that value'
NOLOSS = 'an edge is passed over only if it brings no improvement'
NEXT = 'the smallest queued distance is continued with, and skipped only if it is out of date'
ALL = 'every edge of the settled vertex is looked at and the search goes on until nothing is queued'


def entry(v):
    """(distance, vertex) of a queued value; None when it is not a reversed pair"""
    if not (isinstance(v, T) and v.op == 'agg' and str(v.args[0]).endswith('Reverse')):
        return None
    t = v.args[2]
    if isinstance(t, T) and t.op == 'agg' and len(t.args) == 4:
        return P(t.args[2]), P(t.args[3])
    return None


def pushes(h, base):
    """values pushed on top of the heap base, None when something else happened"""
    out = []
    while isinstance(h, T) and h is not base:
        if h.op != 'hpush':
            return None
        out.append(h.args[1])
        h = h.args[0]
    return out[::-1] if h is base else None


class Hook(RecHook):
    # a queue of one entry is a queue, and distances may change in every round
    unroll = False
    vary = {'store', 'hpush'}


def run_search(crates, f):
    o = Rules(f, f.name)
    I = AI(crates, Hook())
    st = State()
    st.mem[('obj', 'g')] = mk('carr', 'g', N)
    s0 = P(sym('s', 'usize'))
    st.assume(ge(N, 1), le(N, MAXN), ge(s0, 0), lt(s0, N))
    res, _ = call(I, f.path, st, [ref(('obj', 'g')), s0])
    g = mk('carr', 'g', N)
    loops = [find(I, i) for i in used_loops([s for s, v in res])]
    o.live = {i.id for i in loops}
    o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(loops))]
    # the outer loop is the one that pops; its array is the result
    outer = [i for i in loops if any(e[0] == 'hpop' for s, b in i.backs for e in s.events())]
    if not outer and not loops and not any(g in atoms_deep(l) for s, v in res for l in s.facts.lits):
        for s, v in res:
            o.local(ALL, 'edges', s, le(N, 1), 'no edge is ever looked at')
        return o.rows
    if len(outer) != 1:
        o.skip(START, 'main loop')
        return o.rows
    out = outer[0]
    heaps = [x for x, i in out.phis.items() if isinstance(i, T) and i.op in ('hpush', 'hempty')]
    arrs = [x for x, i in out.phis.items() if isinstance(i, T) and is_arr(i) and all(v is x for s, v in res)]
    if len(heaps) != 1 or len(arrs) != 1:
        o.skip(START, 'heap and distances: %s' % {show(k): show(v, 5) for k, v in out.phis.items()})
        return o.rows
    H, D = heaps[0], arrs[0]
    e = out.entry
    # ---- start
    h0 = pushes(out.phis[H], mk('hempty'))
    d0 = out.phis[D]
    w0 = None
    a = d0
    while isinstance(a, T) and a.op == 'store':
        a = a.args[0]
    w0 = stores(d0, a)
    if h0 is None or not (isinstance(a, T) and a.op == 'rep'):
        o.skip(START, 'start %s %s' % (show(d0, 5), show(out.phis[H], 5)))
    else:
        if option(a.args[0]) != ('none',):
            o.wrong(START, 'start', e, 'a vertex other than the source starts with the distance %s' % show(a.args[0]))
        elif len(w0) != 1 or option(w0[0][1])[0] != 'some':
            o.wrong(START, 'start', e, 'the distances at the start are %s' % show(d0, 6))
        else:
            o.local(START, 'start', e, b_and(eq(w0[0][0], s0), eq(P(option(w0[0][1])[1]), 0)), 'the distances at the start are %s' % show(d0, 6))
        es = [entry(v) for v in h0]
        if any(x is None for x in es):
            o.wrong(START, 'queue', e, 'the queue holds %s' % ', '.join(show(x, 6) for x in h0))
        elif len(es) != 1:
            o.wrong(START, 'queue', e, 'the queue starts with %d entries' % len(es))
        else:
            o.local(START, 'queue', e, b_and(eq(es[0][0], 0), eq(es[0][1], s0)), 'the queue starts with %s' % show(h0[0], 6))
    # ---- one settled vertex
    top = mk('hmax', H)
    rest = mk('hrest', H)
    pair = fld(top, 0)
    d, u = P(fld(pair, 0)), P(fld(pair, 1))
    # what holds of queued vertices whatever the graph: they have a distance, not above the queued one; the source has zero
    o.roots = (D, H)
    have = lambda A, x, s, f: b_and(is_some(I, I.sel(A, x, s), s), f(P(payload(I.sel(A, x, s)))))
    o.extra = (have(D, u, e, lambda x: le(x, d)), have(D, s0, e, lambda x: eq(x, 0)), ge(P(mk('len', H)), 1), lt(u, N))
    stale = set()
    for s, b in out.backs:
        if s.unk:
            o.skip(NEXT, str(s.unk))
            continue
        pops = [x for x in s.events() if x[0] == 'hpop']
        inner = [find(I, x[1]) for x in s.events() if x[0] == 'loop']
        inner = [x for x in inner if any(v is D or v is rest for v in x.phis.values())]
        if len(pops) != 1:
            o.skip(NEXT, '%d pops' % len(pops))
            continue
        cell = I.sel(D, u, s)
        if not inner:
            if b.get(D, D) is not D or b[H] is not rest:
                o.skip(NEXT, 'changes without a pass over the edges')
                continue
            # skipped
            dist = P(payload(cell))
            fresh = b_and(is_some(I, cell, s), eq(dist, d))
            # nothing to look at is fine as well
            o.local(NEXT, 'skip', s, b_or(b_not(fresh), eq(arr_len(mk('sel', g, u)), 0)), 'the entry of vertex %s is skipped although it is up to date' % show(u))
            continue
        if len(inner) != 1:
            o.skip(NEXT, 'several passes')
            continue
        i = inner[0]
        if i.id in stale:
            continue
        stale.add(i.id)
        edges(o, I, i, s, b, D, H, rest, d, u, g, s0, have)
    # ---- the end
    o.extra = ()
    for s, v in res:
        o.local(ALL, 'end', s, le(P(mk('len', H)), 0), 'the search ends while entries are queued')
    panics(o, I, RELAX)
    return o.rows


def edges(o, I, i, s_out, b_out, D, H, rest, d, u, g, s0, have):
    ds = [x for x, v in i.phis.items() if v is D]
    hs = [x for x, v in i.phis.items() if v is rest]
    # what no pass changes stays what it is
    ds, hs = ds or [D], hs or [rest]
    if len(ds) != 1 or len(hs) != 1 or b_out.get(D, D) is not ds[0] or b_out.get(H, H) is not hs[0]:
        o.skip(RELAX, 'distances inside the pass')
        return
    D2, H2 = ds[0], hs[0]
    outside = o.roots, o.extra
    o.roots += (D2, H2)
    o.extra += (have(D2, u, s_out, lambda x: eq(x, d)), have(D, u, s_out, lambda x: eq(x, d)), have(D2, s0, s_out, lambda x: eq(x, 0)))
    adj = mk('sel', g, u)
    # which edge a pass is about: any order that meets every edge once
    read = set()
    for s, b in i.backs:
        read |= {x for l in s.facts.lits for x in atoms_deep(l) if x.op == 'sel' and x.args[0] is adj}
    last = P(arr_len(adj)) - 1
    from0 = [(x, P(x.args[1]) - i.it) for x in read] + [(x, last - P(x.args[1]) - i.it) for x in read]
    from0 = [(x, k.const()) for x, k in from0 if k.const() is not None]
    if len(from0) != 1:
        rows = {x.args[0] for s, b in i.backs for l in s.facts.lits for x in atoms_deep(l) if x.op == 'sel' and x.args[0].op == 'sel' and x.args[0].args[0] is g}
        if not from0 and len(rows) == 1 and adj not in rows:
            x = P(list(rows)[0].args[1])
            if not any(r.op == 'phi' and r.args[0] == i.id for r in atoms_deep(list(rows)[0])):
                o.local(ALL, 'other', s_out, b_or(eq(x, u), le(arr_len(adj), 0)), 'the edges of vertex %s are looked at instead of those of vertex %s' % (show(x), show(u)))
                return
        o.skip(RELAX, 'the edge of a pass')
        return
    el, k0 = from0[0]
    v, c = P(fld(el, 0)), P(fld(el, 1))
    inside = o.extra
    for s, b in i.backs:
        if s.unk:
            o.skip(RELAX, str(s.unk))
            continue
        if s.facts.entails(ge(d + c, 1 << 64)):
            continue        # lengths of paths fit by assumption
        w = stores(b.get(D2, D2), D2)
        q = pushes(b.get(H2, H2), H2)
        if w is None or q is None:
            o.skip(RELAX, 'distances after an edge: %s %s' % (show(b.get(D2), 5), show(b.get(H2), 5)))
            continue
        o.extra = inside + (le(d + c, 1 << 40), lt(v, N))
        cell = I.sel(D2, v, s)
        dist = P(payload(cell))
        some, none = is_some(I, cell, s), is_none(I, cell, s)
        if not w and not q:
            o.local(NOLOSS, 'loss', s, b_and(some, le(dist, d + c)), 'the edge to vertex %s is passed over' % show(v))
            continue
        if len(w) != 1 or len(q) != 1:
            if not w:
                o.wrong(RELAX, 'unrecorded', s, 'an entry is queued without being recorded')
            elif not q:
                o.local(RELAX, 'unqueued', s, le(P(arr_len(mk('sel', g, v))), 0), 'a distance is recorded without being queued')
            else:
                o.skip(RELAX, '%d records, %d entries' % (len(w), len(q)))
            continue
        val = option(w[0][1])
        if val[0] != 'some':
            o.wrong(RELAX, 'record', s, 'the recorded distance is %s' % show(w[0][1], 5))
            continue
        o.local(RELAX, 'record', s, b_and(eq(w[0][0], v), eq(P(val[1]), d + c)), 'dis[%s] = %s is recorded for the edge to %s' % (show(w[0][0]), show(val[1]), show(v)))
        o.local(RELAX, 'better', s, b_or(none, b_and(some, gt(dist, d + c))), 'a distance is recorded that is not smaller than the one before')
        en = entry(q[0])
        if en is None:
            o.wrong(RELAX, 'entry', s, 'the queued value is %s' % show(q[0], 6))
        else:
            o.local(RELAX, 'entry', s, b_and(eq(en[0], P(val[1])), eq(en[1], w[0][0])), 'the queued value is %s' % show(q[0], 6))
    o.extra = outside[1]
    # every edge
    o.local(ALL, 'edges', s_out, ge(i.it + k0, arr_len(adj)) if k0 <= 0 else le(arr_len(adj), 0), 'edges of vertex %s are left out' % show(u))
    o.roots = outside[0]


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        fs = [f for f in crates[0].fns.values() if f.body and f.path.split('::')[-1] == 'dijkstra']
        if not ctx.need(len(fs) == 1, 'dijkstra'):
            return
        tasks.append((fs[0].path, run_search, crates, fs[0]))
    ctx.tasks(tasks, limit=150)
    ctx.floor(len(tasks), 2, 'functions')
    ctx.assumptions += ['the queue yields its largest element (C26: of reversed values)', 'path lengths fit in usize']
