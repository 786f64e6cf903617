"""C20: the two partner tables of the matching mirror each other, by induction over the augmenting search."""
from rec import *

PAIR = 'a successful search records both ends of one edge'
KEEP = 'a failed search leaves the partners as they were'
TAKE = 'a partner is taken over only after its own search has succeeded'
FREE = 'searches start from vertices without a partner only'
COUNT = 'the result counts the vertices that have a partner'
EMPTY_ = 'partners are recorded by searches only, edges by adding them'


def opt_vec(t):
    return t[0] == 'adt' and t[1].endswith('::Vec') and t[2] and t[2][0][0] == 'adt' and t[2][0][1].endswith('Option')


def setup(crates):
    """type, constructor, receiver, {role: field index}"""
    cr = crates[0]
    adt = find_adt(cr, 'AugmentedPath')
    f, ct = method(cr, adt, 'solve'), method(cr, adt, 'new')
    M = P(sym('M', 'usize'))
    facts = [ge(N, 0), le(N, MAXN), ge(M, 0), le(M, MAXN)]
    st = State()
    st.assume(*facts)
    sh = shapes(crates, adt, ct, [N, M], st, N)
    if len(sh) != 1:
        raise Unknown('shapes of the matching')
    v = sh[0].value
    fields = cr.adts[adt]['variants'][0]['fields']
    role = {}
    for k, (fd, x) in enumerate(zip(fields, v.args[2:])):
        t = cr.ty(fd['t'])
        if opt_vec(t):
            role['l' if arr_len(x) == N else 'r' if arr_len(x) == M else '?'] = k
        elif t[0] == 'adt' and t[1].endswith('::Vec') and t[2][0][0] == 'adt' and t[2][0][1].endswith('::Vec'):
            role['g'] = k
    if set(role) != {'l', 'r', 'g'}:
        raise Unknown('fields of the matching: %s' % sorted(role))
    return cr, adt, f, ct, M, facts, v, role


def where(S, role):
    """leaf of the search for every role, from the arguments of the first call"""
    out = {}
    for s, a, before in S.caps:
        for l in S.L:
            root, path = a[l.arg].args[0], a[l.arg].args[1] + l.path
            for r, k in role.items():
                if root == ('obj', 'self') and path == (('f', k),):
                    if out.setdefault(r, l.key) != l.key:
                        raise Unknown('arguments of the search')
    if set(out) != set(role):
        raise Unknown('arguments of the search')
    return {r: [l for l in S.L if l.key == k][0] for r, k in out.items()}


def analyse(crates):
    cr, adt, f, ct, M, facts, v, role = setup(crates)
    rs = recursive(cr, f.path)
    if len(rs) > 1:     # the ones that can write partners
        I = AI(crates, NoResidues())
        rs = [p for p in rs if any(l.mut and opt_vec(l.ty) for l in leaves(I, cr.fns[p], arg_names(cr.fns[p])))]
    if len(rs) != 1:
        raise Unknown('recursive searches under solve: %s' % rs)
    S = Search(crates, cr.fns[rs[0]])
    # lengths at the first call
    st = State()
    st.assume(*facts)
    st.mem[('obj', 'self')] = v
    S.L = leaves(AI(crates, NoResidues()), S.fn, S.names)
    S.outer(f.path, st.copy(), [ref(('obj', 'self'))])
    if not S.caps:
        raise Unknown('the search is not started')
    lens = {}
    for l in S.L:
        for s, a, before in S.caps[:1]:
            x = before[l.key]
            if isinstance(x, T) and l.ty[0] == 'adt' and l.ty[1].endswith('::Vec'):
                n = known_len(x, s.facts, (N, M))
                if not any(t.op in ('phi', 'opaque') for t in atoms_deep(n)):
                    lens[l.name] = n
    W = where(S, role)
    I, res = S.run(lens, facts, hypo={('F', W['l'].key), ('F', W['r'].key)})
    W = where(S, role)
    oI, ores = S.outer(f.path, st.copy(), [ref(('obj', 'self'))])
    return cr, adt, f, ct, M, facts, v, role, S, W, I, res, oI, ores


def roots_of(I, res):
    """tables that loops carry along, and numbers that nested searches may have changed"""
    out = set()
    new = set()
    for s, i, b in paths(I, res):
        for e in recs(s):
            new |= {P(e[4][k]) for k in e[4] if isinstance(e[4][k], Poly) and e[4][k] is not e[3][k]}
    for i in used_loops([s for s, v in res]):
        i = find(I, i)
        out |= {p for p, x in i.phis.items() if isinstance(x, T) and (is_arr(x) or x.op == 'phi')}
        out |= {p for p, x in i.phis.items() if isinstance(x, Poly) and any(isinstance(b.get(p), Poly) and b[p] in new for s, b in i.backs)}
    return tuple(out)


def live_of(I, res):
    return {i.id for i in used_loops([s for s, v in res])}


def run_search(crates, f):
    cr, adt, f, ct, M, facts, v, role, S, W, I, res, oI, ores = analyse(crates)
    o = Rules(S.fn, S.fn.name)
    o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(live_of(I, res)))]
    o.live = live_of(I, res)
    o.roots = roots_of(I, res)
    l, r, g = W['l'], W['r'], W['g']
    G = S.first[g.key]
    tops = sorted({P(e[2][0]) if not is_ref(e[2][0]) else None for s, i, b in paths(I, res) for e in recs(s)} , key=str) if False else None
    u = [a for a, t in zip(S.args, S.fn.inputs) if t[0] == 'int']
    if len(u) != 1:
        raise Unknown('vertex argument')
    u, ui = u[0], [i for i, t in enumerate(S.fn.inputs) if t[0] == 'int'][0]
    # the graph is not changed
    if any(g.key not in S.kept[k] for k in S.kept):
        o.skip(PAIR, 'the search changes the graph')
    for s, v in res:
        L0, R0 = S.first[l.key], S.first[r.key]
        L1, R1 = S.end(s, l), S.end(s, r)
        if s.unk:
            o.skip(PAIR, str(s.unk))
            continue
        if v is FALSE:
            ok = True
            for a, b, nm in ((L1, L0, 'left'), (R1, R0, 'right')):
                h = history(a, I, calls_made(I, res))
                if a is b or all(x is b for x in h[0]) and not h[1]:
                    continue
                ok = False
                w = stores(a, b)
                if w:
                    cond = b_and(TRUE, *[same_option(I, s, b, i, x) for i, x in w])
                    o.local(KEEP, 'failed', s, cond, 'the search fails and the %s side has become %s' % (nm, show(a, 5)))
                elif not undone(o, I, s, a, nm):
                    o.skip(KEEP, '%s side after a failure: %s' % (nm, show(a, 5)))
            if ok:
                o.ok(KEEP)
            continue
        if v is not TRUE:
            o.skip(PAIR, 'result %s' % show(v))
            continue
        good = [e for e in recs(s) if e[5] is TRUE]
        if len(good) > 1:
            o.skip(PAIR, 'several searches succeed')
            continue
        bl, br = (good[0][4][l.key], good[0][4][r.key]) if good else (L0, R0)
        if good and S.kept['F'] >= {l.key, r.key} and any(good[0][3][k] is not S.first[k] for k in (l.key, r.key)):
            h = [history(good[0][3][k], I, calls_made(I, res)) for k in (l.key, r.key)]
            if any(w for st_, w in h):
                o.skip(TAKE, 'partners change before the search goes on')
                continue
        wl, wr = stores(L1, bl), stores(R1, br)
        if wl is None or wr is None:
            o.skip(PAIR, 'after success: %s / %s' % (show(L1, 5), show(R1, 5)))
            continue
        if not wl or not wr:
            o.wrong(PAIR, 'one-sided', s, 'the search succeeds but records nothing on the %s side' % ('left' if not wl else 'right'))
            continue
        if len(wl) != 1 or len(wr) != 1:
            o.skip(PAIR, '%d + %d partners recorded' % (len(wl), len(wr)))
            continue
        (li, lv), (ri, rv) = wl[0], wr[0]
        lo, ro = option(lv), option(rv)
        if lo[0] != 'some' or ro[0] != 'some':
            bad = lo[0] == 'none' or ro[0] == 'none'
            (o.wrong(PAIR, 'cleared', s, 'the search succeeds and clears a partner: %s / %s' % (show(lv), show(rv))) if bad else o.skip(PAIR, 'partner %s / %s' % (show(lv), show(rv))))
            continue
        lo, ro = P(lo[1]), P(ro[1])
        o.local(PAIR, 'pair', s, b_and(eq(li, u), eq(ri, lo), eq(ro, u)),
                'vertex %s: the left side records %s = %s, the right side %s = %s' % (show(u), show(li), show(lo), show(ri), show(ro)))
        # the edge
        a = lo.atom()
        if a is not None and a.op == 'sel' and isinstance(a.args[0], T) and a.args[0].op == 'sel' and a.args[0].args[0] is G:
            k = P(a.args[1])
            o.local(PAIR, 'edge', s, b_and(eq(P(a.args[0].args[1]), u), ge(k, 0), lt(k, P(arr_len(a.args[0])))), '%s is recorded as the partner of %s' % (show(lo), show(u)))
        else:
            o.skip(PAIR, 'partner %s is an edge of %s' % (show(lo), show(u)))
        if not good:
            o.local(TAKE, 'free', s, is_none(I, I.sel(br, lo, s), s), '%s becomes the partner of %s although it may have one' % (show(lo), show(u)))
        else:
            e = good[0]
            cell = I.sel(e[3][r.key], lo, s)
            w = P(e[2][ui])
            o.local(TAKE, 'released', s, b_and(is_some(I, cell, s), eq(w, P(payload(cell)))), '%s becomes the partner of %s after a search from %s' % (show(lo), show(u), show(w)))
    outer(o, crates, cr, f, role, S, W, ui, oI, ores)
    return o.rows


def undone(o, I, s, a, nm):
    """a failing path that ends with the table a loop carries along: did the loop write to it without taking that back?"""
    for i in I.loops_done:
        if a in i.phis and i.id in o.live:
            i = find(I, i)
            bad = undone(o, I, s, i.phis[a], nm)
            for s2, b in i.backs:
                w = stores(b.get(a, a), a)
                if w and not s2.unk:
                    bad = True
                    o.local(KEEP, 'goes-on', s2, b_and(TRUE, *[same_option(I, s2, a, k, x) for k, x in w]), 'the search goes on, and can fail, with %s written to the %s side' % (', '.join('%s = %s' % (show(k), show(x)) for k, x in w), nm))
            return bad
    return False


def same_option(I, s, arr, i, x):
    cell = I.sel(arr, i, s)
    k = option(x)
    if k[0] == 'none':
        return is_none(I, cell, s)
    if k[0] == 'some':
        return b_and(is_some(I, cell, s), eq(P(payload(cell)), P(k[1])))
    return TRUE if x is cell else FALSE


def outer(o, crates, cr, f, role, S, W, ui, I, res):
    """the function that starts the searches"""
    o.f = f
    o.nm = f.name
    o.live = live_of(I, res)
    o.roots = roots_of(I, res)
    made = calls_made(I, res)
    n = 0
    for s, i, b in paths(I, res):
        for e in recs(s):
            n += 1
            if s.unk:
                o.skip(FREE, str(s.unk))
                continue
            w = P(e[2][ui])
            o.local(FREE, 'start', s, is_none(I, I.sel(e[3][W['l'].key], w, s), s), 'a search starts from vertex %s, which may have a partner' % show(w))
    if not n:
        o.skip(FREE, 'no search is started')
    first = {}
    for s, v in res:
        me = s.mem[('obj', 'self')]
        for nm in ('l', 'r'):
            x = me.args[2 + role[nm]]
            h = history(x, I, made)
            if h[1]:
                for i, val in h[1][:1]:
                    o.local(EMPTY_, 'written', s, FALSE, '%s writes a partner itself: %s = %s' % (f.name, show(i), show(val)))
            elif len(h[0]) == 1 and h[0][0].op == 'carr':
                o.ok(EMPTY_)
            else:
                o.skip(EMPTY_, 'partners: %s' % [show(y, 4) for y in h[0]])
        count(o, I, s, v, me.args[2 + role['l']], me.args[2 + role['r']])


def count(o, I, s, v, L, R):
    """the returned number counts the occupied cells of one partner table"""
    a = v.atom() if isinstance(v, Poly) else None
    info = None
    for i in I.loops_done:
        if a is not None and a in i.phis and i.id in o.live:
            info = find(I, i)
    if info is None and isinstance(v, Poly) and v.const() is not None:
        o.local(COUNT, 'constant', s, b_and(eq(v, 0), le(P(arr_len(L)), 0)), 'the count is %s without a look at the partners' % show(v))
        return
    if info is None:
        o.skip(COUNT, 'result %s' % show(v))
        return
    o.roots += (a,)
    o.local(COUNT, 'from-zero', info.entry, eq(P(info.phis[a]), 0), 'the count starts at %s' % show(info.phis[a]))
    seen = set()
    for s2, b in info.backs:
        for l in s2.facts.lits:
            seen |= {x for x in atoms_deep(l) if x.op == 'sel' and x.args[0] in (L, R) and info.it_atom in atoms_deep(x.args[1])}
    if len(seen) != 1:
        o.skip(COUNT, 'what is counted')
        return
    cell = list(seen)[0]
    n = P(arr_len(cell.args[0]))
    k = P(cell.args[1]) - info.it
    if k.const() is None:
        k = n - 1 - P(cell.args[1]) - info.it
    if k.const() is None:
        o.skip(COUNT, 'order of counting')
        return
    for s2, b in info.backs:
        d = P(b.get(a, P(a))) - P(a)
        if d.const() is None or d.const() not in (0, 1):
            o.local(COUNT, 'count', s2, b_or(b_and(eq(d, 1), is_some(I, cell, s2)), b_and(eq(d, 0), is_none(I, cell, s2))), 'the count changes by %s' % show(d))
        elif d.const() == 1:
            o.local(COUNT, 'count', s2, is_some(I, cell, s2), 'a vertex without a partner is counted')
        else:
            o.local(COUNT, 'count', s2, is_none(I, cell, s2), 'a vertex with a partner is not counted')
    o.local(COUNT, 'all', s, ge(info.it + k.const(), n) if k.const() <= 0 else le(n, 0), 'some vertices are left out of the count')


def run_new(crates, f):
    cr, adt, f, ct, M, facts, v, role = setup(crates)
    o = Rules(ct, ct.name)
    st = State()
    st.assume(*facts)
    I = AI(crates, NoResidues())
    res, _ = call(I, ct.path, st, [N, M])
    for s, v in res:
        for nm in ('l', 'r'):
            x = v.args[2 + role[nm]]
            if x.op == 'rep' and option(x.args[0])[0] == 'none':
                o.ok(EMPTY_)
            elif x.op == 'rep' and option(x.args[0])[0] == 'some':
                o.wrong(EMPTY_, 'new', s, 'vertices start with the partner %s' % show(x.args[0]))
            else:
                o.skip(EMPTY_, 'partners at the start: %s' % show(x, 5))
    return o.rows


def run_edge(crates, f):
    cr, adt, f, ct, M, facts, v, role = setup(crates)
    f = method(cr, adt, 'add_edge')
    o = Rules(f, f.name)
    st = State()
    st.assume(*facts)
    # rows of the graph: arbitrary lists
    g0 = mk('carr', 'g', N)
    v = AGG(v.args[0], 0, *[g0 if k == role['g'] else x for k, x in enumerate(v.args[2:])])
    st.mem[('obj', 'self')] = v
    u, w = P(sym('u', 'usize')), P(sym('v', 'usize'))
    st.assume(ge(u, 0), lt(u, N), ge(w, 0), lt(w, M))
    I = AI(crates, NoResidues())
    res, _ = call(I, f.path, st, [ref(('obj', 'self')), u, w])
    for s, ret in res:
        me = s.mem[('obj', 'self')]
        for nm in ('l', 'r'):
            x, x0 = me.args[2 + role[nm]], v.args[2 + role[nm]]
            if x is x0:
                o.ok(EMPTY_)
            else:
                o.skip(EMPTY_, 'adding an edge changes %s to %s' % (nm, show(x, 5)))
        ws = stores(me.args[2 + role['g']], g0)
        if ws is None:
            o.skip(EMPTY_, 'graph after adding an edge: %s' % show(me.args[2 + role['g']], 5))
        elif len(ws) != 1:
            (o.wrong(EMPTY_, 'edge', s, 'no edge is added') if not ws else o.skip(EMPTY_, 'several rows change'))
        else:
            i, row = ws[0]
            if row.op != 'push' or row.args[0] is not mk('sel', g0, i):
                o.skip(EMPTY_, 'row %s becomes %s' % (show(i), show(row, 5)))
            else:
                o.local(EMPTY_, 'edge', s, b_and(eq(i, u), eq(P(row.args[1]), w)), 'adding %s-%s records %s-%s' % (show(u), show(w), show(i), show(row.args[1])))
    return o.rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        if not ctx.need(find_adt(crates[0], 'AugmentedPath'), 'AugmentedPath'):
            return
        f = method(crates[0], find_adt(crates[0], 'AugmentedPath'), 'solve')
        if not ctx.need(f is not None, 'solve'):
            return
        for g in (run_search, run_new, run_edge):
            tasks.append(('%s %s' % (f.path, g.__name__), g, crates, f))
    ctx.tasks(tasks, limit=150)
    ctx.floor(len(tasks), 6, 'functions')
    ctx.assumptions += ['induction over the nesting of searches: a nested search obeys the same rules', 'fewer than 2^30 vertices on each side']
