"""C19: capacities and the flow value, by induction over the searches that push flow."""
from rec import *
from checks import c21

RECORD = 'an edge is recorded with an empty reverse edge next to it'
LISTED = 'both records are listed at the vertex they leave'
MOVE = 'what a search returns is taken from its edge and credited to the reverse'
LEFT = 'a search is given no more than the edge has left and than is wanted'
SUM = 'a search returns what its own searches have pushed'
VALUE = 'the flow is the sum of what the searches from the source have pushed'
ONLY = 'capacities change by pushing and by adding edges only'


def edge_fields(cr, adt):
    """{role: index} in the records of the edge list, name of the field that holds them, of the one that lists them"""
    fields = cr.adts[adt]['variants'][0]['fields']
    e = g = role = None
    for fd in fields:
        t = cr.ty(fd['t'])
        if not c21.is_list(t):
            continue
        x = t[2][0]
        if x[0] == 'adt' and not c21.is_list(x) and x[1] in cr.adts and not cr.adts[x[1]]['enum']:
            e, role = fd['n'], {}
            for k, ef in enumerate(cr.adts[x[1]]['variants'][0]['fields']):
                r = 'to' if cr.ty(ef['t']) == ('int', 'usize') else 'cap' if cr.ty(ef['t'])[0] == 'param' else '?'
                if r in role or r == '?':
                    raise Unknown('fields of an edge')
                role[r] = k
        elif c21.is_list(x):
            g = fd['n']
    if not e or not g or set(role) != {'to', 'cap'}:
        raise Unknown('edge list of the network')
    return role, e, g


def writes(arr, base):
    """[(table before, index, value)] oldest first"""
    out = []
    while arr is not base:
        if not isinstance(arr, T) or arr.op != 'store':
            return None
        out.append((arr.args[0], P(arr.args[1]), arr.args[2]))
        arr = arr.args[0]
    return out[::-1]



class Flow:
    def __init__(self, crates, f, cap):
        self.cr = crates[0]
        self.adt = find_adt(self.cr, 'Dinic')
        self.role, self.en, self.gn = edge_fields(self.cr, self.adt)
        self.adt, self.S, self.facts, self.val, self.env, self.oI, self.ores = c21.flow(crates, f, cap)
        self.names = [fd['n'] for fd in self.cr.adts[self.adt]['variants'][0]['fields']]
        self.top = max_of(cap)
        # the leaf of the search that is the edge list
        for s, a, before in self.S.caps:
            for l in self.S.L:
                if (a[l.arg].args[0], a[l.arg].args[1] + l.path) == (('obj', 'self'), (('f', self.names.index(self.en)),)):
                    self.l = l
        self.l = getattr(self, 'l', None)
        if self.l is None:
            raise Unknown('the search does not see the edges')


def max_of(cap):
    b = int(cap[1:]) if cap[1:].isdigit() else 64
    return (1 << (b - 1)) - 1 if cap[0] == 'i' else (1 << b) - 1


def family(I, x0, made):
    """loop variables that hold a later state of the table x0"""
    out = {x0}
    grew = True
    while grew:
        grew = False
        for i in I.loops_done:
            for p, v in i.phis.items():
                if p not in out and isinstance(v, T) and is_arr(v):
                    h = v
                    while isinstance(h, T) and h not in out:
                        h = h.args[0] if h.op == 'store' else made.get(h)
                    if h in out:
                        out.add(p)
                        grew = True
    return out


def run_search(crates, f, cap):
    F = Flow(crates, f, cap)
    S, role, l = F.S, F.role, F.l
    I, res = S.I, S.res
    o = Rules(S.fn, S.fn.name)
    o.rows += [('an', 'paths', len(res)), ('an', 'call sites', len({e[6] for s, i, b in paths(I, res) for e in recs(s)}))]
    o.live = {i.id for i in used_loops([s for s, v in res])}
    made = calls_made(I, res)
    fam = family(I, S.first[l.key], made)
    roots = set(fam)
    for i in I.loops_done:
        roots |= {p for p, x in i.phis.items() if isinstance(x, T) and is_arr(x)}
    # numbers the loops carry along
    for i in used_loops([s for s, v in res]):
        roots |= {p for p, x in i.phis.items() if isinstance(x, Poly)}
    o.roots = tuple(roots)
    o.signed = tuple(p for p in roots if isinstance(p, T)) + (mk('carr', '?', N),)
    ints = [(k, P(a)) for k, (a, t) in enumerate(zip(S.args, S.fn.inputs)) if isinstance(a, Poly)]
    caps = [(k, a) for (k, a), t in ((x, S.fn.inputs[x[0]]) for x in ints) if t[0] == 'param']
    if len(caps) != 1:
        raise Unknown('amount argument of %s' % S.fn.name)
    ci, want = caps[0]
    # roles of the vertex arguments
    vi = None
    for s, i, b in paths(I, res):
        for e in recs(s):
            for k, a in ints:
                if k != ci and edge_of(e, k, l, role, I, s) is not None:
                    if vi not in (None, k):
                        raise Unknown('vertex argument')
                    vi = k
    if vi is None:
        o.skip(MOVE, 'edge of a search')
        return o.rows
    u = [a for k, a in ints if k == vi][0]
    sinks = [a for k, a in ints if k not in (ci, vi) and all(P(e[2][k]) == a for s, i, b in paths(I, res) for e in recs(s))]

    # the amount the loops have gathered when they end without a search in between
    R, info = P(0), None
    for s, i, v in paths(I, res):
        if i is None and not recs(s):
            lp = [find(I, e[1]) for e in s.events() if e[0] == 'loop']
            if lp:
                if len(lp) != 1 or info not in (None, lp[0]):
                    o.skip(SUM, 'loops of the search')
                    return o.rows
                info, R = lp[0], v
                break
    if not isinstance(R, Poly):
        o.skip(SUM, 'result %s' % show(R))
        return o.rows
    if any(x.op == 'phi' and (info is None or x not in info.phis and x is not info.it_atom) for x in atoms_deep(R)):
        o.skip(SUM, 'result %s' % show(R))
        return o.rows
    inv = [ge(want, 0)] + ([ge(R, 0), le(R, want)] if info else [])

    def given(s):
        """hypotheses of the induction: 0 <= gathered <= wanted; a nested search returns between 0 and what it was given"""
        t = s.copy().assume(*inv)
        for e in recs(s):
            t.assume(ge(P(e[5]), 0), le(P(e[5]), P(e[2][ci])))
        return t

    if info:
        en = info.entry.copy().assume(ge(want, 0))
        o.local(SUM, 'start', en, eq(at_start(R, info), 0), 'before any search the result stands at %s' % show(at_start(R, info)))
    for s, i, b in paths(I, res):
        if i is not None and i is not info:
            if recs(s):
                o.skip(SUM, 'searches in another loop')
            continue
        t = given(s)
        if t.facts.contradictory():
            continue
        rs = recs(s)
        # table at the beginning of this path
        beg = rs[0][3][l.key] if rs else None
        end = S.end(s, l) if i is None else S.end(s, l)
        if rs and beg not in fam:
            o.skip(ONLY, 'edges before a search: %s' % show(beg, 5))
            continue
        if not rs:
            w = end
            ws = []
            while isinstance(w, T) and w not in fam and w.op == 'store':
                ws.append(w)
                w = w.args[0]
            if w not in fam:
                o.skip(ONLY, 'edges: %s' % show(end, 5))
            elif ws:
                nets(o, I, t, writes(end, w), [], role)
            else:
                o.ok(ONLY)
        for n, e in enumerate(rs):
            nxt = rs[n + 1][3][l.key] if n + 1 < len(rs) else end
            j = edge_of(e, vi, l, role, I, s)
            if j is None:
                o.skip(MOVE, 'a search enters %s' % show(e[2][vi], 5))
                continue
            give, ret = P(e[2][ci]), P(e[5])
            before = I.sel(e[3][l.key], j, t)
            cap = P(fld(before, role['cap']))
            left = want - R - sum((P(x[5]) for x in rs[:n]), P(0))
            o.local(LEFT, 'edge', t, le(give, cap), 'the search from %s may push %s through an edge that has %s' % (show(e[2][vi], 5), show(give, 5), show(cap, 5)))
            o.local(LEFT, 'wanted', t, le(give, left), 'the search from %s may push %s when %s is wanted' % (show(e[2][vi], 5), show(give, 5), show(left, 5)))
            if not t.facts.entails(ge(give, 0)):
                o.local(LEFT, 'negative', t, ge(give, 0), 'the search from %s is asked for %s' % (show(e[2][vi], 5), show(give, 5)))
            ws = writes(nxt, e[4][l.key])
            if ws is None:
                o.skip(MOVE, 'edges after a search: %s' % show(nxt, 5))
                continue
            nets(o, I, t, ws, [(j, -ret), (other(j), ret)], role, ret, (e[3][l.key], e[4][l.key]))
        # the amount
        tot = sum((P(e[5]) for e in rs), P(0))
        if i is None:
            if not isinstance(b, Poly):
                o.skip(SUM, 'result %s' % show(b))
            elif any(e[0] == 'loop' for e in s.events()):
                o.local(SUM, 'result', t, eq(b, R + tot), 'returns %s after %s' % (show(b, 5), show(R + tot, 5)))
            elif rs:
                o.local(SUM, 'result', t, eq(b, tot), 'returns %s after %s' % (show(b, 5), show(tot, 5)))
            else:
                sink = b_or(*[eq(u, x) for x in sinks]) if sinks else FALSE
                o.local(SUM, 'created', t, b_or(eq(b, 0), b_and(sink, ge(b, 0), le(b, want))), 'returns %s without a search' % show(b, 5))
        else:
            nb = at_back(R, b)
            if nb is None:
                o.skip(SUM, 'result after a pass')
            else:
                o.local(SUM, 'pass', t, eq(nb - R, tot), 'a pass changes the result by %s after searches that pushed %s' % (show(nb - R, 5), show(tot, 5)))
    outer(o, F, f, vi, ci, sinks)
    return o.rows


def other(j):
    """j ^ 1"""
    return j + 1 - 2 * (j - 2 * P(mk('shr', j, P(1))))


def at_start(R, info):
    return shallow(R, {p: x for p, x in info.phis.items() if isinstance(x, Poly)} | ({info.it_atom: P(0)} if info.it_atom is not None else {}))


def at_back(R, b):
    m = {p: P(x) for p, x in b.items() if isinstance(x, Poly)}
    r = shallow(R, m)
    return r if isinstance(r, Poly) else None


def edge_of(e, k, l, role, I, s):
    """index of the edge whose end the search enters"""
    x = P(e[2][k]).atom()
    if x is not None and x.op == 'fld' and x.args[1] == (0, role['to']) and isinstance(x.args[0], T) and x.args[0].op == 'sel' and x.args[0].args[0] is e[3][l.key]:
        return P(x.args[0].args[1])
    return None


def nets(o, I, t, ws, need, role, ret=None, tabs=None):
    """these writes change capacities as needed and nothing else"""
    cells = []
    for tab, i, v in ws:
        try:
            old = I.sel(tab, i, t)
        except Split:
            o.skip(MOVE, 'cell %s' % show(i, 5))
            return
        to0, to1 = P(fld(old, role['to'])), P(fld(v, role['to']))
        if to0 != to1:
            o.local(ONLY, 'end', t, eq(to0, to1), 'edge %s is redirected from %s to %s' % (show(i, 5), show(to0, 5), show(to1, 5)))
        d = P(fld(v, role['cap'])) - P(fld(old, role['cap']))
        for n, (k, x) in enumerate(cells):
            if k == i or t.facts.entails(eq(k, i)):
                cells[n] = (k, x + d)
                break
        else:
            cells.append((i, d))
    rule = MOVE if need else ONLY
    desc = ', '.join('%s by %s' % (show(k, 5), show(d, 5)) for k, d in cells) or 'nothing'
    if not need:
        o.local(rule, 'written', t, b_and(TRUE, *[eq(d, 0) for k, d in cells]), 'capacities change without a search: %s' % desc)
        return
    # every needed change at one of the written cells, every written cell is needed
    goal = []
    for k, d in need:
        goal.append(b_or(eq(d, 0), *[b_and(eq(k, k2), eq(d, d2)) for k2, d2 in cells]))
    for k2, d2 in cells:
        goal.append(b_or(eq(d2, 0), *[b_and(eq(k, k2), eq(d, d2)) for k, d in need]))
    goal = b_and(*goal)
    if not t.facts.entails(goal):
        # code may rely on nested searches staying away from this pair; no alarm without that
        t = t.copy()
        for k, d in need + cells:
            try:
                a, b = (P(fld(I.sel(x, k, t), role['cap'])) for x in tabs)
                t.assume(eq(a, b))
            except Split:
                pass
        if t.facts.entails(goal):
            o.skip(rule, 'needs that nested searches do not use the same pair: %s' % desc)
            return
    o.local(rule, 'moved', t, goal, 'after a search that pushed %s through edge %s the capacities change: %s' % (show(ret, 5), show(need[0][0], 5), desc))


def outer(o, F, f, vi, ci, sinks):
    """the function that starts the searches"""
    S, l, I, res = F.S, F.l, F.oI, F.ores
    o.f, o.nm = f, f.name
    o.live = {i.id for i in used_loops([s for s, v in res])}
    made = calls_made(I, res)
    e0 = F.val[F.en]
    fam = family(I, e0, made)
    roots = set(fam)
    for i in I.loops_done:
        roots |= {p for p, x in i.phis.items()}
    o.roots = tuple(roots)
    a = P(sym('s', 'usize'))
    n = 0
    holds = set()
    for s, i, v in paths(I, res):
        if recs(s):
            n += 1
            if i is not None:
                holds.add(i.id)
    if not n:
        o.skip(VALUE, 'no search is started')
        return
    while True:     # loops that contain them
        more = {i.id for s, i, v in paths(I, res) if i is not None and any(e[0] == 'loop' and e[1].id in holds for e in s.events())}
        if more <= holds:
            break
        holds |= more
    o.live = holds
    for s, i, b in paths(I, res):
        rs = recs(s)
        end = s.mem[('obj', 'self')].args[2 + F.names.index(F.en)]
        for e in rs:
            o.local(VALUE, 'source', s, eq(P(e[2][vi]), a), 'a search starts from %s' % show(e[2][vi]))
            if not s.facts.entails(ge(P(e[2][ci]), 0)):
                o.local(LEFT, 'asked', s, ge(P(e[2][ci]), 0), 'a search from the source is asked for %s' % show(e[2][ci]))
        w, base = end, None
        ws = []
        if rs:
            for n, e in enumerate(rs):
                nxt = rs[n + 1][3][l.key] if n + 1 < len(rs) else end
                x = writes(nxt, e[4][l.key])
                if x is None:
                    if nxt not in fam:
                        o.skip(ONLY, 'edges between searches: %s' % show(nxt, 5))
                else:
                    ws += x
            if rs[0][3][l.key] not in fam:
                o.skip(ONLY, 'edges before a search: %s' % show(rs[0][3][l.key], 5))
        else:
            while isinstance(w, T) and w not in fam and w.op == 'store':
                ws.append((w.args[0], P(w.args[1]), w.args[2]))
                w = w.args[0]
            if w not in fam:
                o.skip(ONLY, 'edges: %s' % show(end, 5))
        if ws:
            nets(o, I, s, ws, [], F.role)
        else:
            o.ok(ONLY)
    account(o, I, res, holds)


def account(o, I, res, holds):
    """the returned value is what the searches have pushed: at every point it stands at the sum so far"""
    ps = paths(I, res)
    byid = {}
    for s, i, b in ps:
        for e in s.events():
            if e[0] == 'loop' and e[1].id in holds:
                byid[e[1].id] = (find(I, e[1]), i)

    def last(s):
        q = [find(I, e[1]) for e in s.events() if e[0] == 'loop' and e[1].id in holds]
        return q[-1] if q else None

    acc = {}

    def put(s, i, E):
        """E stands for the sum at the end of this stretch; False when it cannot be followed"""
        q = last(s) or i
        if q is None:
            return True
        at = {x for m, c in E.t for x in m if x.op == 'phi' and x in q.phis}
        if len(at) > 1:
            return False
        if at:
            p = at.pop()
            if acc.setdefault(q.id, p) is not p:
                return False
        return True

    def good():
        todo = [(s, i, v) for s, i, v in ps if i is None]
        if any(not isinstance(v, Poly) or not put(s, i, v) for s, i, v in todo):
            return False
        done = set()
        while set(acc) - done:
            k = (set(acc) - done).pop()
            done.add(k)
            q, enc = byid[k]
            p = acc[k]
            for s, i, E in [(q.entry, enc, q.phis[p])] + [(s2, q, b.get(p, P(p))) for s2, b in q.backs]:
                if not isinstance(E, Poly) or not put(s, i, E):
                    return False
        return True
    if not good():
        o.skip(VALUE, 'the result is not one running sum')
        return
    for k, (q, enc) in byid.items():
        if k not in acc:
            o.skip(VALUE, 'a loop with searches keeps no sum')
            return
    o.roots += tuple(acc.values())

    def check(key, s, i, E, text):
        q = last(s)
        before = {id(e) for e in recs(q.entry)} if q is not None else set()
        tot = sum((P(e[5]) for e in recs(s) if id(e) not in before), P(0))
        base = P(acc[(q or i).id]) if (q or i) is not None else P(0)
        o.local(VALUE, key, s, eq(E, base + tot), text % (show(E, 5), show(base + tot, 5)))
    for s, i, v in ps:
        if i is None:
            check('result', s, None, v, 'returns %s instead of %s')
    for k, p in acc.items():
        q, enc = byid[k]
        check('start', q.entry, enc, q.phis[p], 'the flow stands at %s instead of %s before a loop')
        for s2, b in q.backs:
            check('round', s2, q, b.get(p, P(p)), 'the flow stands at %s instead of %s after a round')


def run_edge(crates, f, cap):
    cr = crates[0]
    adt = find_adt(cr, 'Dinic')
    role, en, gn = edge_fields(cr, adt)
    ct, ae = method(cr, adt, 'new'), method(cr, adt, 'add_edge')
    env = {ae.generics[0] if ae.generics else 'Cap': ('int', cap)}
    names = [fd['n'] for fd in cr.adts[adt]['variants'][0]['fields']]
    E = P(sym('E', 'usize'))
    facts = [ge(N, 0), le(N, MAXN), ge(E, 0), le(E, MAXN)]
    # the beginning: no records
    o = Rules(ct, ct.name)
    st = State()
    st.assume(*facts)
    I = AI(crates, NoResidues())
    res, _ = call(I, ct.path, st, [N], env)
    for s, v in res:
        x, g = v.args[2 + names.index(en)], v.args[2 + names.index(gn)]
        n = P(arr_len(x))
        if n.const() is not None:
            (o.ok(RECORD) if n.const() % 2 == 0 else o.wrong(RECORD, 'new', s, 'a new network has %s records, so that pairs do not begin at even positions' % show(n)))
        else:
            o.skip(RECORD, 'records of a new network: %s' % show(n))
        if g.op == 'rep' and isinstance(g.args[0], T) and P(arr_len(g.args[0])).const() == 0 and n.const() == 0:
            o.ok(LISTED)
        else:
            o.skip(LISTED, 'lists of a new network: %s' % show(g, 5))
    shape = res[0][1]
    # one edge
    o.f, o.nm = ae, ae.name
    st = State()
    st.assume(*facts)
    e0, g0 = mk('carr', en, E), mk('carr', gn, N)
    vals = [e0 if n == en else g0 if n == gn else x for n, x in zip(names, shape.args[2:])]
    st.mem[('obj', 'self')] = AGG(adt, 0, *vals)
    ints = []
    args = [ref(('obj', 'self'))]
    for k, (nm, t) in enumerate(zip(arg_names(ae), ae.inputs)):
        if k:
            t = I.norm_ty(ty_subst(t, env), env)
            x = P(sym(nm, t[1]))
            st.assume(I.in_range(x, t))
            args.append(x)
            ints.append((ae.inputs[k], x))
    vs = [x for t, x in ints if t[0] == 'int']
    cs = [x for t, x in ints if t[0] == 'param']
    if len(vs) != 2 or len(cs) != 1:
        raise Unknown('arguments of add_edge')
    (u, v), c = vs, cs[0]
    st.assume(ge(u, 0), lt(u, N), ge(v, 0), lt(v, N), ge(c, 0))
    I = AI(crates, NoResidues())
    res, _ = call(I, ae.path, st, args, env)
    o.rows += [('an', 'paths', len(res))]
    for s, ret in res:
        if s.unk:
            o.skip(RECORD, str(s.unk))
            continue
        me = s.mem[('obj', 'self')]
        x, g = me.args[2 + names.index(en)], me.args[2 + names.index(gn)]
        new = []
        while isinstance(x, T) and x.op == 'push':
            new.append(x.args[1])
            x = x.args[0]
        if x is not e0:
            o.skip(RECORD, 'records: %s' % show(x, 5))
            continue
        new = new[::-1]
        if len(new) % 2:
            o.wrong(RECORD, 'odd', s, '%d records are added, so that later pairs do not begin at even positions' % len(new))
            continue
        if not new:
            o.local(RECORD, 'none', s, b_or(eq(u, v), eq(c, 0)), 'no edge is recorded')     # such edges carry nothing
            continue
        if len(new) > 2:
            o.skip(RECORD, '%d records' % len(new))
            continue
        to = [P(fld(y, role['to'])) for y in new]
        cp = [P(fld(y, role['cap'])) for y in new]
        fwd = lambda a: b_and(eq(to[a], v), eq(cp[a], c), eq(to[1 - a], u), eq(cp[1 - a], 0))
        o.local(RECORD, 'pair', s, b_or(fwd(0), fwd(1)), 'adding %s -> %s with capacity %s records an edge to %s with %s and one to %s with %s' % (show(u), show(v), show(c), show(to[0]), show(cp[0]), show(to[1]), show(cp[1])))
        # which record leaves u: the one that is not to u, or either for a loop
        listed = {}
        good = True
        ws = writes(g, g0)
        if ws is None:
            o.skip(LISTED, 'lists: %s' % show(g, 5))
            continue
        adds = []
        for tab, i, row in ws:
            cur, y = None, row
            got = []
            try:
                cur = I.sel(tab, i, s)
            except Split:
                good = False
            while good and isinstance(y, T) and y is not cur and y.op == 'push':
                got.append(P(y.args[1]))
                y = y.args[0]
            if y is not cur and not (isinstance(y, T) and y.op == 'sel' and y.args[0] is g0 and tab is g0 and s.facts.entails(eq(P(y.args[1]), i))):
                good = False
            adds += [(i, z) for z in got[::-1]]
        if not good:
            o.skip(LISTED, 'rows: %s' % show(g, 6))
            continue
        if len(adds) != 2:
            o.wrong(LISTED, 'count', s, 'the two records are listed %d times' % len(adds))
            continue
        goal = []
        for p, q in ((0, 1), (1, 0)):
            # adds[p] lists record 0, adds[q] record 1; a record leaves the end of the other one
            goal.append(b_and(eq(adds[p][1], E), eq(adds[q][1], E + 1), eq(adds[p][0], to[1]), eq(adds[q][0], to[0])))
        o.local(LISTED, 'listed', s, b_or(*goal), 'records %s and %s are listed at %s and %s' % (show(adds[0][1]), show(adds[1][1]), show(adds[0][0]), show(adds[1][0])))
    return o.rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        adt = find_adt(crates[0], 'Dinic')
        if not ctx.need(adt, 'Dinic'):
            return
        f = method(crates[0], adt, 'get_max_flow')
        if not ctx.need(f is not None, 'get_max_flow'):
            return
        for cap in ('i64', 'u32'):
            for g in (run_search, run_edge):
                tasks.append(('%s %s<%s>' % (f.path, g.__name__, cap), g, crates, f, cap))
    ctx.tasks(tasks, limit=400)
    ctx.floor(len(tasks), 8, 'functions')
    ctx.assumptions += ['induction over the nesting of searches: a nested search returns between 0 and what it was given',
                        'capacities are not negative, and sums of capacities fit the capacity type', 'fewer than 2^30 vertices and edges']
