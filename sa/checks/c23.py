"""C23: ancestor tables, entry and exit times, lowest common ancestors and distances."""
from rec import *
from checks import c21

BASE = 'the first ancestor of a vertex is its parent'
DOUBLE = 'every further ancestor is twice the step from the one before'
ROWS = 'the ancestors of a vertex are complete before its children are entered'
TIMES = 'a vertex is entered at the time recorded and left when its subtree is done'
DEPTH = 'a child is one deeper than its parent'
EVERY = 'every neighbour except the parent is entered, once'
WIDE = 'there are enough powers for every depth'
INSIDE = 'a vertex is below another when its time lies in the half-open stretch of the other'
MEET = 'the climb tries every power from the highest down and stops below the common ancestor'
DIST = 'the distance is the sum of the depths without twice that of the common ancestor'

K = P(sym('K', 'usize'))


class Tables:
    def __init__(self, crates):
        self.crates = crates
        self.cr = cr = crates[0]
        self.adt = adt = find_adt(cr, 'BinaryLifting')
        self.names = [fd['n'] for fd in cr.adts[adt]['variants'][0]['fields']]
        for x in ('pa', 'dep', 'tin', 'tout', 'level'):
            if x not in self.names:
                raise Unknown('field ' + x)
        self.facts = [ge(N, 1), le(N, MAXN), ge(K, 1), le(K, 64)]
        self.val = {n: K if n == 'level' else mk('carr', n, N) for n in self.names}
        for fd in cr.adts[adt]['variants'][0]['fields']:
            t = cr.ty(fd['t'])
            if fd['n'] == 'level' and t[0] != 'int' or fd['n'] != 'level' and not c21.is_list(t):
                if fd['n'] not in ('pa', 'dep', 'tin', 'tout', 'level'):
                    self.val[fd['n']] = P(sym(fd['n'], 'usize')) if t[0] == 'int' else mk('sym', fd['n'], '?')
                else:
                    raise Unknown('type of ' + fd['n'])
        self.me = AGG(adt, 0, *[self.val[n] for n in self.names])

    def method(self, n):
        f = method(self.cr, self.adt, n)
        if f is None:
            raise Unknown('no method ' + n)
        return f

    def run(self, name, hook=None):
        f = self.method(name)
        I = AI(self.crates, NoResidues())
        if hook:
            hook(I)
        st = State()
        st.assume(*self.facts)
        st.mem[('obj', 'self')] = self.me
        xs = []
        for nm, t in list(zip(arg_names(f), f.inputs))[1:]:
            x = P(sym(nm, 'usize'))
            st.assume(ge(x, 0), lt(x, N))
            xs.append(x)
        res, _ = call(I, f.path, st, [ref(('obj', 'self'))] + xs)
        return f, I, res, xs

    def sane(self, I, s):
        """no depth is near the end of the range of its type"""
        t = s.copy()
        for l in list(t.facts.lits):
            for x in atoms_deep(l):
                if x.op == 'sel' and isinstance(x.args[0], T) and self.is_dep(I, x.args[0]):
                    t.assume(le(P(x), MAXN))
        return not t.facts.contradictory()

    def is_dep(self, I, a):
        for _ in range(20):
            if a.op == 'carr':
                return str(a.args[0]).split('.')[-1] == 'dep'
            if a.op == 'store':
                a = a.args[0]
                continue
            q = [q.phis[a] for q in I.loops_done if a in q.phis]
            if not q or not isinstance(q[0], T):
                return False
            a = q[0]
        return False

    def search(self, start):
        rs = recursive(self.cr, start.path)
        I0 = AI(self.crates, NoResidues())
        rs = [p for p in rs if any(l.mut and c21.is_list(l.ty) for l in leaves(I0, self.cr.fns[p], arg_names(self.cr.fns[p])))]
        if len(rs) != 1:
            raise Unknown('recursive searches: %s' % rs)
        S = Search(self.crates, self.cr.fns[rs[0]])
        S.L = leaves(I0, S.fn, S.names)
        st = State()
        st.assume(*self.facts)
        args = []
        for nm, t in zip(arg_names(start), start.inputs):
            if t[0] == 'ref':
                st.mem[('obj', nm)] = mk('carr', 'g', N)
                args.append(ref(('obj', nm)))
            else:
                x = P(sym(nm, 'usize'))
                st.assume(ge(x, 0), lt(x, N))
                args.append(x)
        oI, ores = S.outer(start.path, st.copy(), args)
        if not S.caps:
            raise Unknown('the search is not started')
        s, a, before = S.caps[0]
        lens = {}
        for l in S.L:
            x = before[l.key]
            if c21.is_list(l.ty) and isinstance(x, T):
                try:
                    n = known_len(x, s.facts, (N,))
                except Unknown:
                    continue
                if not any(t.op in ('phi', 'opaque') for t in atoms_deep(n)):
                    lens[l.name] = n
        # clocks and depths stay below the number of vertices times a constant
        ints = [l for l in S.L if l.mut and l.ty[0] == 'int']
        I, res = S.run(lens, self.facts + [le(P(sym(l.name, l.ty[1])), MAXN) for l in ints])
        res = [x for x in res if self.sane(I, x[0])]
        for q in I.loops_done:
            q.backs = [x for x in q.backs if self.sane(I, x[0])]
        return S, I, res, oI, ores, args


def cover(o, rule, what, I, q, idx, lo, hi, ends):
    """the passes of loop q reach every index from lo to below hi (in either direction)"""
    if q.it_atom is None:
        o.skip(rule, what)
        return
    d = idx - q.it
    if not any(x is q.it_atom for x in atoms_deep(d)):
        o.local(rule, what + '-first', q.entry, le(d, lo), '%s: begins at %s' % (what, show(d)))
        for s in ends:
            o.local(rule, what + '-last', s, ge(q.it + d, hi), '%s: ends before %s' % (what, show(q.it + d)))
        return
    d = idx + q.it
    if not any(x is q.it_atom for x in atoms_deep(d)):
        o.local(rule, what + '-first', q.entry, ge(d, P(hi) - 1), '%s: begins at %s' % (what, show(d)))
        for s in ends:
            o.local(rule, what + '-last', s, lt(d - q.it, lo), '%s: ends at %s' % (what, show(d - q.it)))
        return
    o.skip(rule, '%s: order of %s' % (what, show(idx)))


def exits(I, states, q):
    return [s for s in states if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())]


def run_build(crates, f):
    B = Tables(crates)
    start = B.method('from')
    S, I, res, oI, ores, oargs = B.search(start)
    o = Rules(S.fn, S.fn.name)
    made = calls_made(I, res)
    o.live = {q.id for q in used_loops([s for s, v in res])}
    L = {n: S.leaf(n) for n in ('pa', 'dep', 'tin', 'tout', 'level')}
    if any(x is None for x in L.values()):
        raise Unknown('the search does not see the tables')
    ps = paths(I, res)
    loops = [find(I, q) for q in used_loops([s for s, v in res])]
    roots = set()
    for q in loops:
        roots |= set(q.phis)
    roots |= {x for x in made} | {S.first[l.key] for l in S.L if isinstance(S.first[l.key], T)}
    o.roots = tuple(roots)
    o.rows += [('an', 'paths', len(ps)), ('an', 'call sites', len({e[6] for s, i, b in ps for e in recs(s)}))]
    # roles of the arguments: the vertex is the one whose row is written; the parent the one recorded
    ints = {k: P(a) for k, (a, t) in enumerate(zip(S.args, S.fn.inputs)) if isinstance(a, Poly)}
    level = P(S.first[L['level'].key])
    if any(L['level'].key not in S.kept[k] for k in S.kept):
        o.skip(DOUBLE, 'the number of powers changes')
    tim = [l for l in S.L if l.ty[0] == 'int' and l.mut and any(l.key not in S.kept[k] for k in S.kept)]
    # ---- times
    ui = None
    for s, v in res:
        h = history(S.end(s, L['tin']), I, made)
        w = {(i, x) for i, x in h[1]}
        for i, x in w:
            for k, a in ints.items():
                if i == a:
                    if ui not in (None, k):
                        raise Unknown('vertex argument')
                    ui = k
    if not tim:
        tim = [l for l in S.L if l.ty[0] == 'int' and l.mut and l.name not in L]
    if ui is None or len(tim) != 1:
        raise Unknown('vertex argument or clock')
    u, tl = ints[ui], tim[0]
    t0 = P(S.first[tl.key])
    c1 = c2 = None
    for s, v in res:
        end = P(S.end(s, tl))
        for nm, want, at_ in (('tin', t0, 'entered'), ('tout', end, 'left')):
            h = history(S.end(s, L[nm]), I, made)
            w = list(dict.fromkeys(h[1]))
            if len(w) != 1 or any(x is not S.first[L[nm].key] for x in h[0]):
                if not w:
                    o.wrong(TIMES, nm, s, 'the time %s is %s is not recorded' % (show(u), at_))
                else:
                    o.skip(TIMES, '%s is written %d times' % (nm, len(w)))
                continue
            i, x = w[0]
            d = P(x) - want
            o.local(TIMES, nm + '-of', s, eq(i, u), 'the time %s is %s is recorded for %s' % (show(u), at_, show(i)))
            if d.const() is None:
                o.local(TIMES, nm, s, eq(d, 0), '%s is %s at %s, recorded is %s' % (show(u), at_, show(want), show(x)))
            else:
                o.ok(TIMES)
                if nm == 'tin':
                    c1 = d.const() if c1 in (None, d.const()) else 'x'
                else:
                    c2 = d.const() if c2 in (None, d.const()) else 'x'
        o.local(TIMES, 'clock', s, ge(end, t0 + 1), 'the clock stands at %s when %s, entered at %s, is left' % (show(end), show(u), show(t0)))
    # ---- calls
    gl = [l for l in S.L if c21.is_list(l.ty) and l.name not in L]
    pi = None
    for s, i, b in ps:
        for e in recs(s):
            for k in ints:
                if k != ui and P(e[2][k]) == u:
                    pi = k
    if pi is None and len(ints) == 2:
        pi = [k for k in ints if k != ui][0]
    if pi is None:
        raise Unknown('parent argument')
    p = ints[pi]
    order = []
    for s, i, b in ps:
        rs = recs(s)
        for e in rs:
            o.local(TIMES, 'child-clock', s, ge(P(e[3][tl.key]), t0 + 1), 'a child is entered at %s, its parent at %s' % (show(P(e[3][tl.key])), show(t0)))
            o.local(BASE, 'told', s, eq(P(e[2][pi]), u), 'the child %s is told that its parent is %s' % (show(e[2][ui], 4), show(e[2][pi])))
        if len(rs) > 1:
            o.skip(EVERY, 'several calls in one pass')
            continue
        if i is None and rs:
            o.skip(EVERY, 'a call outside of a loop')
            continue
        for e in rs:
            v = P(e[2][ui])
            # depth
            d = e[3][L['dep'].key]
            if all(L['dep'].key in x for x in S.kept.values()):
                o.wrong(DEPTH, 'none', s, 'no depth is recorded')
            elif isinstance(d, T) and d.op == 'store':
                val = P(d.args[2])
                # the depth of the vertex itself does not change while its children are searched
                if {i for i, y in history(d.args[0], I, made)[1]} <= {P(x[2][ui]) for s3, i3, b3 in ps for x in recs(s3)}:
                    val = subst(val, {x: P(mk('sel', d.args[0], u)) for x in atoms_deep(val) if x.op == 'sel' and isinstance(x.args[0], T) and P(x.args[1]) == u and B.is_dep(I, x.args[0])})
                o.local(DEPTH, 'child', s, b_and(eq(P(d.args[1]), v), eq(val, P(mk('sel', d.args[0], u)) + 1)),
                        'before %s is entered from %s the depth of %s becomes %s' % (show(v, 4), show(u), show(P(d.args[1]), 4), show(d.args[2], 4)))
            else:
                o.skip(DEPTH, 'depth of a child')
    # every neighbour
    for q in loops:
        if not any(recs(s) for s, b in q.backs):
            continue
        elems = set()
        for s, b in q.backs:
            for e in recs(s):
                elems.add(P(e[2][ui]))
        if len(elems) != 1:
            o.skip(EVERY, 'which vertices are entered')
            continue
        v = elems.pop()
        a = v.atom()
        if a is None or a.op != 'sel' or not (isinstance(a.args[0], T) and a.args[0].op == 'sel' and a.args[0].args[0] in [S.first[l.key] for l in gl]):
            o.skip(EVERY, 'enters %s' % show(v, 4))
            continue
        o.local(EVERY, 'list', q.backs[0][0], eq(P(a.args[0].args[1]), u), 'the neighbours of %s are entered' % show(P(a.args[0].args[1])))
        row = a.args[0]
        for s, b in q.backs:
            if recs(s):
                o.local(EVERY, 'parent', s, b_not(eq(v, p)), 'the parent itself may be entered')
            else:
                o.local(EVERY, 'left-out', s, eq(v, p), 'the neighbour %s is left out' % show(v, 4))
        cover(o, EVERY, 'neighbours', I, q, P(a.args[1]), 0, P(arr_len(row)), exits(I, [s for s, v in res], q))
    into = [q for q in loops if any(recs(s) for s, b in q.backs)]
    if not into:
        if not any(recs(s) for s, v in res) and len(gl) == 1:
            for s, v in res:
                o.local(EVERY, 'without', s, le(P(arr_len(mk('sel', S.first[gl[0].key], u))), 1), 'no neighbour of %s is entered' % show(u))
        else:
            o.skip(EVERY, 'no loop over the neighbours')
    elif len(gl) == 1:
        # a path that does not go through the neighbours has none, or only the parent
        n = P(arr_len(mk('sel', S.first[gl[0].key], u)))
        for s, v in res:
            if not any(exits(I, [s], q) for q in into):
                o.local(EVERY, 'not-looked', s, b_or(eq(n, 0), b_and(eq(n, 1), b_not(eq(u, p)))), 'the neighbours of %s are not entered' % show(u))
    doubling(o, B, S, I, res, loops, L['pa'], u, p, level, made)
    # ---- the first call
    o.f, o.nm = start, start.name
    o.live = {q.id for q in used_loops([s for s, v in ores])}
    nrec = 0
    for s, i, b in paths(oI, ores):
        for e in recs(s):
            nrec += 1
            if i is not None:
                o.skip(BASE, 'searches in a loop')
            given = [x for x in oargs if isinstance(x, Poly)]
            if len(given) == 1:
                o.local(BASE, 'given', s, eq(P(e[2][ui]), given[0]), 'the search starts at %s, asked for is %s' % (show(e[2][ui]), show(given[0])))
            o.local(BASE, 'root', s, eq(P(e[2][ui]), P(e[2][pi])), 'the search starts at %s with the parent %s' % (show(e[2][ui]), show(e[2][pi])))
            lv = P(e[3][L['level'].key])
            pa = e[3][L['pa'].key]
            lg = mk('lg', N)
            d = [x for x in atoms_deep(lv) if x.op == 'lg']
            if len(d) == 1 and P(d[0].args[0]) == N and (lv - P(d[0])).const() is not None:
                c = (lv - P(d[0])).const()
                # a climb is shorter than the number of vertices
                (o.ok(WIDE) if c >= 1 else o.wrong(WIDE, 'few', s, 'there are %s powers' % show(lv)))
            else:
                o.skip(WIDE, 'number of powers: %s' % show(lv))
            if isinstance(pa, T) and pa.op == 'rep' and P(arr_len(pa)) == N and isinstance(pa.args[0], T):
                o.local(WIDE, 'row', s, ge(P(arr_len(pa.args[0])), lv), 'rows have %s entries for %s powers' % (show(P(arr_len(pa.args[0]))), show(lv)))
            else:
                o.skip(WIDE, 'ancestors at the start: %s' % show(pa, 4))
        if i is None:
            v = b
            for n in B.names:
                l = S.leaf(n)
                x = v.args[2 + B.names.index(n)] if isinstance(v, T) and v.op == 'agg' else None
                if recs(s) and l is not None and x is not None and (x is recs(s)[-1][4][l.key] or isinstance(x, Poly) and x == recs(s)[-1][4][l.key]):
                    o.ok(ROWS)
                elif recs(s):
                    o.skip(ROWS, 'what %s makes of %s afterwards' % (start.name, n))
    if not nrec:
        o.skip(BASE, 'the search is not started')
    o.f, o.nm = B.method('is_ancestor'), 'is_ancestor'
    inside(o, B, c1, c2)
    return o.rows


def row_writes(t, base):
    """[(table, row, [(column, value)])] oldest first for writes into rows; None when it is something else"""
    out = []
    while isinstance(t, T) and t is not base and t.op == 'store':
        tab, u, row = t.args[0], P(t.args[1]), t.args[2]
        cols, r = [], row
        while isinstance(r, T) and r.op == 'store':
            cols.append((P(r.args[1]), r.args[2]))
            r = r.args[0]
        if not (isinstance(r, T) and r.op == 'sel' and r.args[0] is tab and P(r.args[1]) == u):
            return None, t
        out.append((tab, u, cols[::-1]))
        t = tab
    return out[::-1], t


def doubling(o, B, S, I, res, loops, l, u, p, level, made):
    first = S.first[l.key]
    fam = {first} | c21.family(first, first, I, made) if False else {first}
    grew = True
    while grew:
        grew = False
        for q in loops:
            for ph, x in q.phis.items():
                if ph not in fam and isinstance(x, T):
                    w, b = row_writes(x, None)
                    while b in made and b not in fam:
                        b = made[b]
                    if b in fam:
                        fam.add(ph)
                        grew = True
    # writes: (where, state, table, row, column, value)
    ws = []

    def look(s, t, q):
        t = t
        while True:
            w, b = row_writes(t, None)
            if w is None:
                o.skip(DOUBLE, 'ancestors become %s' % show(b, 5))
                return
            for tab, r, cols in w:
                # columns written one after another
                row = mk('sel', tab, r)
                for k, v in cols:
                    ws.append((q, s, tab, r, row, k, v))
                    row = mk('store', row, k, v)
            if b in fam:
                return
            if b in made:
                t = made[b]
                continue
            o.skip(DOUBLE, 'ancestors: %s' % show(b, 5))
            return
    seen = set()
    for q in loops:
        for ph, x in q.phis.items():
            if ph in fam:
                look(q.entry, x, None)
                for s, b in q.backs:
                    look(s, b.get(ph, ph), q)
    for s, v in res:
        look(s, S.end(s, l), None)
    straight = [w for w in ws if w[0] is None]
    passes = [w for w in ws if w[0] is not None]
    first_col = [w for w in straight if w[5] == P(0)]
    n = 0
    for q, s, tab, r, row, k, v in straight:
        if s.facts.entails(eq(k, 0)):
            o.local(BASE, 'parent', s, b_and(eq(r, u), eq(P(v), p)), 'the first ancestor of %s becomes %s; the parent of %s is %s' % (show(r), show(v, 4), show(u), show(p)))
            n += 1
        else:
            o.skip(DOUBLE, 'ancestor %s of %s outside of a loop' % (show(k), show(r)))
    if not n:
        for s, v in res[:1]:
            h = [w for w in passes if w[5] == P(0)]
            (o.skip(BASE, 'no first ancestor') if h or not passes else o.wrong(BASE, 'missing', s, 'the parent is not recorded'))
    lp = {w[0].id: w[0] for w in passes}
    if not lp:
        o.skip(DOUBLE, 'no loop writes ancestors')
        return
    for q in lp.values():
        powers(o, S, I, res, q, [w for w in passes if w[0] is q], u, level)
    # paths without any
    for s, v in res:
        if not any(exits(I, [s], q) for q in lp.values()):
            o.local(DOUBLE, 'none', s, le(level, 1), 'no ancestors are recorded')


def powers(o, S, I, res, q, passes, u, level):
    if any(recs(s) for s, b in q.backs):
        o.skip(ROWS, 'children are entered in the same loop')
        return
    idx = None
    for s, b in q.backs:
        mine = [w for w in passes if w[1] is s]
        if len(mine) != 1:
            if not mine:
                o.wrong(DOUBLE, 'gap', s, 'a pass records no ancestor')
            else:
                o.skip(DOUBLE, '%d ancestors in one pass' % len(mine))
            continue
        _, _, tab, r, row, k, v = mine[0]
        want = P(mk('sel', mk('sel', tab, P(mk('sel', mk('sel', tab, u), k - 1))), k - 1))
        o.local(DOUBLE, 'step', s, b_and(eq(r, u), eq(P(v), want)), 'ancestor %s of %s becomes %s' % (show(k, 4), show(r), show(v, 6)))
        idx = k if idx in (None, k) else False
    if idx:
        cover(o, DOUBLE, 'powers', I, q, idx, 1, level, exits(I, [s for s, v in res], q))
        if q.it_atom is not None and not any(x is q.it_atom for x in atoms_deep(idx + q.it)):
            o.wrong(DOUBLE, 'downwards', q.entry, 'the ancestors are filled from the highest down')
    # rows first
    for s, v in res:
        ev = [find(I, e[1]) for e in s.events() if e[0] == 'loop']
        at_q = [k for k, x in enumerate(ev) if x is q]
        for k, x in enumerate(ev):
            if any(recs(s2) for s2, b in x.backs):
                if at_q and at_q[0] > k:
                    o.wrong(ROWS, 'late', s, 'the ancestors of %s are recorded after its children are entered' % show(u))
                else:
                    o.ok(ROWS)


# ------------------------------------------------------------------ queries
def formula(B):
    """is_ancestor(a, b) as a formula over the tables"""
    f, I, res, (a, b) = B.run('is_ancestor')
    base = set(B.facts)
    out = FALSE
    for s, v in res:
        if v.op not in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'bterm') or s.unk:
            raise Unknown('is_ancestor returns %s' % show(v))
        c = TRUE
        for l in s.facts.lits:
            if any(x.op == 'sel' for x in atoms_deep(l)):
                c = b_and(c, l)
        out = b_or(out, b_and(c, v))
    return f, res, a, b, out


def inside(o, B, c1, c2):
    f, res, a, b, phi = formula(B)
    if not isinstance(c1, int) or not isinstance(c2, int):
        o.skip(INSIDE, 'times are shifted by %s / %s' % (c1, c2))
        return
    tin, tout = (lambda x: P(mk('sel', B.val['tin'], x)) - c1), (lambda x: P(mk('sel', B.val['tout'], x)) - c2)
    ia, oa, ib, ob = tin(a), tout(a), tin(b), tout(b)
    cases = [('the same vertex', [eq(a, b)], True),
             ('a vertex below', [b_not(eq(a, b)), lt(ia, ib), le(ob, oa)], True),
             ('a vertex above', [b_not(eq(a, b)), lt(ib, ia), le(oa, ob)], False),
             ('a vertex entered later', [b_not(eq(a, b)), le(oa, ib)], False),
             ('a vertex entered before', [b_not(eq(a, b)), le(ob, ia)], False)]
    for s, v in res:
        if v.op not in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'bterm'):
            o.skip(INSIDE, 'answer %s' % show(v))
            continue
        for nm, fs, want in cases:
            t = s.copy().assume(lt(ia, oa), lt(ib, ob), *fs)
            if nm == 'the same vertex':
                t.assume(eq(ia, ib), eq(oa, ob))
            t.assume(*[ge(x, 0) for x in (ia, oa, ib, ob)])
            if t.facts.contradictory():
                continue
            o.local(INSIDE, nm, t, v if want else b_not(v), 'the answer for %s is %s' % (nm, show(v)))


def run_lca(crates, f):
    B = Tables(crates)
    fa, _, a, b, phi = formula(B)
    f, I, res, (u, v) = B.run('lca')
    anc = lambda x, y: subst(phi, {a.atom(): x, b.atom(): y})
    o = Rules(f, f.name)
    o.live = {q.id for q in used_loops([s for s, w in res])}
    pa = B.val['pa']
    ps = paths(I, res)
    o.rows += [('an', 'paths', len(ps))]
    loops = [find(I, q) for q in used_loops([s for s, w in res])]
    o.roots = tuple(p for q in loops for p in q.phis)
    todo = set()
    for s, r in res:
        if s.unk or not isinstance(r, Poly):
            o.skip(MEET, 'returns %s' % show(r))
            continue
        lp = [find(I, e[1]) for e in s.events() if e[0] == 'loop']
        if not lp:
            goals = [b_and(eq(r, u), anc(u, v)), b_and(eq(r, v), anc(v, u)), b_and(eq(u, v), eq(r, u))]
            o.local(MEET, 'direct', s, b_or(*goals), 'returns %s at once' % show(r))
            continue
        if len(lp) != 1:
            o.skip(MEET, 'several loops')
            continue
        q = lp[0]
        cur = [p for p, x in q.phis.items() if isinstance(x, Poly) and (x == u or x == v)]
        hit = None
        for x in cur:
            if r == P(mk('sel', mk('sel', pa, P(x)), P(0))) or s.facts.entails(eq(r, P(mk('sel', mk('sel', pa, P(x)), P(0))))):
                hit = x
        if hit is None:
            at_ = r.atom()
            if len(cur) == 1 and at_ is not None and all(y.op in ('phi', 'sel', 'carr', 'sym') for y in atoms_deep(r)) and (r == P(cur[0]) or any(y is cur[0] or y in (u.atom(), v.atom()) for y in atoms_deep(r))):
                o.local(MEET, 'parent', s, eq(r, P(mk('sel', mk('sel', pa, P(cur[0])), P(0)))), 'the climb ends at %s and %s is returned' % (show(cur[0], 4), show(r, 5)))
                hit = cur[0]
            else:
                o.skip(MEET, 'returns %s' % show(r, 5))
                continue
        todo.add((q.id, hit))
    for qi, x in todo:
        q = [z for z in loops if z.id == qi][0]
        w = v if P(q.phis[x]) == u else u
        if len([p for p, z in q.phis.items() if isinstance(z, Poly)]) > 1 and not all(z is x or q.phis[z] is q.phis.get(z) for z in q.phis):
            pass
        o.local(MEET, 'start', q.entry, b_not(anc(P(q.phis[x]), w)), 'the climb starts at %s, which may be above %s' % (show(q.phis[x]), show(w)))
        idx = None
        for s, b2 in q.backs:
            y = P(b2.get(x, P(x)))
            # the power tried in this pass
            ks = {P(t.args[1]) for l in list(s.facts.lits) + [ge0(y)] for t in atoms_deep(l) if t.op == 'sel' and isinstance(t.args[0], T) and t.args[0].op == 'sel' and t.args[0].args[0] is pa and P(t.args[0].args[1]) == P(x)}
            if len(ks) != 1:
                o.skip(MEET, 'a pass looks at %d powers' % len(ks))
                idx = False
                continue
            k = ks.pop()
            idx = k if idx in (None, k) else False
            z = P(mk('sel', mk('sel', pa, P(x)), k))
            o.local(MEET, 'pass', s, b_or(b_and(eq(y, z), b_not(anc(z, w))), b_and(eq(y, P(x)), anc(z, w))),
                    'the climb goes from %s to %s' % (show(x, 4), show(y, 6)))
        if idx:
            d = idx + q.it if q.it_atom is not None else None
            if d is None or any(t is q.it_atom for t in atoms_deep(d)):
                # a counter of its own
                ph = [p for p in atoms_deep(idx) if p in q.phis]
                if q.it_atom is not None and not any(t is q.it_atom for t in atoms_deep(idx - q.it)):
                    o.wrong(MEET, 'upwards', q.entry, 'the powers are tried from the lowest up')
                else:
                    o.skip(MEET, 'order of the powers: %s' % show(idx))
                continue
            o.local(MEET, 'highest', q.entry, ge(d, K - 1), 'the climb begins with power %s of %s' % (show(d), show(K)))
            for s, r in res:
                if exits(I, [s], q):
                    o.local(MEET, 'lowest', s, lt(d - q.it, 0), 'the climb ends before power %s' % show(d - q.it))
    return o.rows


def run_dis(crates, f):
    B = Tables(crates)
    l = B.method('lca')

    def hook(I):
        def spec(I, fr, s, a, span, dty):
            x, y = P(a[1]), P(a[2])
            if show(x) > show(y):
                x, y = y, x
            m = P(mk('sel', mk('sel', mk('carr', 'lca', N), x), y))
            s.assume(ge(m, 0), lt(m, N))
            d = lambda z: P(mk('sel', B.val['dep'], z))
            s.assume(le(d(m), d(x)), le(d(m), d(y)), ge(d(m), 0), le(d(x), N), le(d(y), N))
            s.event('lca', x, y)
            return [(s, m)]
        I.spec_fn[l.path] = spec
    f, I, res, (u, v) = B.run('dis', hook)
    o = Rules(f, f.name)
    o.live = set()
    x, y = (u, v) if show(u) <= show(v) else (v, u)
    m = P(mk('sel', mk('sel', mk('carr', 'lca', N), x), y))
    d = lambda z: P(mk('sel', B.val['dep'], z))
    o.rows += [('an', 'paths', len(res))]
    for s, r in res:
        if s.unk or not isinstance(r, Poly):
            o.skip(DIST, 'returns %s' % show(r))
            continue
        t = s.copy().assume(le(d(m), d(u)), le(d(m), d(v)), ge(d(m), 0), le(d(u), N), le(d(v), N))
        # a path that has not asked for the common ancestor knows it when the vertices are the same or one above the other
        want = d(u) + d(v) - 2 * d(m)
        goal = eq(r, want)
        if not any(e[0] == 'lca' for e in s.events()):
            t.assume(b_or(b_not(eq(u, v)), eq(m, u)))
            if not t.facts.entails(goal):
                o.skip(DIST, 'returns %s without the common ancestor' % show(r))
                continue
        o.local(DIST, 'formula', t, goal, 'the distance is %s' % show(r))
    return o.rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        adt = find_adt(crates[0], 'BinaryLifting')
        if not ctx.need(adt, 'BinaryLifting'):
            return
        f = method(crates[0], adt, 'from')
        if not ctx.need(f is not None, 'from'):
            return
        for g in (run_build, run_lca, run_dis):
            tasks.append(('%s %s' % (f.path, g.__name__), g, crates, f))
    ctx.tasks(tasks, limit=200)
    ctx.floor(len(tasks), 6, 'functions')
    ctx.assumptions += ['the graph is a tree: connected, without loops and parallel edges', 'a nested search obeys the same rules', 'at most 2^30 vertices']
