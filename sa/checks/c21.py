"""C21: every search enters a vertex at most once per pass: marks are set before the search goes on, never taken back within
a pass, looked at before a vertex is entered, and wiped before the next pass."""
from c20 import *

NEW = 'a pass starts with no vertex marked'
KEEPS = 'a mark is not taken back while the pass lasts'
ONCE = 'a vertex is entered only while it is not marked'
FIRST_ = 'a vertex is marked before the search goes on from it'


def unmarked(I, v, c, s):
    """the value v of the mark table says 'not visited'; c is the value at the start of a pass"""
    if isinstance(c, Poly):
        return eq(P(v), c)
    if c is FALSE or c is TRUE:
        if v is TRUE or v is FALSE:
            return TRUE if v is c else FALSE
        b = v if isinstance(v, T) and v.op in ('bterm', 'ge0', 'eq0', 'not', 'and', 'or') else mk('bterm', 'val', v)
        return b if c is TRUE else b_not(b)
    if option(c)[0] == 'none':
        return is_none(I, v, s)
    return None


def plain(c):
    return isinstance(c, Poly) and c.const() is not None or c is TRUE or c is FALSE or isinstance(c, T) and option(c)[0] == 'none'


def analyse(crates, f, receiver, facts):
    """the recursion under f and its results; receiver(st) -> arguments"""
    cr = crates[0]
    rs = recursive(cr, f.path)
    I0 = AI(crates, NoResidues())
    if len(rs) > 1:
        rs = [p for p in rs if any(l.mut and is_list(l.ty) for l in leaves(I0, cr.fns[p], arg_names(cr.fns[p])))]
    if len(rs) != 1:
        raise Unknown('recursive searches under %s: %s' % (f.name, rs))
    S = Search(crates, cr.fns[rs[0]])
    S.L = leaves(I0, S.fn, S.names)

    def outer():
        st = State()
        st.assume(*facts)
        return S.outer(f.path, st, receiver(st))
    outer()
    if not S.caps:
        raise Unknown('the search is not started')
    s, a, before = S.caps[0]
    lens, more = {}, []
    for l in S.L:
        x = before[l.key]
        if is_list(l.ty) and isinstance(x, T):
            try:
                n = known_len(x, s.facts, (N, P(sym('M', 'usize'))))
            except Unknown:
                continue
            if not any(t.op in ('phi', 'opaque') for t in atoms_deep(n)) and x.op != 'arr':
                lens[l.name] = n
        if l.ty[0] == 'int' and isinstance(x, Poly) and x.const() is not None:
            more += [(l, ge(P(sym(l.name, l.ty[1])), x)), (l, le(P(sym(l.name, l.ty[1])), MAXN))]
    I, res = S.run(lens, facts + [g for l, g in more])
    if any(l.key not in S.mono for l, g in more):
        I, res = S.run(lens, facts + [g for l, g in more if l.key in S.mono])
    oI, ores = outer()
    return S, I, res, oI, ores


def is_list(t):
    return t[0] == 'adt' and t[1].endswith('::Vec')


def filled(x):
    """(table before, condition that all of it is overwritten, value) for a table filled from one index to another"""
    if isinstance(x, T) and x.op == 'fillr':
        b, lo, hi, v = x.args
        return b, b_and(le(P(lo), 0), ge(P(hi), P(arr_len(b)))), v
    if isinstance(x, T) and x.op == 'splice' and isinstance(x.args[3], T) and x.args[3].op == 'rep':
        b, lo, hi, v = x.args
        return b, b_and(le(P(lo), 0), ge(P(hi), P(arr_len(b)))), v.args[0]
    return None


def chain(a, I, made, stop):
    """the tables a has been, newest first, on every path (loop passes only add marks, so their inside is left out);
    [(table, (index, value) of the write that made it from the next one or None)]"""
    out = []
    while isinstance(a, T):
        if a is stop:
            out.append((a, None))
            break
        if a.op == 'store':
            out.append((a, (P(a.args[1]), a.args[2])))
            a = a.args[0]
        elif a in made:
            out.append((a, None))
            a = made[a]
        elif a.op == 'phi':
            out.append((a, None))
            n = [i.phis[a] for i in I.loops_done if a in i.phis]
            if not n:
                break
            a = n[-1]
        else:
            out.append((a, None))
            break
    return out


def judge(S, I, res, oI, ores, l, cr, outer_fn, dirty, init={}):
    """rows for the table l as the table of marks"""
    o = Rules(S.fn, S.fn.name)
    o.live = live_of(I, res)
    o.roots = roots_of(I, res)
    q = Rules(outer_fn, outer_fn.name)
    q.live = live_of(oI, ores)
    q.roots = roots_of(oI, ores)
    made, omade = calls_made(I, res), calls_made(oI, ores)
    o.signed = signed_of(S, I, made, S.first)
    q.signed = signed_of(S, oI, omade, {})
    ui = [i for i, t in enumerate(S.fn.inputs) if t[0] == 'int' and t[1] == 'usize'][:1]
    if not ui:
        raise Unknown('vertex argument')
    ui = ui[0]
    u = P(S.args[ui])
    A0 = S.first[l.key]
    # ---- what a pass starts with
    c = None
    for s, i, b in paths(oI, ores):
        for e in recs(s):
            starts, writes = history(e[3][l.key], oI, omade)
            for x in starts:
                if isinstance(x, T) and x.op == 'rep' and plain(x.args[0]):
                    c = x.args[0]
                elif filled(x) and plain(filled(x)[2]):
                    c = filled(x)[2]
                elif isinstance(x, T) and x in init and plain(init[x]) and c is None:
                    c = init[x]
    if c is None:
        if not all(isinstance(x, T) and x.op == 'arr' for s, i, b in paths(oI, ores) for e in recs(s) for x in history(e[3][l.key], oI, omade)[0]):
            q.skip(NEW, 'marks in %s at the start: %s' % (l.name, [show(x, 5) for s, i, b in paths(oI, ores) for e in recs(s) for x in history(e[3][l.key], oI, omade)[0]][:3]))
            return o, q
        return None
    for s, i, b in paths(oI, ores):
        for e in recs(s):
            starts, writes = history(e[3][l.key], oI, omade)
            if writes and not any(isinstance(x, T) and x.op == 'rep' for x in starts):
                q.skip(NEW, 'marks wiped one by one')
                continue
            for x in starts:
                if isinstance(x, T) and x.op == 'rep':
                    (q.ok(NEW) if x.args[0] is c or isinstance(c, Poly) and x.args[0] == c else q.skip(NEW, 'pass starts with %s' % show(x, 4)))
                elif filled(x) and filled(x)[2] == c:
                    q.local(NEW, 'stale', s, filled(x)[1], 'only the marks from %s to %s are wiped before a pass' % (show(x.args[1]), show(x.args[2])))
                elif isinstance(x, T) and x.op == 'carr' and dirty is not None:
                    d = dirty(x)
                    if d:
                        q.roots += tuple(p for i in oI.loops_done for p in i.phis if isinstance(p, T))
                        q.wrong(NEW, 'stale', s, d)
                    else:
                        q.ok(NEW)
                else:
                    q.skip(NEW, 'pass starts with %s' % show(x, 4))
            for k, v in writes:
                q.skip(KEEPS, 'the starting function marks %s = %s' % (show(k), show(v)))
    if any(x.op == 'carr' for s, i, b in paths(oI, ores) for e in recs(s) for x in history(e[3][l.key], oI, omade)[0] if isinstance(x, T)) and dirty is not None and not q.hit:
        # the table is wiped at the end instead
        pass
    # ---- numbers: marks are not below the value of unmarked vertices, when nothing smaller is written
    tabs_ = {A0} | {x for x in made if family(x, A0, I, made)} | {p for i in I.loops_done for p in i.phis if isinstance(p, T) and family(p, A0, I, made)}

    otabs = {e[k][l.key] for s, i, b in paths(oI, ores) for e in recs(s) for k in (3, 4)}
    otabs |= {p for i in oI.loops_done for p in i.phis if isinstance(p, T) and any(x in otabs or isinstance(x, T) and x.op == 'rep' for x in history(p, oI, omade)[0])}

    def lower(s, tabs_=tabs_):
        if not isinstance(c, Poly) or not ranged[0]:
            return s
        s2 = s.copy()
        for f in s.facts.lits:
            for x in atoms_deep(f):
                if x.op == 'sel' and x.args[0] in tabs_:
                    s2.assume(ge(P(x), c))
        return s2
    ranged = [True]
    if isinstance(c, Poly):
        for s, i, b in paths(I, res):
            for x in ([S.end(s, l)] if i is None else b.values()):
                while isinstance(x, T) and x.op == 'store' and ranged[0]:
                    if isinstance(x.args[2], Poly):
                        s2 = lower(s)
                        for a in atoms_deep(x.args[2]):
                            if a.op == 'sel' and a.args[0] in tabs_:
                                s2.assume(ge(P(a), c))
                        y = x.args[0]
                        while isinstance(y, T) and y.op == 'store':
                            y = y.args[0]
                        if y in tabs_ and not s2.facts.entails(ge(x.args[2], c)):
                            ranged[0] = False
                    x = x.args[0]
    # ---- nothing is unmarked
    for s, i, b in paths(I, res):
        s = lower(s)
        end = S.end(s, l) if i is None else None
        tabs = [end] if i is None else [x for p, x in b.items() if family(p, A0, I, made)]
        for x in tabs:
            base = x
            while isinstance(base, T) and base.op == 'store':
                k, v = P(base.args[1]), base.args[2]
                base = base.args[0]
                g = unmarked(I, v, c, s)
                if g is None:
                    o.skip(KEEPS, 'mark %s' % show(v))
                    continue
                old = at(I, base, k, s, lambda v: unmarked(I, v, c, s))
                o.local(KEEPS, 'unmark', s, b_or(b_not(g), old), 'the mark of vertex %s becomes %s' % (show(k), show(v)))
            if not (base is A0 or base in made or isinstance(base, T) and base.op == 'phi'):
                o.skip(KEEPS, 'marks %s' % show(base, 5))
    # ---- entering
    self_ok, self_fail = [], []
    for s, i, b in paths(I, res):
        s = lower(s)
        if recs(s):
            g = at(I, A0, u, s, lambda v: unmarked(I, v, c, s))
            (self_ok if s.facts.entails(g) else self_fail).append((s, g))
    sites = []          # (rules, state, unmarked at the call, was unmarked and is marked now)
    for r, J, rr, mm, stop in ((o, I, res, made, A0), (q, oI, ores, omade, None)):
        for s, i, b in paths(J, rr):
            s = lower(s) if r is o else lower(s, otabs)
            for e in recs(s):
                w = P(e[2][ui])
                A = e[3][l.key]
                g = at(J, A, w, s, lambda v: unmarked(J, v, c, s))
                late = False
                if not s.facts.entails(g):
                    late = any(s.facts.entails(at(J, x, w, s, lambda v: unmarked(J, v, c, s))) for x, _ in chain(A, J, mm, stop)) and s.facts.entails(b_not(g))
                sites.append((r, s, g, late, w))
    if not sites:
        raise Unknown('calls of the search')
    if not self_fail:
        o.ok(ONCE)
    elif all(late for r, s, g, late, w in sites):
        o.ok(ONCE)
        o.ok(FIRST_)
        return o, q
    elif any(late for r, s, g, late, w in sites):
        o.skip(ONCE, 'some callers mark the vertex, others do not')
        return o, q
    else:
        # the callers have to look; a path that can be shown not to look on either side is the violation
        n = len(o.hit)
        t = Rules(S.fn, S.fn.name)
        t.live, t.roots, t.signed = o.live, o.roots, o.signed
        for s, g in self_fail:
            t.local(ONCE, 'enter', s, g, 'the search goes on from %s, which may have been visited' % show(u))
        for r, s, g, late, w in sites:
            if s.facts.entails(g):
                r.ok(ONCE)
            elif t.hit:
                r.local(ONCE, 'enter', s, g, 'vertex %s is entered without a look at its mark' % show(w))
            else:
                r.skip(ONCE, 'vertex %s is entered' % show(w))
    # ---- marking
    for s, i, b in paths(I, res):
        s = lower(s)
        for e in recs(s):
            ch = chain(e[3][l.key], I, made, A0)
            done = False
            for x, w in ch:
                if w is not None and s.facts.entails(eq(w[0], u)):
                    g = unmarked(I, w[1], c, s)
                    if g is not None:
                        done = True
                        o.local(FIRST_, 'mark', s, b_not(g), 'the search goes on from %s with the mark %s' % (show(u), show(w[1])))
                        break
            if done:
                pass
            elif ch[-1][0] is not A0 or s.unk:
                o.skip(FIRST_, 'marks at a call: %s' % show(e[3][l.key], 4))
            else:
                # no write on the way: the vertex has the mark it came with
                g = at(I, e[3][l.key], u, s, lambda v: unmarked(I, v, c, s))
                o.local(FIRST_, 'mark', s, b_not(g), 'the search goes on from %s before it is marked' % show(u))
    return o, q


def signed_of(S, I, made, first):
    """tables of signed numbers"""
    ks = {l.key for l in S.L if is_list(l.ty) and l.ty[2][0][0] == 'int' and l.ty[2][0][1][0] == 'i'}
    out = {first[k] for k in ks if k in first}
    bound = out | {a for s, i, b in paths_all(I) for e in recs(s) for k in ks for a in (e[3][k], e[4][k]) if isinstance(a, T)}
    for x in list(bound):
        while isinstance(x, T):
            out.add(x)
            if x.op != 'store':
                break
            x = x.args[0]
    for i in I.loops_done:
        for p in i.phis:
            if isinstance(p, T) and any(x in out for x in history(p, I, made)[0]):
                out.add(p)
    return out


def paths_all(I):
    return [(s, i, b) for i in I.loops_done for s, b in i.backs]


def family(p, A0, I, made):
    """loop variable p carries the table A0"""
    starts, w = history(p, I, made)
    return starts == [A0] or len(set(starts)) == 1 and starts[0] is A0


def decide(crates, f, outer_fn, receiver, facts, dirty=None, init={}):
    S, I, res, oI, ores = analyse(crates, outer_fn, receiver, facts)
    best = None
    for l in S.L:
        if not l.mut or not is_list(l.ty) or is_list(l.ty[2][0]):
            continue
        n = S.first[l.key]
        try:
            r = judge(S, I, res, oI, ores, l, crates[0], outer_fn, dirty(S, oI, ores, l) if dirty else None, init)
        except Unknown as e:
            r = None
            continue
        if r is None:
            continue
        o, q = r
        bad = len(o.hit) + len(q.hit)
        skips = sum(1 for x in o.rows + q.rows if x[0] == 'skip')
        oks = sum(1 for x in o.rows + q.rows if x[0] == 'ok')
        k = (bad > 0, skips > 0, bad, skips, -oks)
        if best is None or k < best[0]:
            best = (k, o.rows + q.rows, l.name)
    if best is None:
        o = Rules(S.fn, S.fn.name)
        o.skip(ONCE, 'no table of marks')
        return o.rows
    rows = best[1]
    rows += [('note', '%s: marks are in %s' % (S.fn.path, best[2])), ('an', 'paths', len(res)), ('an', 'loops', len(live_of(I, res)) + len(live_of(oI, ores)))]
    return rows


def run_matching(crates, f):
    cr, adt, f, ct, M, facts, v, role = setup(crates)

    def receiver(st):
        st.mem[('obj', 'self')] = v
        return [ref(('obj', 'self'))]

    def dirty(S, oI, ores, l):
        return lambda x: stale(x, v, oI, ores, f)
    return decide(crates, f, f, receiver, facts, dirty, fresh_values(crates, ct, [N, M], facts, v))


def fresh_values(crates, ct, args, facts, v):
    """{table of the receiver: value of all its elements in a new object}"""
    st = State()
    st.assume(*facts)
    res, _ = call(AI(crates, NoResidues()), ct.path, st, args)
    if len(res) != 1:
        return {}
    return {a: b.args[0] for a, b in zip(v.args[2:], res[0][1].args[2:]) if isinstance(a, T) and isinstance(b, T) and b.op == 'rep'}


def stale(x, v, I, res, f):
    """the receiver's table x is used as it was left: is it left without marks?"""
    ks = [k for k, y in enumerate(v.args[2:]) if y is x]
    if not ks:
        raise Unknown('marks of unknown origin')
    made = calls_made(I, res)
    for s, r in res:
        end = s.mem[('obj', 'self')].args[2 + ks[0]]
        st, w = history(end, I, made)
        if end is not x and (not all(isinstance(y, T) and y.op == 'rep' for y in st) or end in made or end.op == 'phi'):
            return 'a pass can start with the marks an earlier one has left'
    return ''


def run_scc(crates, f):
    facts = [ge(N, 0), le(N, MAXN)]

    def receiver(st):
        st.mem[('obj', 'g')] = mk('carr', 'g', N)
        return [ref(('obj', 'g'))]
    return decide(crates, f, f, receiver, facts)


# ------------------------------------------------------------------ searches with a queue
def deq(x, q):
    """values pushed behind q after some were taken from its front; None when x is something else"""
    out = []
    while isinstance(x, T) and x is not q:
        if x.op == 'push':
            out.append(x.args[1])
        elif x.op != 'popf':
            return None
        x = x.args[0]
    return out[::-1] if x is q else None


def run_levels(crates, f):
    """breadth-first search under f (get_max_flow), with the augmenting search under its contract"""
    adt, S, facts, val, env, I, res = flow(crates, f)
    o = Rules(f, f.name)
    o.live = live_of(I, res)
    o.roots = roots_of(I, res)
    loops = [find(I, i) for i in used_loops([s for s, v in res])]
    # queues: loop variables that lose their front
    queues = set()
    for i in loops:
        for s, b in i.backs:
            for p, x in list(b.items()) + [(None, j.phis[p]) for j in loops for p in j.phis]:
                if isinstance(x, T) and x.op in ('push', 'popf'):
                    y = x
                    while isinstance(y, T) and y.op in ('push', 'popf'):
                        y = y.args[0]
                    if y.op == 'phi' and deq(x, y) is not None and any(z.op == 'popf' for z in subs(x)):
                        queues.add(y)
    made = calls_made(I, res)
    for i in loops:     # passes inside carry the same queue
        for p, x in i.phis.items():
            if isinstance(x, T) and any(deq(x, q) == [] for q in list(queues)):
                queues.add(p)
    if not queues:
        o.skip(ONCE, 'no queue')
        return o.rows
    best = None
    tabs = [p for i in loops for p in i.phis if is_table(I, p, made)]
    fams = []
    for t in tabs:
        starts, w = history(t, I, made)
        value = lambda x: x.args[0] if isinstance(x, T) and x.op == 'rep' else filled(x)[2] if filled(x) else None
        for c in {value(x) for x in starts if value(x) is not None and plain(value(x))}:
            fam = [p for p in tabs if any(value(x) == c for x in history(p, I, made)[0])]
            if (c, fam) not in fams:
                fams.append((c, fam))
    starts_only = set()
    ct = method(crates[0], adt, 'new')
    me = State()
    init = fresh_values(crates, ct, [N], facts[:2], AGG(adt, 0, *val.values()))
    for c in {x for x in init.values() if plain(x)}:
        fam = [p for p in tabs if any(x in init and init[x] == c for x in history(p, I, made)[0] if isinstance(x, T))]
        if fam and not any(c == c2 for c2, f2 in fams):
            fams.append((c, fam))
    for c, fam in fams:
        r = levels(Rules(f, f.name), o, I, res, made, loops, queues, c, fam, init)
        bad, skips = len(r.hit), sum(1 for x in r.rows if x[0] == 'skip')
        oks = sum(1 for x in r.rows if x[0] == 'ok')
        k = (bad > 0, skips > 0, bad, skips, -oks)
        if oks + bad + skips and (best is None or k < best[0]):
            best = (k, r)
    if best is None:
        o.skip(NEW, 'no table of marks')
        return o.rows
    return best[1].rows + [('an', 'paths', len(res)), ('an', 'loops', len(loops))]


def subs(x):
    out = [x]
    while isinstance(x, T) and x.op in ('push', 'popf'):
        x = x.args[0]
        out.append(x)
    return out


def is_table(I, p, made):
    return p.op == 'phi' and any(isinstance(x, T) and (x.op in ('rep', 'carr', 'store', 'fillr') or x in made) for x in history(p, I, made)[0])


def levels(r, o, I, res, made, loops, queues, c, fam, init={}):
    r.live, r.roots = o.live, o.roots + tuple(queues)
    look = lambda A, k, s: at(I, A, k, s, lambda v: unmarked(I, v, c, s))

    def lower(s):
        """marks are numbers not below the unmarked one: what is read is, and what is written follows from that"""
        if not isinstance(c, Poly):
            return s
        s2 = s.copy()
        for l in s.facts.lits:
            for x in atoms_deep(l):
                if x.op == 'sel' and x.args[0] in fam:
                    s2.assume(ge(P(x), c), le(P(x), MAXN))
        return s2
    n = 0
    for i in loops:
        for s, b in i.backs:
            mine = [p for p in i.phis if p in fam]
            for q, x in b.items():
                if q not in queues:
                    continue
                vs = deq(x, q)
                if vs is None:
                    # contents of an inner pass
                    if not (isinstance(x, T) and x.op == 'phi' and x in queues):
                        r.skip(ONCE, 'queue %s' % show(x, 5))
                    continue
                if not vs:
                    continue
                n += 1
                if not mine:        # not a table of marks
                    r.rows, r.hit = [], set()
                    return r
                if len(mine) != 1:
                    r.skip(ONCE, 'marks while vertices are queued: %d tables' % len(mine))
                    continue
                p = mine[0]
                if len(vs) > 1 or not isinstance(vs[0], Poly):
                    r.skip(ONCE, 'several vertices are queued')
                    continue
                v = vs[0]
                s2 = lower(s)
                r.local(ONCE, 'queue', s2, look(p, v, s2), 'vertex %s is queued without a look at its mark' % show(v))
                r.local(FIRST_, 'mark', s2, b_not(look(b.get(p, p), v, s2)), 'vertex %s is queued and not marked' % show(v))
            for p in mine:
                x = b.get(p, p)
                while isinstance(x, T) and x.op == 'store':
                    k, v = P(x.args[1]), x.args[2]
                    x = x.args[0]
                    s2 = lower(s)
                    g = unmarked(I, v, c, s2)
                    if g is None:
                        r.skip(KEEPS, 'mark %s' % show(v))
                        continue
                    r.local(KEEPS, 'unmark', s2, b_or(b_not(g), look(x, k, s2)), 'the mark of vertex %s becomes %s' % (show(k), show(v)))
                    if isinstance(c, Poly):
                        r.local(KEEPS, 'range', s2, ge(P(v), c), 'the mark of vertex %s becomes %s' % (show(k), show(v)))
    if not n:
        return r
    # ---- what the pass starts with
    for i in loops:
        for q, x in i.phis.items():
            if q not in queues or isinstance(x, T) and (x in queues or x.op in ('push', 'popf') and any(y in queues for y in subs(x))):
                continue
            mine = [p for p in i.phis if p in fam]
            if len(mine) != 1 or not (isinstance(x, T) and x.op == 'arr'):
                r.skip(NEW, 'queue at the start: %s' % show(x, 5))
                continue
            A = i.phis[mine[0]]
            for v in x.args:
                r.local(FIRST_, 'mark', i.entry, b_not(look(A, P(v), i.entry)), 'vertex %s is queued and not marked' % show(v))
            base = A
            while isinstance(base, T) and base.op == 'store':
                k, base = P(base.args[1]), base.args[0]
                if not any(i.entry.facts.entails(eq(k, P(v))) for v in x.args):
                    r.skip(NEW, 'vertex %s is marked at the start' % show(k))
            if isinstance(base, T) and base.op == 'rep':
                r.ok(NEW)
            elif filled(base) and filled(base)[2] == c:
                r.local(NEW, 'stale', i.entry, filled(base)[1], 'only the marks from %s to %s are wiped before a pass' % (show(base.args[1]), show(base.args[2])))
            else:
                starts, w = history(base, I, made)
                gs = [unmarked(I, v, c, i.entry) for k, v in w]
                if w and all(isinstance(x, T) and x in init and init[x] == c for x in starts) and all(g is not None and not i.entry.facts.entails(g) for g in gs):
                    r.roots = tuple(r.roots) + tuple(p for j in I.loops_done for p in j.phis if isinstance(p, T))
                    r.wrong(NEW, 'stale', i.entry, 'a pass starts with the marks the one before has left')
                else:
                    r.skip(NEW, 'marks at the start: %s' % show(A, 5))
    return r


def flow(crates, f, cap='i64', hypo=None):
    """the flow network: its recursive search under contract, and f analysed with it"""
    cr = crates[0]
    adt = find_adt(cr, 'Dinic')
    ct = method(cr, adt, 'new')
    g = f.generics[0] if f.generics else 'Cap'
    env = {g: ('int', cap)}
    E = P(sym('E', 'usize'))
    facts = [ge(N, 0), le(N, MAXN), ge(E, 0), le(E, MAXN)]
    st = State()
    st.assume(*facts)
    sh = shapes(crates, adt, ct, [N], st, N)
    if len(sh) != 1:
        raise Unknown('shapes of the network')
    val, k = {}, 0
    fields = cr.adts[adt]['variants'][0]['fields']
    for fd, x in zip(fields, sh[0].value.args[2:]):
        t = cr.ty(fd['t'])
        if is_list(t):
            # lists per vertex, and one list of edges
            n = arr_len(x)
            val[fd['n']] = mk('carr', fd['n'], N if n == N else E)
        else:
            val[fd['n']] = x
    me = AGG(adt, 0, *[val[fd['n']] for fd in fields])
    rs = recursive(cr, f.path)
    I0 = AI(crates, NoResidues())
    rs = [p for p in rs if any(l.mut and is_list(l.ty) for l in leaves(I0, cr.fns[p], arg_names(cr.fns[p]), env))]
    if len(rs) != 1:
        raise Unknown('recursive searches under %s: %s' % (f.name, rs))
    S = Search(crates, cr.fns[rs[0]], {h: ('int', cap) for h in cr.fns[rs[0]].generics[:1]})
    S.run({k: arr_len(x) for k, x in val.items() if isinstance(x, T) and is_arr(x)}, facts)
    a, b = P(sym('s', 'usize')), P(sym('t', 'usize'))
    st = State()
    st.assume(*facts)
    st.assume(ge(a, 0), ge(b, 0))
    st.mem[('obj', 'self')] = me
    I, res = S.outer(f.path, st, [ref(('obj', 'self')), a, b], env)
    return adt, S, facts, val, env, I, res


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        cr = crates[0]
        a = find_adt(cr, 'AugmentedPath')
        f = method(cr, a, 'solve') if a else None
        g = [x for x in cr.fns.values() if x.name == 'scc' and len(x.inputs) == 1]
        if not ctx.need(f is not None, 'solve') or not ctx.need(len(g) == 1, 'scc'):
            return
        tasks.append((f.path, run_matching, crates, f))
        tasks.append((g[0].path, run_scc, crates, g[0]))
        d = find_adt(cr, 'Dinic')
        h = method(cr, d, 'get_max_flow') if d else None
        if not ctx.need(h is not None, 'get_max_flow'):
            return
        tasks.append((h.path, run_levels, crates, h))
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 6, 'searches')
    ctx.assumptions += ['fewer than 2^30 vertices, so levels and entry times stay below that']
