"""C31: strongly connected components: every entered vertex is put on the stack once and leaves it into exactly one component;
only vertices on the stack lower what a vertex reaches; components are numbered in the order they are closed."""
from c21 import *

PLACE = 'an entered vertex is put on the stack, flagged and numbered before its edges are followed'
FOLLOW = 'every edge is followed to a vertex that has not been entered'
LOW = 'an edge lowers what a vertex reaches exactly when its end is on the stack'
ROOT = 'a component is closed exactly at a vertex that reaches no earlier one'
TAKE = 'a vertex taken off the stack loses its flag and joins the component being closed, down to the vertex that closes it'
ALLV = 'every vertex is entered'
COLOR = 'the number of a vertex is the index of its component'


def elem(t):
    return t[2][0] if is_list(t) and t[2] else None


class Hist:
    """what happens to the parts of the search's state between loop heads"""
    def __init__(self, S, I, res, made):
        self.S, self.I, self.res, self.made = S, I, res, made
        self.fam = {}
        self.other = []
        self.loops = [find(I, i) for i in used_loops([s for s, v in res])]
        for l in S.L:
            if l.mut:
                self.fam[l.key] = [p for i in self.loops for p in i.phis if self.begins(p) == {S.first[l.key]}]

    def begins(self, x):
        """what x has been made from by writes, pushes and pops"""
        seen, todo, out = set(), [x], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if not isinstance(x, T):
                out.add(x)
            elif x.op in ('store', 'push', 'popb', 'popf', 'slice', 'splice', 'fillr'):
                todo.append(x.args[0])
            elif x in self.made:
                todo.append(self.made[x])
            elif x.op == 'phi' and any(x in i.phis for i in self.loops):
                for i in self.loops:
                    if x in i.phis:
                        todo += [i.phis[x]] + [b[x] for s, b in i.backs if b.get(x, x) is not x]
            else:
                out.add(x)
        return out

    def anchor(self, x):
        """(place where the piece begins: a loop head, a return from a nested search or the start; operations since, oldest first)"""
        ops = []
        while isinstance(x, T) and x not in self.made and x.op in ('store', 'push', 'popb', 'slice'):
            if x.op == 'store':
                ops.append(('store', P(x.args[1]), x.args[2], x.args[0]))
            elif x.op == 'push':
                ops.append(('push', x.args[1], x.args[0]))
            elif x.op == 'popb':
                ops.append(('pop', x.args[0]))
            elif not (P(x.args[1]) == P(0) and P(x.args[2]) == P(arr_len(x.args[0]))):
                raise Unknown('part of a list: ' + show(x, 9))
            x = x.args[0]
        return x, ops[::-1]

    def pieces(self):
        """[(state, end values by leaf key, all values at the end, kind, loop)]"""
        out = []
        for s, v in self.res:
            out.append((s, {l.key: self.S.end(s, l) for l in self.S.L if l.mut}, 'return', None))
        for i in self.loops:
            ends = {k: i.phis[p] for k, ps in self.fam.items() for p in ps if p in i.phis}
            out.append((i.entry, ends, 'enter', i))
            for s, b in i.backs:
                out.append((s, {k: b.get(p, p) for k, ps in self.fam.items() for p in ps if p in i.phis}, 'pass', i))
        return out


def pieces_of(x, H):
    """vertices put into a list of lists since its anchor, number of lists added; lists that are still being filled"""
    a, ops = H.anchor(x)
    got, new = [], 0
    for op in ops:
        if op[0] == 'push':
            new += 1
            y, o2 = H.anchor(op[1])
            if any(z[0] != 'push' for z in o2):
                raise Unknown('a component: ' + show(op[1], 4))
            if not (y.op == 'arr' or y.op == 'phi'):
                raise Unknown('a component: ' + show(op[1], 4))
            got += [P(z) for z in y.args] if y.op == 'arr' else []
            got += [P(z[1]) for z in o2]
        elif op[0] == 'store':
            y, o2 = H.anchor(op[2])
            if any(z[0] != 'push' for z in o2):
                raise Unknown('a component: ' + show(op[2], 4))
            old = op[3]
            # the list of this index before
            fresh = old.op == 'push' and op[1] == P(arr_len(old)) - 1 and old.args[1]
            was = fresh.args if isinstance(fresh, T) and fresh.op == 'arr' else ()
            if not (y.op == 'sel' and P(y.args[1]) == op[1] or y.op == 'arr' and fresh and y.args[:len(was)] == was):
                raise Unknown('a component: ' + show(op[2], 4))
            if not op[1] == P(arr_len(old)) - 1:
                H.other.append((op[1], P(arr_len(old)) - 1))
            got += ([P(z) for z in y.args[len(was):]] if y.op == 'arr' else []) + [P(z[1]) for z in o2]
        else:
            raise Unknown('components are taken away')
    return a, got, new


def run_dfs(crates, f):
    facts = [ge(N, 0), le(N, MAXN)]

    def receiver(st):
        st.mem[('obj', 'g')] = mk('carr', 'g', N)
        return [ref(('obj', 'g'))]
    S, I, res, oI, ores = analyse(crates, f, receiver, facts)
    made, omade = calls_made(I, res), calls_made(oI, ores)
    o = Rules(S.fn, S.fn.name)
    o.live, o.roots = live_of(I, res), roots_of(I, res)
    o.signed = signed_of(S, I, made, S.first)
    q = Rules(f, f.name)
    q.live, q.roots = live_of(oI, ores), roots_of(oI, ores)
    q.signed = signed_of(S, oI, omade, {})
    o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(o.live) + len(q.live))]
    try:
        search(S, I, res, oI, ores, made, omade, o, q)
    except Unknown as e:
        o.skip(TAKE, str(e))
    try:
        colours(S, oI, ores, omade, q)
    except Unknown as e:
        q.skip(COLOR, str(e))
    return o.rows + q.rows


def search(S, I, res, oI, ores, made, omade, o, q):
    H = Hist(S, I, res, made)
    ui = [i for i, t in enumerate(S.fn.inputs) if t[0] == 'int' and t[1] == 'usize'][:1]
    if not ui:
        raise Unknown('vertex argument')
    ui = ui[0]
    u = P(S.args[ui])
    pieces = H.pieces()
    # ---- roles
    usize = ('int', 'usize')
    stacks = [l for l in S.L if l.mut and elem(l.ty) == usize and any(x.op == 'popb' for s, ends, k, i in pieces if l.key in ends for x in subs(ends[l.key]))]
    if not stacks:      # put on and taken off again on every path
        stacks = [l for l in S.L if l.mut and elem(l.ty) == usize]
    flags = [l for l in S.L if l.mut and elem(l.ty) == ('bool',)]
    comps = [l for l in S.L if l.mut and elem(l.ty) and is_list(elem(l.ty)) and elem(elem(l.ty)) == usize]
    nums = [l for l in S.L if l.mut and elem(l.ty) and elem(l.ty)[0] == 'int' and l not in stacks]
    counters = [l for l in S.L if l.mut and l.ty[0] == 'int']
    graphs = [l for l in S.L if not l.mut and elem(l.ty) and is_list(elem(l.ty))]
    if not (len(stacks) == len(flags) == len(comps) == len(graphs) == 1 and len(nums) == 2):
        raise Unknown('parts of the search: stacks %s flags %s components %s numbers %s' % (stacks, flags, comps, nums))
    K, F, C, G = stacks[0], flags[0], comps[0], S.first[graphs[0].key]
    # the table that decides which vertices are entered
    orders = []
    for l in nums:
        ok, n = True, 0
        for J, rr, mm in ((I, res, made), (oI, ores, omade)):
            for s, i, b in paths(J, rr):
                for e in recs(s):
                    n += 1
                    c = start_value(oI, ores, omade, l)
                    if c is None:
                        ok = False
                        continue
                    w = P(e[2][ui])
                    same = lambda x: [y for y in s.facts.lits for z in atoms_deep(y) if z.op == 'sel' and z.args[0] is x and P(z.args[1]) == w]
                    ok = ok and any(same(x) for x, _ in chain(e[3][l.key], J, mm, None))
        if ok and n:
            orders.append(l)
    if not orders:      # the table that decides where the searches start
        orders = [l for l in nums if start_value(oI, ores, omade, l) is not None and all(
            any(z.op == 'sel' and z.args[0] is x and P(z.args[1]) == P(e[2][ui]) for x, _ in chain(e[3][l.key], oI, omade, None) for y in s.facts.lits for z in atoms_deep(y))
            for s, i, b in paths(oI, ores) for e in recs(s))]
    if len(orders) != 1:
        raise Unknown('numbers of the vertices')
    O = orders[0]
    Lo = [l for l in nums if l is not O][0]
    c = start_value(oI, ores, omade, O)
    def placed(s, stack):
        a, ops = H.anchor(stack)
        pushes = [z for z in ops if z[0] == 'push']
        if a is not first[K.key] or any(z[0] == 'pop' for z in ops) and not pushes:
            o.skip(PLACE, 'stack %s' % show(stack, 4))
        elif len(pushes) == 1:
            o.local(PLACE, 'push', s, eq(P(pushes[0][1]), u), 'vertex %s is put on the stack instead of %s' % (show(pushes[0][1]), show(u)))
        elif not pushes and elsewhere:
            o.skip(PLACE, 'the vertex is put on the stack elsewhere')
        else:
            o.wrong(PLACE, 'push', s, 'the vertex is put on the stack %d times' % len(pushes))

    # ---- entering a vertex
    def enter(kid):
        s, ends = kid.entry, {k: kid.phis[p] for k, ps in H.fam.items() for p in ps if p in kid.phis}
        end = lambda l: ends.get(l.key, first[l.key])
        if K.key in ends or ends == {}:
            placed(s, end(K))
        else:
            o.skip(PLACE, 'the stack is the same before and after every edge')
        fl = at(I, end(F), u, s, lambda v: unmarked(I, v, TRUE, s))
        if s.facts.entails(fl):
            o.ok(PLACE)
        elif own(I, end(F), u, s) is not None:
            o.local(PLACE, 'flag', s, fl, 'the flag of the vertex becomes %s' % show(own(I, end(F), u, s), 4))
        elif flagged:
            o.skip(PLACE, 'flag of the vertex: %s' % show(end(F), 4))
        else:
            o.wrong(PLACE, 'flag', s, 'the vertex is not flagged as being on the stack')
        ov = own(I, end(O), u, s)
        if ov is None:
            o.skip(PLACE, 'number of the vertex: %s' % show(end(O), 4))
        else:
            lv = own(I, end(Lo), u, s)
            if lv is None:
                o.skip(PLACE, 'what the vertex reaches: %s' % show(end(Lo), 4))
            else:
                o.local(PLACE, 'same', s, eq(lv, ov), 'the vertex has number %s and reaches %s' % (show(ov), show(lv)))
            cs = [l for l in counters if first[l.key].atom() in atoms_deep(ov)] if isinstance(ov, Poly) and all(first[l.key].atom() for l in counters) else []
            if len(cs) != 1:
                o.skip(PLACE, 'numbering by %s' % show(ov))
            else:
                ck = cs[0].key
                p0 = P(first[ck])
                ps = [p for p in kid.phis for s2, b in kid.backs for e in recs(s2) if isinstance(b.get(p), Poly) and isinstance(e[4][ck], Poly) and b[p] == e[4][ck]]
                p1 = P(kid.phis[ps[0]]) if ps else p0
                o.local(PLACE, 'next', s, b_or(b_and(ge(ov, p0), ge(p1, ov + 1)), b_and(ge(ov, p0 + 1), ge(p1, ov))), 'the counter goes from %s to %s and the vertex gets %s' % (show(p0), show(p1), show(ov)))
        return ov

    # ---- the edges
    def follow(kid, ov):
        head = {k: p for k, ps in H.fam.items() for p in ps if p in kid.phis}
        if any(l.key not in head for l in (F, O, Lo)):
            raise Unknown('state inside the loop over the edges')
        pF, pO, pL = head[F.key], head[O.key], head[Lo.key]
        vs = {P(e[2][ui]) for s, b in kid.backs for e in recs(s)}
        if len(vs) != 1:
            raise Unknown('%d nested searches per edge' % len(vs))
        v = list(vs)[0]
        va = v.atom()
        if va is None or va.op != 'sel' or va.args[0] is not adj:
            raise Unknown('the edge of a pass: %s' % show(v, 4))
        covered(o, FOLLOW, [s for s, x in res if any(e[0] == 'loop' and e[1].id == kid.id for e in s.events())], kid, P(va.args[1]), P(arr_len(adj)), 'edges of vertex %s are left out' % show(u))
        for s, b in kid.backs:
            if s.unk:
                o.skip(FOLLOW, str(s.unk))
                continue
            r = recs(s)
            extra = (le(I.sel(pL, u, s), I.sel(pO, u, s)), le(I.sel(pL, v, s), I.sel(pO, v, s)), lt(v, N))
            if ov is not None:
                extra += (eq(I.sel(pO, u, s), ov),)
            o.extra = extra
            if not r:
                o.local(FOLLOW, 'follow', s, b_not(at(I, b.get(pO, pO), v, s, lambda x: unmarked(I, x, c, s))), 'the edge to vertex %s is not followed' % show(v))
            elif len(r) > 1:
                o.skip(FOLLOW, 'several nested searches for one edge')
                continue
            end = b.get(pL, pL)
            base, ops = H.anchor(end)
            fb, fo = H.anchor(b.get(pF, pF))
            ob, oo = H.anchor(b.get(pO, pO))
            if fo or oo or any(z[0] != 'store' for z in ops) or any(not s.facts.entails(eq(z[1], u)) for z in ops):
                o.skip(LOW, 'tables after an edge: %s' % show(end, 4))
                continue
            x, lu, lv, onum = (P(I.sel(t, k, s)) for t, k in ((end, u), (base, u), (base, v), (ob, v)))
            on = unmarked(I, I.sel(fb, v, s), TRUE, s)
            least = lambda t: b_and(le(x, lu), le(x, t), b_or(eq(x, lu), eq(x, t)))
            low = least(lv) if r else b_or(least(lv), least(onum))
            o.extra += (le(lu, P(I.sel(ob, u, s))), le(lv, onum), b_or(ge(onum, 0), b_not(on)), ge(lu, 0)) + ((eq(lu, P(I.sel(pL, u, s))),) if r else ())
            for g, want, what in ((on, low, 'is on the stack'), (b_not(on), b_or(eq(x, lu), low) if r else eq(x, lu), 'is not on the stack')):
                s2 = s.copy().assume(g)
                if s2.facts.contradictory():
                    continue
                o.local(LOW, 'low', s2, want, 'vertex %s %s and %s reaches %s' % (show(v), what, show(u), show(x)))
        o.extra = ()

    # ---- the loop over the edges (one per way to enter it)
    kids = [i for i in H.loops if any(recs(s) for s, b in i.backs)]
    if not kids and not any(recs(s) for s, i, b in paths(I, res)):
        for s, x in res:
            o.local(FOLLOW, 'without', s, le(P(arr_len(mk('sel', G, u))), 0), 'no edge of vertex %s is ever followed' % show(u))
        return
    if not kids:
        raise Unknown('no loop with nested searches')
    kid_ids = {i.id for i in kids}
    through = lambda s: [e[1].id for e in s.events() if e[0] == 'loop' and e[1].id in kid_ids]
    if any(recs(s) for s, i, b in paths(I, res) if (i is None or i.id not in kid_ids) and not through(s)):
        raise Unknown('nested searches outside the loop over the edges')
    first = S.first
    adj = mk('sel', G, u)
    elsewhere = any(z[0] == 'push' for s1, e1, k1, i1 in pieces if K.key in e1 and H.anchor(e1[K.key])[0] is not first[K.key] for z in H.anchor(e1[K.key])[1]) or \
        any(x.op == 'push' for s1, i1, b1 in paths(oI, ores) for e in recs(s1) for x in subs(e[3][K.key]))
    flagged = any(z[0] == 'store' and z[2] is not FALSE for s1, e1, k1, i1 in pieces if F.key in e1 and H.anchor(e1[F.key])[0] is not first[F.key] for z in H.anchor(e1[F.key])[1])
    value = None
    for kid in kids:
        ov = enter(kid)
        follow(kid, ov)
        value = ov if len(kids) == 1 else None
    for s, ends, kind, i in pieces:
        if kind != 'pass' and not through(s) and (i is None or i.id not in kid_ids) and K.key in ends and (kind == 'enter' or ends[K.key] is not first[K.key]):
            placed(s, ends[K.key])
    ov = value
    # ---- closing a component
    pops_in = {i.id: i for i in H.loops if any(z[0] == 'pop' for s, b in i.backs for p in H.fam[K.key] if p in i.phis for z in H.anchor(b.get(p, p))[1])}
    for s, x in res:
        if s.unk:
            o.skip(ROOT, str(s.unk))
            continue
        ids = [e[1].id for e in s.events() if e[0] == 'loop']
        if not kid_ids & set(ids):
            o.local(FOLLOW, 'without', s, le(P(arr_len(adj)), 0), 'the edges of vertex %s are not looked at' % show(u))
        inside = [k for k in ids if k in pops_in]
        if len(inside) > 1:
            o.skip(ROOT, 'vertices are taken off the stack by several loops')
            continue
        a, got, new = pieces_of(S.end(s, C), H)
        ka, kops = H.anchor(S.end(s, K))
        net = ka is first[K.key] and not kops and got == [u]
        closed = bool(inside) or net or any(z[0] == 'pop' for z in kops)
        lu, ou = P(I.sel(S.end(s, Lo), u, s)), P(I.sel(S.end(s, O), u, s))
        extra = (le(lu, ou),)
        if ov is not None:
            extra += (eq(ou, ov),)
        o.extra = extra
        s2 = s.copy().assume(*extra)
        if closed:
            o.local(ROOT, 'early', s2, eq(lu, ou), 'a component is closed at %s, which reaches %s' % (show(u), show(lu)))
        else:
            o.local(ROOT, 'open', s2, b_not(eq(lu, ou)), 'no component is closed at %s, which reaches only itself' % show(u))
        o.extra = ()
        if inside:
            pop = pops_in[inside[0]]
            p = [p for p in H.fam[C.key] if p in pop.phis]
            if p:
                new += pieces_of(pop.phis[p[0]], H)[2]
        if closed and new != 1:
            o.wrong(ROOT, 'one', s, '%d components are begun for one that is closed' % new)
        elif not closed and new:
            o.wrong(ROOT, 'none', s, 'a component is begun and nothing is taken off the stack')
        else:
            o.ok(ROOT)
    # ---- every piece: what is taken off the stack joins
    buckets = [p for i in H.loops for p in i.phis if isinstance(p, T) and p not in [x for ps in H.fam.values() for x in ps]
               and is_arr(i.phis[p]) and not any(p in j.phis for j in () )]
    taken = lambda x, s: [P(I.sel(z[1], P(arr_len(z[1])) - 1, s)) for z in H.anchor(x)[1] if z[0] == 'pop']
    # a vertex that has been taken off and is looked at in the next pass
    carry = {}
    for s, ends, kind, i in pieces:
        if kind == 'enter' and K.key in ends:
            t = taken(ends[K.key], s)
            carry[i.id] = [w for w, x in i.phis.items() if isinstance(x, Poly) and x in t]
            if len(carry[i.id]) > 1:
                raise Unknown('vertices carried along')
            o.roots += tuple(carry[i.id])
    cleared = False
    for s, ends, kind, i in pieces:
        if F.key in ends and any(z[0] == 'store' and z[2] is not TRUE for z in H.anchor(ends[F.key])[1]) and not (
                K.key in ends and any(z[0] == 'pop' for z in H.anchor(ends[K.key])[1])):
            cleared = True
    for s, ends, kind, i in pieces:
        if s.unk:
            o.skip(TAKE, str(s.unk))
            continue
        pops, net = [], False
        if K.key in ends:
            a, ops = H.anchor(ends[K.key])
            pops = taken(ends[K.key], s)
            net = a is first[K.key] and not ops
            pops = [P(w) for j in H.loops if a in j.phis for w in carry.get(j.id, ())] + pops
            w = carry.get(i.id, ()) if i is not None else ()
            out = [P(i.phis[x]) for x in w] if kind == 'enter' else [P([b for s2, b in i.backs if s2 is s][0].get(x, x)) for x in w] if kind == 'pass' else []
            for x in out:
                if x not in pops:
                    o.skip(TAKE, 'vertex carried along: %s' % show(x))
                else:
                    pops.remove(x)
        got = []
        if C.key in ends:
            H.other = []
            got += pieces_of(ends[C.key], H)[1]
            for k, n in H.other:
                o.local(TAKE, 'last', s, eq(k, n), 'a vertex joins component %s instead of the one being closed' % show(k))
        if kind == 'pass':
            for p in buckets:
                if p in i.phis:
                    b = [b for s2, b in i.backs if s2 is s][0]
                    y, o2 = H.anchor(b.get(p, p))
                    if y is p and all(z[0] == 'push' for z in o2):
                        got += [P(z[1]) for z in o2]
        if not pops and net and len(got) == 1:
            pops = [u]          # put on the stack and taken off on this path
        if len(pops) != len(got):
            o.wrong(TAKE, 'join', s, '%d vertices are taken off the stack and %d join a component' % (len(pops), len(got)))
            continue
        for p, g in zip(pops, got):
            o.local(TAKE, 'join', s, eq(p, g), 'vertex %s is taken off the stack and %s joins the component' % (show(p, 4), show(g, 4)))
        if not pops:
            continue
        fend = ends.get(F.key)
        if fend is None:
            if cleared:
                o.skip(TAKE, 'flags')
            else:
                o.wrong(TAKE, 'flag', s, 'vertex %s is taken off the stack and keeps its flag' % show(pops[0], 4))
            continue
        for p in pops:
            off = b_not(at(I, fend, p, s, lambda x: unmarked(I, x, TRUE, s)))
            if s.facts.entails(off):
                o.ok(TAKE)
            elif cleared:
                o.skip(TAKE, 'flag of a vertex taken off the stack')
            else:
                o.local(TAKE, 'flag', s, off, 'vertex %s is taken off the stack and keeps its flag' % show(p, 4))
        for z in H.anchor(fend)[1]:
            if z[0] == 'store' and z[2] is FALSE:
                o.local(TAKE, 'other', s, b_or(*[eq(z[1], p) for p in pops]), 'vertex %s loses its flag' % show(z[1], 4))
        # down to u
        last = pops[-1]
        la, ua = last.atom(), u.atom()
        both = [f for f in s.facts.lits if f.op != 'ge0' or True if la in atoms_deep(f) and ua in atoms_deep(f)]
        if kind == 'enter':
            continue
        goal = eq(last, u) if kind == 'return' else b_not(eq(last, u))
        if s.facts.entails(goal):
            o.ok(TAKE)
        elif not both and kind == 'return' and not pops_in and la is not None and la.op == 'sel' and la.args[0].op == 'phi' and len(pops) == 1:
            # one vertex is taken off whatever it is
            was = o.roots
            o.roots += (la.args[0],)
            o.local(TAKE, 'until', s, goal, 'the component closed at %s ends with vertex %s' % (show(u), show(last, 4)))
            o.roots = was
        elif not both or any(x.op == 'phi' and x not in o.roots and x.args[1] != 'it' for f in both for x in atoms_deep(f)):
            o.skip(TAKE, 'the end of a component')
        else:
            o.local(TAKE, 'until', s, goal, 'the component closed at %s %s vertex %s' % (show(u), 'ends with' if kind == 'return' else 'goes on behind', show(last, 4)))
    # ---- every vertex
    tops = [find(oI, i) for i in used_loops([s for s, v in ores])]
    tops = [i for i in tops if any(recs(s) for s, b in i.backs)]
    if len(tops) != 1:
        q.skip(ALLV, '%d loops that start searches' % len(tops))
        return
    top = tops[0]
    ws = {P(e[2][ui]) for s, b in top.backs for e in recs(s)}
    ps = {p for p in top.phis for s, b in top.backs for e in recs(s) if b.get(p) is e[4][O.key]}
    if len(ws) != 1 or len(ps) != 1:
        q.skip(ALLV, 'the vertex of a pass')
        return
    w, p = list(ws)[0], list(ps)[0]
    covered(q, ALLV, [s for s, x in ores], top, w, N, 'vertices are left out')
    for s, b in top.backs:
        if not recs(s):
            q.local(ALLV, 'start', s, b_not(at(oI, b.get(p, p), w, s, lambda x: unmarked(oI, x, c, s))), 'vertex %s is passed over' % show(w))


def own(I, a, u, s):
    """the value written for u"""
    while isinstance(a, T) and a.op == 'store':
        if s.facts.entails(eq(P(a.args[1]), u)):
            return a.args[2] if not isinstance(a.args[2], Poly) else P(a.args[2])
        a = a.args[0]
    return None


def start_value(oI, ores, omade, l):
    """value of every entry when the first search starts"""
    out = set()
    for s, i, b in paths(oI, ores):
        for e in recs(s):
            for x in history(e[3][l.key], oI, omade)[0]:
                if isinstance(x, T) and x.op == 'rep' and plain(x.args[0]):
                    out.add(x.args[0])
                else:
                    return None
    return list(out)[0] if len(out) == 1 else None


def covered(o, rule, outs, i, idx, n, text):
    """index idx of the passes of loop i meets everything below n"""
    k = idx - i.it
    if k.const() is None:
        k = n - 1 - idx - i.it
    if k.const() is None:
        o.skip(rule, 'order of the passes: %s' % show(idx))
        return
    k = k.const()
    for s in outs:
        o.local(rule, 'left-out', s, ge(i.it + k, n) if k <= 0 else le(n, 0), text)


def colours(S, I, res, made, q):
    comps = [l for l in S.L if l.mut and elem(l.ty) and is_list(elem(l.ty)) and elem(elem(l.ty)) == ('int', 'usize')]
    if len(comps) != 1:
        raise Unknown('components')
    C = comps[0]
    loops = [find(I, i) for i in used_loops([s for s, v in res])]
    ps = {p for i in loops for p in i.phis for s, b in i.backs for e in recs(s) if b.get(p) is e[4][C.key]}
    if len(ps) != 1:
        raise Unknown('components after the searches')
    comp = list(ps)[0]
    q.roots += (comp,)
    writes = []
    for i in loops:
        for s, b in i.backs:
            for p, x in b.items():
                w = isinstance(x, T) and isinstance(p, T) and stores(x, p)
                for k, v in w or ():
                    ka = P(k).atom()
                    if ka is not None and ka.op == 'sel' and isinstance(ka.args[0], T) and ka.args[0].op == 'sel' and ka.args[0].args[0] is comp:
                        writes.append((i, s, ka, v))
                        q.local(COLOR, 'index', s, eq(P(v), P(ka.args[0].args[1])), 'the vertices of component %s get the number %s' % (show(ka.args[0].args[1]), show(v)))
    if not writes:
        raise Unknown('numbers of the components')
    for s, x in res:
        if s.unk or not (isinstance(x, T) and x.op == 'agg' and len(x.args) == 4):
            q.skip(COLOR, 'result %s' % show(x, 4))
            continue
        q.local(COLOR, 'count', s, eq(P(x.args[2]), P(mk('len', comp))), 'the number of components is given as %s' % show(x.args[2]))
    ins = {i.id: i for i, s, ka, v in writes}
    if len(ins) != 1:
        q.skip(COLOR, 'several loops')
        return
    inner = list(ins.values())[0]
    ka = writes[0][2]
    row = ka.args[0]
    if len(inner.backs) != len(writes):
        q.skip(COLOR, 'passes without a number')
    outs = [j for j in loops if any(e[0] == 'loop' and e[1].id == inner.id for s, b in j.backs for e in s.events())]
    if len(outs) != 1:
        q.skip(COLOR, 'loops over the components')
        return
    out = outs[0]
    covered(q, COLOR, [s for s, b in out.backs], inner, P(ka.args[1]), P(arr_len(row)), 'vertices of a component get no number')
    covered(q, COLOR, [s for s, x in res], out, P(row.args[1]), P(arr_len(comp)), 'components get no number')


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        g = [x for x in crates[0].fns.values() if x.name == 'scc' and len(x.inputs) == 1]
        if not ctx.need(len(g) == 1, 'scc'):
            return
        tasks.append((g[0].path, run_dfs, crates, g[0]))
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 2, 'searches')
    ctx.assumptions += ['fewer than 2^30 vertices', 'every vertex is entered once (C21)']
