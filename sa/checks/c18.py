"""C18: heavy paths: chains, positions, and the ranges that path and subtree operations address."""
from rec import *
from checks import c21
from checks.c23 import cover, exits

PARENT = 'a child is entered with its parent and its depth recorded'
EVERY = 'every neighbour except the parent is entered, once'
HEAVY = 'the heavy child of a vertex is one of its children'
CHAIN = 'the heavy child continues the chain at the next position, every other child begins a chain'
POS = 'a vertex is placed at the clock when it is entered, the clock moves one step per vertex'
BLOCK = 'the block of a subtree ends where the clock stands when its last vertex is placed'
START = 'the searches start at the root, which is its own parent and head, at position 0, one after the other'
LIFT = 'the end whose chain head is deeper is lifted, over the whole stretch of its chain'
LAST = 'the last range lies on one chain, from the upper end to the lower end'
COMBINE = 'the range products are combined, each once'
SUB = 'subtree operations use the block of the subtree'
ONE = 'single-vertex operations use the position of the vertex'
INIT = 'initial values are placed at the positions of their vertices'

TABS = ('parent', 'dep', 'heavy_child', 'head', 'pos', 'pos_r')


class HLD:
    def __init__(self, crates):
        self.crates = crates
        self.cr = cr = crates[0]
        self.adt = adt = find_adt(cr, 'HLD')
        self.fields = cr.adts[adt]['variants'][0]['fields']
        self.names = [fd['n'] for fd in self.fields]
        for x in TABS + ('data',):
            if x not in self.names:
                raise Unknown('field ' + x)
        self.facts = [ge(N, 1), le(N, MAXN)]
        self.val = {}
        for fd in self.fields:
            t = cr.ty(fd['t'])
            self.val[fd['n']] = mk('carr', fd['n'], N) if c21.is_list(t) else P(sym(fd['n'], 'usize')) if t[0] == 'int' else mk('sym', fd['n'], '?')
            if fd['n'] in TABS and not c21.is_list(t):
                raise Unknown('type of ' + fd['n'])
        self.me = AGG(adt, 0, *[self.val[n] for n in self.names])
        self.seg = find_adt(cr, 'LazySegtree')

    def method(self, n):
        f = method(self.cr, self.adt, n)
        if f is None:
            raise Unknown('no method ' + n)
        return f

    def tree(self, I):
        """the segment tree by the interface it offers"""
        for f in self.cr.fns.values():
            if not f.path.startswith('rust_cp::data_structure::lazy_segtree::') or f.name not in ('apply_range', 'prod', 'get', 'set', 'apply', 'all_prod', 'new', 'from'):
                continue

            def spec(I, fr, s, a, span, dty, m=f.name):
                xs = []
                for x in a:
                    if is_ref(x) and m in ('from', 'new', 'set', 'apply_range', 'apply') and x is not a[0]:
                        try:
                            x = I.rd(s, x.args[0], x.args[1])
                        except Unknown:
                            pass
                    xs.append(x)
                s.event('seg', m, tuple(xs), span)
                if m in ('apply_range', 'set', 'apply'):
                    return [(s, AGG('tuple', 0))]
                return [(s, mk('app', 'LazySegtree::' + m, *xs[0 if m in ('new', 'from') else 1:]))]
            I.spec_fn[f.path] = spec

    def run(self, name, hook=None):
        f = self.method(name)
        I = AI(self.crates, NoResidues())
        self.tree(I)
        if hook:
            hook(I)
        st = State()
        st.assume(*self.facts)
        st.mem[('obj', 'self')] = self.me
        args, out = [], {}
        for nm, t in zip(arg_names(f), f.inputs):
            if nm == 'self':
                args.append(ref(('obj', 'self')))
                continue
            if t[0] == 'int':
                x = P(sym(nm, 'usize'))
                st.assume(ge(x, 0), lt(x, N))
            elif t[0] == 'ref':
                st.mem[('obj', nm)] = mk('carr', nm, N)
                x = ref(('obj', nm))
            else:
                x = mk('sym', nm, '?')
            args.append(x)
            out[nm] = x
        res, _ = call(I, f.path, st, args)
        return f, I, [x for x in res if self.sane(x[0])], out

    def at(self, tab, i):
        return P(mk('sel', self.val[tab], P(i)))

    def sane(self, s, I=None):
        """clocks, depths and sizes stay far below the end of the range of their types"""
        t = s.copy()
        for l in list(t.facts.lits):
            for x in atoms_deep(l):
                if x.op == 'sel' and isinstance(x.args[0], T) and tab_of(I, x.args[0]) in ('dep', 'pos', 'pos_r'):
                    t.assume(le(P(x), MAXN))
                if x.op == 'sym' and str(x.args[0]).endswith('.ret'):
                    t.assume(le(P(x), MAXN))
        return not t.facts.contradictory()

    def searches(self):
        start = self.method('new')
        rs = recursive(self.cr, start.path)
        I0 = AI(self.crates, NoResidues())
        out = {}
        for p in rs:
            fn = self.cr.fns[p]
            L = leaves(I0, fn, arg_names(fn))
            if not any(l.mut and c21.is_list(l.ty) for l in L):
                continue
            S = Search(self.crates, fn)
            ints = [l for l in L if l.mut and l.ty[0] == 'int' and not l.name.startswith('data.')]
            lens = {n: N for n in TABS}
            lens.update({l.name: N for l in L if l.name == 'g' or not l.mut and c21.is_list(l.ty)})
            I, res = S.run(lens, self.facts + [le(P(sym(l.name, l.ty[1])), MAXN) for l in ints])
            res = [x for x in res if self.sane(x[0], I)]
            for q in I.loops_done:
                q.backs = [x for x in q.backs if self.sane(x[0], I)]
            ch = {l.name for l in L if any(l.key not in S.kept[k] for k in S.kept)}
            role = 'place' if 'pos' in ch else 'measure' if 'parent' in ch else None
            if role is None or role in out:
                raise Unknown('searches %s' % rs)
            out[role] = (S, I, res)
        if set(out) != {'place', 'measure'}:
            raise Unknown('searches: %s' % sorted(out))
        return out


def tab_of(I, a, made=None):
    """which table an array is a later state of, with the indices written since"""
    for _ in range(30):
        if a.op == 'carr':
            n = str(a.args[0]).split('.')[-1]
            return n
        if a.op == 'store':
            a = a.args[0]
            continue
        if I is None:
            return None
        q = [q.phis[a] for q in I.loops_done if a in q.phis]
        if not q or not isinstance(q[0], T):
            return None
        a = q[0]
    return None


class Dfs:
    """what the two searches have in common"""
    def __init__(self, H, o, S, I, res):
        self.H, self.o, self.S, self.I, self.res = H, o, S, I, res
        self.made = calls_made(I, res)
        o.live = {q.id for q in used_loops([s for s, v in res])}
        self.ps = paths(I, res)
        self.loops = [find(I, q) for q in used_loops([s for s, v in res])]
        self.L = {n: S.leaf(n) for n in TABS}
        if any(x is None for x in self.L.values()):
            raise Unknown('the search does not see the tables')
        roots = set()
        for q in self.loops:
            roots |= set(q.phis)
        roots |= set(self.made) | {S.first[l.key] for l in S.L if isinstance(S.first[l.key], T)}
        for s, i, b in self.ps:
            for e in recs(s):
                for x in e[4].values():
                    roots |= {x} if isinstance(x, T) else set(atoms_deep(x))
        o.roots = tuple(roots)
        o.rows += [('an', 'paths', len(self.ps)), ('an', 'call sites', len({e[6] for s, i, b in self.ps for e in recs(s)}))]
        self.ints = {k: P(a) for k, a in enumerate(S.args) if isinstance(a, Poly)}
        self.graphs = [S.first[l.key] for l in S.L if c21.is_list(l.ty) and l.name not in TABS and not l.name.startswith('data.')]
        # the vertex: whose row of the graph is read
        us = set()
        for s, i, b in self.ps:
            xs = list(s.facts.lits) + [ge0(P(x)) for e in recs(s) for x in e[2] if isinstance(x, Poly)]
            for l in xs:
                for x in atoms_deep(l):
                    if x.op == 'sel' and x.args[0] in self.graphs:
                        us |= {k for k, a in self.ints.items() if P(x.args[1]) == a}
                    if x.op == 'len' and isinstance(x.args[0], T) and x.args[0].op == 'sel' and x.args[0].args[0] in self.graphs:
                        us |= {k for k, a in self.ints.items() if P(x.args[0].args[1]) == a}
        if len(us) != 1:
            raise Unknown('vertex argument')
        self.ui = us.pop()
        self.u = self.ints[self.ui]

    def first(self, tab):
        return self.S.first[self.L[tab].key]

    def settle(self, s, *tabs):
        """entries of the vertex itself do not change while its children are searched"""
        t = s.copy()
        for l in list(t.facts.lits):
            for x in atoms_deep(l):
                if x.op == 'sel' and isinstance(x.args[0], T) and x.args[0] is not None and P(x.args[1]) == self.u:
                    n = tab_of(self.I, x.args[0])
                    if n in tabs and x.args[0] is not self.first(n) and self.steady(n):
                        t.assume(eq(P(x), P(mk('sel', self.first(n), self.u))))
        return t

    def writes(self, tab):
        l = self.L[tab]
        out = {}
        for s, v in self.res:
            st, ws = history(self.S.end(s, l), self.I, self.made)
            if any(x is not self.S.first[l.key] for x in st):
                return None
            for i, x in ws:
                out[(i, x)] = 1
        return list(out)

    def entered(self):
        return {P(e[2][self.ui]) for s, i, b in self.ps for e in recs(s)}

    def steady(self, tab):
        w = self.writes(tab)
        return w is not None and {i for i, x in w} <= self.entered()

    def told(self):
        ks = set()
        for s, i, b in self.ps:
            for e in recs(s):
                ks |= {k for k in self.ints if k != self.ui and P(e[2][k]) == self.u}
        return ks.pop() if len(ks) == 1 else None

    def row_loops(self):
        """loops that enter neighbours: (loop, element, position of the element, row)"""
        out = []
        for q in self.loops:
            if not any(recs(s) for s, b in q.backs):
                continue
            elems = {P(e[2][self.ui]) for s, b in q.backs for e in recs(s)}
            a = elems.pop().atom() if len(elems) == 1 else None
            if a is None or a.op != 'sel' or not (isinstance(a.args[0], T) and a.args[0].op == 'sel' and a.args[0].args[0] in self.graphs):
                self.o.skip(EVERY, 'which vertices are entered')
                continue
            self.o.local(EVERY, 'list', q.backs[0][0], eq(P(a.args[0].args[1]), self.u), 'the neighbours of %s are entered' % show(P(a.args[0].args[1])))
            out.append((q, P(a), P(a.args[1]), a.args[0]))
        return out


def run_measure(crates, f):
    H = HLD(crates)
    S, I, res = H.searches()['measure']
    o = Rules(S.fn, S.fn.name)
    D = Dfs(H, o, S, I, res)
    u, ui = D.u, D.ui
    pi = D.told()
    p = D.ints[pi] if pi is not None else P(mk('sel', D.first('parent'), u))
    rows = D.row_loops()
    if not rows:
        o.skip(EVERY, 'no loop over the neighbours')
    ws = D.writes('parent')
    if ws is None:
        o.skip(PARENT, 'how parents are recorded')
    elif pi is not None and any(i == u for i, x in ws):
        for i, x in ws:
            if i == u:
                o.local(PARENT, 'own', res[0][0], eq(P(x), p), 'the parent of %s becomes %s' % (show(u), show(x, 4)))
    else:
        for i, x in ws:
            if i not in D.entered():
                o.skip(PARENT, 'the parent of %s is written' % show(i, 4))
    for s, i, b in D.ps:
        rs = recs(s)
        if rs and i is None:
            o.skip(EVERY, 'a call outside of a loop')
            continue
        if len(rs) > 1:
            o.skip(EVERY, 'several calls in one pass')
            continue
        for e in rs:
            v = P(e[2][ui])
            t = D.settle(s, 'parent', 'dep')
            if pi is not None:
                o.local(PARENT, 'told', t, eq(P(e[2][pi]), u), 'the child %s is told that its parent is %s' % (show(v, 4), show(e[2][pi], 4)))
            else:
                pa = e[3][D.L['parent'].key]
                o.local(PARENT, 'recorded', t, at(I, pa, v, t, lambda x: eq(P(x), u)), 'the parent of %s is not %s when it is entered' % (show(v, 4), show(u)))
            if all(D.L['dep'].key in x for x in S.kept.values()):
                o.wrong(PARENT, 'no-depth', s, 'no depth is recorded')
            else:
                d = e[3][D.L['dep'].key]
                if isinstance(d, T) and d.op == 'store':
                    val = P(d.args[2])
                    own = P(mk('sel', d.args[0], u))
                    if D.steady('dep'):
                        base = P(mk('sel', D.first('dep'), u))
                        val = subst(val, {x: base for x in atoms_deep(val) if x.op == 'sel' and isinstance(x.args[0], T) and P(x.args[1]) == u and tab_of(I, x.args[0]) == 'dep'})
                        own = base
                    o.local(PARENT, 'depth', t, b_and(eq(P(d.args[1]), v), eq(val, own + 1)),
                            'before %s is entered from %s the depth of %s becomes %s' % (show(v, 4), show(u), show(P(d.args[1]), 4), show(d.args[2], 5)))
                else:
                    o.skip(PARENT, 'depth of a child')
    for q, v, k, row in rows:
        for s, b in q.backs:
            t = D.settle(s, 'parent')
            if recs(s):
                o.local(EVERY, 'parent', t, b_not(eq(v, p)), 'the parent itself may be entered')
            else:
                o.local(EVERY, 'left-out', t, eq(v, p), 'the neighbour %s is left out' % show(v, 4))
        cover(o, EVERY, 'neighbours', I, q, k, 0, P(arr_len(row)), exits(I, [s for s, v2 in res], q))
    all_rows(o, D, rows, res)
    # ---- heavy children
    hv = D.L['heavy_child']
    n = 0
    for s, i, b in D.ps:
        if i is None:
            end = S.end(s, hv)
            begins = set(D.made) | {x for q in D.loops for x in q.phis} | {D.first('heavy_child')}
        else:
            ph = [x for x in i.phis if tab_of(I, x) == 'heavy_child']
            if len(ph) != 1:
                continue
            end = b.get(ph[0], ph[0])
            begins = set(D.made) | {x for q in D.loops for x in q.phis}
        while isinstance(end, T) and end not in begins:
            if end.op != 'store':
                o.skip(HEAVY, 'heavy children become %s' % show(end, 4))
                break
            x, val = P(end.args[1]), end.args[2]
            n += 1
            heavy_value(o, D, s, i, x, val)
            end = end.args[0]
    if not n:
        if all(hv.key in x for x in S.kept.values()):
            o.ok(HEAVY)         # every vertex is a chain of its own
        else:
            o.skip(HEAVY, 'no heavy child is recorded')
    return o.rows


def all_rows(o, D, rows, res):
    """a path that does not go through the neighbours has none, or only the parent"""
    u, par = D.u, P(mk('sel', D.first('parent'), D.u))
    if not rows or len(D.graphs) != 1:
        return
    n = P(arr_len(mk('sel', D.graphs[0], u)))
    for s, v in res:
        if not any(exits(D.I, [s], q) for q, v2, k, row in rows):
            t = D.settle(s, 'parent')
            o.local(EVERY, 'not-looked', t, b_or(eq(n, 0), b_and(eq(n, 1), b_not(eq(par, u)))), 'the neighbours of %s are not entered' % show(u))


def leaf_facts(D, t, hv):
    """the heavy child is a neighbour and not the parent"""
    if len(D.graphs) != 1:
        return t
    u, par = D.u, P(mk('sel', D.first('parent'), D.u))
    n = P(arr_len(mk('sel', D.graphs[0], u)))
    t = t.copy()
    some = is_some(D.I, hv, t)
    t.assume(b_or(b_not(some), b_and(ge(n, 1), b_not(eq(P(payload(hv)), par)), b_or(ge(n, 2), eq(par, u)))))
    return t


def heavy_value(o, D, s, i, x, val, seen=()):
    u = D.u
    opt = option(val)
    if opt[0] == 'none':
        o.local(HEAVY, 'of', s, eq(x, u), 'the heavy child of %s is taken away' % show(x, 4))
        return
    if opt[0] == 'some':
        vs = [P(e[2][D.ui]) for e in recs(s)]
        if not vs:
            o.skip(HEAVY, 'the heavy child of %s becomes %s' % (show(x, 4), show(val, 5)))
            return
        o.local(HEAVY, 'child', s, b_and(eq(x, u), b_or(*[eq(P(opt[1]), v) for v in vs])), 'the heavy child of %s becomes %s' % (show(x, 4), show(opt[1], 5)))
        return
    q = [q for q in D.loops if val in q.phis]
    if q and val not in seen:
        heavy_value(o, D, q[0].entry, None, x, q[0].phis[val], seen + (val,))
        for s2, b in q[0].backs:
            y = b.get(val, val)
            if y is not val:
                heavy_value(o, D, s2, q[0], x, y, seen + (val,))
        return
    if val in seen:
        return
    o.skip(HEAVY, 'the heavy child of %s becomes %s' % (show(x, 4), show(val, 5)))


def clock_of(D):
    S = D.S
    tim = [l for l in S.L if l.ty[0] == 'int' and l.mut and any(l.key not in S.kept[k] for k in S.kept)]
    if not tim:
        tim = [l for l in S.L if l.ty[0] == 'int' and l.mut and not l.name.startswith('data.')]
    if len(tim) != 1:
        raise Unknown('clock')
    return tim[0]


def run_place(crates, f):
    H = HLD(crates)
    both = H.searches()
    S, I, res = both['place']
    o = Rules(S.fn, S.fn.name)
    D = Dfs(H, o, S, I, res)
    u, ui = D.u, D.ui
    tl = clock_of(D)
    t0 = P(S.first[tl.key])
    c1 = c2 = None
    for tab in ('parent', 'heavy_child', 'dep'):
        if any(D.L[tab].key not in S.kept[k] for k in S.kept):
            o.skip(CHAIN, '%s changes while vertices are placed' % tab)
            return o.rows
    hv = mk('sel', D.first('heavy_child'), u)
    par = P(mk('sel', D.first('parent'), u))
    hi = None
    for s, v in res:
        for i, x in history(S.end(s, D.L['head']), I, D.made)[1]:
            for k, a in D.ints.items():
                if k != ui and P(x) == a:
                    hi = k
    if hi is None:
        raise Unknown('head argument')
    h = D.ints[hi]
    # ---- times and heads of the vertex itself
    for s, v in res:
        end = P(S.end(s, tl))
        for nm, rule, want, text in (('pos', POS, t0, 'placed'), ('pos_r', BLOCK, end, 'left'), ('head', CHAIN, h, 'entered')):
            b, w = history(S.end(s, D.L[nm]), I, D.made)
            w = list(dict.fromkeys(w))
            if any(x is not D.first(nm) for x in b) or len(w) != 1:
                if not w:
                    o.wrong(rule, nm, s, '%s of %s is not recorded' % (nm, show(u)))
                else:
                    o.skip(rule, '%s is written %d times' % (nm, len(w)))
                continue
            i, x = w[0]
            o.local(rule, nm + '-of', s, eq(i, u), '%s is recorded for %s when %s is %s' % (nm, show(i, 4), show(u), text))
            d = P(x) - want
            if nm == 'head' or d.const() is None:
                o.local(rule, nm, s, eq(d, 0), '%s of %s is recorded as %s, not %s' % (nm, show(u), show(x, 4), show(want, 4)))
            else:
                o.ok(rule)
                k = int(d.const())
                if nm == 'pos':
                    c1 = k if c1 in (None, k) else 'x'
                else:
                    c2 = k if c2 in (None, k) else 'x'
        o.local(POS, 'clock', s, ge(end, t0 + 1), 'the clock stands at %s when %s, placed at %s, is left' % (show(end), show(u), show(t0)))
        rs = recs(s)
        ls = [find(I, e[1]) for e in s.events() if e[0] == 'loop']
        if not rs:
            # nothing below yet: the clock before the neighbours is one further
            t = leaf_facts(D, s, hv)
            o.local(CHAIN, 'no-heavy', t, is_none(I, hv, t), 'the heavy child of %s is not entered' % show(u))
        for n, e in enumerate(rs):
            if n:
                o.skip(CHAIN, 'several calls outside of loops')
                break
            v = P(e[2][ui])
            t = s.copy()
            o.local(CHAIN, 'heavy', t, b_and(is_some(I, hv, t), eq(v, P(payload(hv)))), '%s is entered outside of the loop over the neighbours' % show(v, 4))
            o.local(CHAIN, 'same', t, eq(P(e[2][hi]), h), 'the chain goes on to the heavy child with the head %s' % show(e[2][hi], 4))
            o.local(CHAIN, 'next', t, eq(P(e[3][tl.key]), t0 + 1), 'the heavy child is entered at %s, its parent at %s' % (show(P(e[3][tl.key])), show(t0)))
    # ---- the other children
    rows = D.row_loops()
    if not rows:
        o.skip(EVERY, 'no loop over the neighbours')
    for q, v, k, row in rows:
        o.local(POS, 'one-step', q.entry, ge(entry_clock(S, I, q, tl), t0 + 1), 'neighbours are entered at %s, their parent at %s' % (show(entry_clock(S, I, q, tl)), show(t0)))
        for s, b in q.backs:
            some = is_some(I, hv, s)
            goal = b_or(eq(v, par), b_and(some, eq(v, P(payload(hv)))))
            rs = recs(s)
            if not rs:
                o.local(EVERY, 'left-out', s, goal, 'the neighbour %s is not placed' % show(v, 4))
            elif len(rs) > 1:
                o.skip(EVERY, 'several calls in one pass')
            else:
                o.local(EVERY, 'again', s, b_not(goal), 'the parent or the heavy child may be placed again')
                o.local(CHAIN, 'new', s, eq(P(rs[0][2][hi]), v), 'the chain of %s begins at %s' % (show(v, 4), show(rs[0][2][hi], 4)))
        cover(o, EVERY, 'neighbours', I, q, k, 0, P(arr_len(row)), exits(I, [s for s, v2 in res], q))
    all_rows(o, D, rows, res)
    for s, i, b in D.ps:
        for e in recs(s):
            c = P(e[3][tl.key])
            ok_ = [t0 + 1] + [P(e2[4][tl.key]) for s2, i2, b2 in D.ps for e2 in recs(s2)]
            if not any(c == x for x in ok_) and not any(P(x) == c for q in D.loops for x in q.phis if isinstance(q.phis[x], (Poly,))):
                o.local(POS, 'gap', s, eq(c, t0 + 1), 'a child is entered at %s' % show(c))
            else:
                o.ok(POS)
    start(o, H, both, D, tl, hi, c1)
    o.f, o.nm = S.fn, S.fn.name
    if isinstance(c1, int) and isinstance(c2, int):
        blocks(o, H, c1, c2)
    else:
        o.skip(SUB, 'clock offsets %s, %s' % (c1, c2))
    return o.rows


def entry_clock(S, I, q, tl):
    s = q.entry
    return P(I.rd(s, S.args[tl.arg].args[0], S.args[tl.arg].args[1] + tl.path))


def start(o, H, both, D, tl, hi, c1):
    """the function that starts both searches"""
    S1, I1, res1 = both['measure']
    S2 = D.S
    o1 = Rules(S1.fn, S1.fn.name)
    D1 = Dfs(H, o1, S1, I1, res1)
    f = H.method('new')
    I = AI(H.crates, NoResidues())
    H.tree(I)
    n = [0]
    for S, role in ((S1, 'measure'), (S2, 'place')):
        def spec(I, fr, s, a, span, dty, S=S, role=role):
            n[0] += 1
            before = {l.key: I.rd(s, a[l.arg].args[0], a[l.arg].args[1] + l.path) for l in S.L}
            out = []
            for s2, ret, after in S.contract(I, s, a, before, S.L, 'o%d' % n[0]):
                s2.event('rec', role, tuple(a), before, after, ret, span)
                out.append((s2, ret))
            return out
        I.spec_fn[S.fn.path] = spec
    st = State()
    st.assume(*H.facts)
    args, rt = [], None
    for nm, t in zip(arg_names(f), f.inputs):
        if t[0] == 'ref':
            st.mem[('obj', nm)] = mk('carr', 'g', N)
            args.append(ref(('obj', nm)))
        else:
            rt = P(sym(nm, 'usize'))
            st.assume(ge(rt, 0), lt(rt, N))
            args.append(rt)
    res, _ = call(I, f.path, st, args)
    o.f, o.nm = f, f.name
    o.live = {q.id for q in used_loops([s for s, v in res])}
    roots = {x for q in used_loops([s for s, v in res]) for x in find(I, q).phis}
    for s, v in res:
        for e in recs(s):
            for x in list(e[3].values()) + list(e[4].values()):
                roots |= {x} if isinstance(x, T) else set(atoms_deep(x))
    o.roots = tuple(roots)
    if not res:
        o.skip(START, 'no path')
    pi = D1.told()
    for s, v in res:
        rs = recs(s)
        if any(recs(s2) for q in used_loops([s]) for s2, b in find(I, q).backs):
            o.skip(START, 'searches in a loop')
            continue
        kinds = [e[1] for e in rs]
        if kinds != ['measure', 'place']:
            if kinds in (['place'], ['measure'], [], ['place', 'measure']):
                o.wrong(START, 'searches', s, 'searches: %s' % (', '.join(kinds) or 'none'))
            else:
                o.skip(START, 'searches: %s' % kinds)
            continue
        m, p = rs
        o.local(START, 'root', s, eq(P(m[2][D1.ui]), rt), 'the first search starts at %s' % show(m[2][D1.ui]))
        if pi is not None:
            o.local(START, 'parent', s, b_or(eq(P(m[2][pi]), rt), ge(P(m[2][pi]), N)), 'the parent of the root is %s' % show(m[2][pi]))
        else:
            o.local(START, 'parent', s, at(I, m[3][D1.L['parent'].key], rt, s, lambda x: b_or(eq(P(x), rt), ge(P(x), N))), 'the parent of the root is not the root itself')
        hv = m[3][D1.L['heavy_child'].key]
        if isinstance(hv, T) and hv.op == 'rep' and option(hv.args[0])[0] == 'none':
            o.ok(HEAVY)
        else:
            o.skip(HEAVY, 'heavy children at the beginning: %s' % show(hv, 4))
        o.local(START, 'root2', s, eq(P(p[2][D.ui]), rt), 'the second search starts at %s' % show(p[2][D.ui]))
        o.local(START, 'head', s, eq(P(p[2][hi]), rt), 'the first chain begins at %s' % show(p[2][hi]))
        if isinstance(c1, int):
            o.local(START, 'zero', s, eq(P(p[3][tl.key]) + c1, 0), 'the root is placed at %s' % show(P(p[3][tl.key]) + c1))
        for t in ('parent', 'heavy_child', 'dep'):
            if p[3][D.L[t].key] is m[4][D1.L[t].key]:
                o.ok(START)
            else:
                o.skip(START, '%s between the searches' % t)
        if not (isinstance(v, T) and v.op == 'agg'):
            o.skip(START, 'returns %s' % show(v, 4))
            continue
        for t in TABS:
            if v.args[2 + H.names.index(t)] is p[4][D.L[t].key]:
                o.ok(START)
            else:
                o.skip(START, '%s after the searches' % t)
        d = v.args[2 + H.names.index('data')]
        if isinstance(d, T) and d.op == 'app' and d.args[0] == 'LazySegtree::new':
            o.local(START, 'room', s, eq(P(d.args[1]), N), 'the segment tree has room for %s values' % show(d.args[1], 4))
        else:
            o.skip(START, 'segment tree %s' % show(d, 4))


# ------------------------------------------------------------------ queries
def segs(s):
    return [e for e in s.events() if e[0] == 'seg']


def blocks(o, H, c1, c2):
    """pos = clock + c1 and pos_r = clock + c2: the block is [pos, pos_r - c2 + c1)"""
    for name, op in (('apply_subtree', 'apply_range'), ('subtree_prod', 'prod')):
        f, I, res, a = H.run(name)
        o.f, o.nm = f, name
        o.live = set()
        u = [x for x in a.values() if isinstance(x, Poly)]
        if len(u) != 1:
            o.skip(SUB, 'arguments of ' + name)
            continue
        u = u[0]
        for s, v in res:
            es = segs(s)
            if len(es) != 1 or es[0][1] != op:
                o.skip(SUB, '%s: %s' % (name, ', '.join(e[1] for e in es))) if es else o.wrong(SUB, name + '-nothing', s, 'nothing is addressed')
                continue
            l, r = P(es[0][2][1]), P(es[0][2][2])
            # a leaf has a block of its own
            hv = mk('sel', H.val['heavy_child'], u)
            s = s.copy()
            s.assume(b_or(is_some(I, hv, s), eq(H.at('pos_r', u) - c2, H.at('pos', u) - c1 + 1)))
            o.local(SUB, name, s, b_and(eq(l, H.at('pos', u)), eq(r, H.at('pos_r', u) - c2 + c1)), '%s uses the range from %s to %s' % (name, show(l, 5), show(r, 5)))
            passed(o, SUB, name, s, v, es[0], a)


def passed(o, rule, name, s, v, e, a):
    """the map is handed on, the product is returned"""
    if e[1] == 'apply_range' or e[1] == 'set' or e[1] == 'apply':
        given = [x for x in a.values() if isinstance(x, T) and x.op == 'sym']
        x = e[2][-1]
        if given and (x is given[0]):
            o.ok(rule)
        else:
            o.skip(rule, '%s hands on %s' % (name, show(x, 4)))
    else:
        want = mk('app', 'LazySegtree::' + e[1], *e[2][1:])
        (o.ok(rule) if v is want else o.skip(rule, '%s returns %s' % (name, show(v, 5))))


def run_single(crates, f):
    H = HLD(crates)
    o = Rules(H.method('get'), 'get')
    for name, op in (('get', 'get'), ('set', 'set')):
        f, I, res, a = H.run(name)
        o.f, o.nm = f, name
        o.live = set()
        u = [x for x in a.values() if isinstance(x, Poly)][0]
        for s, v in res:
            es = segs(s)
            if len(es) != 1 or es[0][1] != op:
                k = {'get': 'prod', 'set': None}[op]
                if len(es) == 1 and es[0][1] == k:
                    o.local(ONE, name, s, b_and(eq(P(es[0][2][1]), H.at('pos', u)), eq(P(es[0][2][2]), H.at('pos', u) + 1)), '%s of %s uses the range from %s' % (name, show(u), show(es[0][2][1], 5)))
                elif es:
                    o.skip(ONE, '%s: %s' % (name, ', '.join(e[1] for e in es)))
                else:
                    o.wrong(ONE, name + '-nothing', s, 'nothing is addressed')
                continue
            o.local(ONE, name, s, eq(P(es[0][2][1]), H.at('pos', u)), '%s of %s uses the position %s' % (name, show(u), show(es[0][2][1], 5)))
            passed(o, ONE, name, s, v, es[0], a)
    return o.rows


def run_path(crates, name):
    H = HLD(crates)
    f, I, res, a = H.run(name)
    op = 'prod' if name == 'path_prod' else 'apply_range'
    o = Rules(f, name)
    loops = [find(I, q) for q in used_loops([s for s, v in res])]
    o.live = {q.id for q in loops}
    o.roots = tuple(p for q in loops for p in q.phis)
    for q in loops:
        q.backs = [x for x in q.backs if H.sane(x[0])]
    u, v = [x for x in a.values() if isinstance(x, Poly)][:2]
    o.rows += [('an', 'paths', len(res) + sum(len(q.backs) for q in loops))]
    head, pos, dep, par = (lambda x: H.at('head', x)), (lambda x: H.at('pos', x)), (lambda x: H.at('dep', x)), (lambda x: H.at('parent', x))
    done = set()
    for s, r in res:
        ls = [find(I, e[1]) for e in s.events() if e[0] == 'loop']
        es = segs(s)
        if len(ls) > 1:
            o.skip(LIFT, 'several loops')
            continue
        if not ls:
            x, y = u, v
            start_acc = None
        else:
            q = ls[0]
            ends = [z for z in q.phis if isinstance(q.phis[z], Poly) and z is not q.it_atom and not (z.args[1:] == ('it', 'nat'))]
            ends = [z for z in ends if q.phis[z] == u or q.phis[z] == v]
            if len(ends) != 2 or {show(q.phis[z]) for z in ends} != {show(u), show(v)}:
                # an end that never moves stays an argument
                o.skip(LIFT, 'the ends of the walk')
                continue
            x, y = (P(z) for z in ends)
            if q.id not in done:
                done.add(q.id)
                walk_passes(o, H, I, q, ends, op, name, a)
        # ---- the last range
        k = [i for i, e in enumerate(s.events()) if e[0] == 'loop']
        if len(es) != 1 or es[0][1] != op:
            if not es:
                o.wrong(LAST, 'nothing', s, 'the last range is left out')
            else:
                o.skip(LAST, 'after the walk: %s' % ', '.join(e[1] for e in es))
            continue
        if ls and [e[0] for e in s.events() if e[0] in ('loop', 'seg')][0] != 'loop':
            o.skip(LAST, 'a range before the walk')
            continue
        t = s.copy()
        same = eq(head(x), head(y))
        # positions and depths along a chain move together
        t.assume(b_or(b_not(same), eq(pos(x) - pos(y), dep(x) - dep(y))))
        l, r2 = P(es[0][2][1]), P(es[0][2][2])
        o.local(LAST, 'chain', t, same, 'the last range is used for the ends %s and %s, which may lie on different chains' % (show(x), show(y)))
        o.local(LAST, 'range', t, b_or(b_and(eq(l, pos(x)), eq(r2, pos(y) + 1), le(pos(x), pos(y))), b_and(eq(l, pos(y)), eq(r2, pos(x) + 1), le(pos(y), pos(x)))),
                'the last range goes from %s to %s' % (show(l, 5), show(r2, 5)))
        if op == 'prod':
            acc = accs(loops) if ls else []
            one = mk('app', 'LazySegtree::prod', *es[0][2][1:])
            combined(o, s, r, acc, one, 'returned is', first=not ls)
        else:
            passed(o, LAST, name, s, r, es[0], a)
    if loops and op == 'prod':
        q = loops[0]
        for z in accs(loops):
            x = q.phis[z]
            if isinstance(x, T) and x.op == 'app' and 'identity' in str(x.args[0]) and 'map' not in str(x.args[0]):
                o.ok(COMBINE)
            else:
                o.skip(COMBINE, 'begins with %s' % show(x, 4))
    return o.rows


def accs(loops):
    return [z for q in loops for z in q.phis if isinstance(q.phis[z], T)]


def combined(o, s, r, acc, one, text, first=False):
    """r is the accumulated value combined with the product of this range"""
    if isinstance(r, T) and r.op == 'app' and str(r.args[0]).endswith('binary_operation'):
        xs = list(r.args[2:])
        if len(xs) == 2 and one in xs:
            z = xs[1 - xs.index(one)]
            if z in acc or first and isinstance(z, T) and z.op == 'app' and 'identity' in str(z.args[0]):
                o.ok(COMBINE)
                return
            if z is one:
                o.wrong(COMBINE, 'twice', s, '%s %s' % (text, show(r, 6)))
                return
        if len(xs) == 2 and one not in xs and all(x in acc for x in xs):
            o.wrong(COMBINE, 'own', s, '%s %s' % (text, show(r, 6)))
            return
        o.skip(COMBINE, '%s %s' % (text, show(r, 6)))
    elif r in acc and not first:
        o.wrong(COMBINE, 'lost', s, '%s %s: the product of the range is dropped' % (text, show(r, 5)))
    elif r is one and acc:
        o.wrong(COMBINE, 'only', s, '%s %s: what was accumulated is dropped' % (text, show(r, 5)))
    elif r is one:
        o.ok(COMBINE)
    else:
        o.skip(COMBINE, '%s %s' % (text, show(r, 5)))


def walk_passes(o, H, I, q, ends, op, name, a):
    head, pos, dep, par = (lambda x: H.at('head', x)), (lambda x: H.at('pos', x)), (lambda x: H.at('dep', x)), (lambda x: H.at('parent', x))
    x, y = (P(z) for z in ends)
    acc = accs([q])
    for s, b in q.backs:
        nx, ny = (P(b.get(z, P(z))) for z in ends)
        es = segs(s)
        if len(es) != 1 or es[0][1] != op:
            if not es:
                o.wrong(LIFT, 'nothing', s, 'an end is lifted without its stretch')
            else:
                o.skip(LIFT, 'a pass addresses %s' % ', '.join(e[1] for e in es))
            continue
        l, r = P(es[0][2][1]), P(es[0][2][2])
        goal = FALSE
        for p_, o_ in ((x, y), (y, x)):
            to = par(head(p_))
            new = b_or(b_and(eq(nx, to), eq(ny, o_)), b_and(eq(ny, to), eq(nx, o_)))
            deeper = b_or(ge(dep(head(p_)), dep(head(o_))), lt(pos(head(o_)), pos(head(p_))))
            goal = b_or(goal, b_and(deeper, eq(l, pos(head(p_))), eq(r, pos(p_) + 1), new))
        o.local(LIFT, 'pass', s, b_and(b_not(eq(head(x), head(y))), goal), 'from %s and %s the walk goes to %s and %s with the range from %s to %s' % (show(x), show(y), show(nx, 6), show(ny, 6), show(l, 6), show(r, 6)))
        if op == 'prod':
            z = [z for z in acc if b.get(z, z) is not z]
            if len(acc) == 1:
                combined(o, s, b.get(acc[0], acc[0]), acc, mk('app', 'LazySegtree::prod', *es[0][2][1:]), 'accumulated is')
            else:
                if acc:
                    o.skip(COMBINE, '%d accumulators' % len(acc))
                else:
                    o.wrong(COMBINE, 'none', s, 'the product of the range is dropped')
        else:
            passed(o, LIFT, name, s, None, es[0], a)


def run_init(crates, f):
    H = HLD(crates)
    new = H.method('new')

    def hook(I):
        def spec(I, fr, s, a, span, dty):
            g = a[0]
            s.event('new', g, a[1], span)
            return [(s, H.me)]
        I.spec_fn[new.path] = spec
    f, I, res, a = H.run('with_init_value', hook)
    o = Rules(f, f.name)
    loops = [find(I, q) for q in used_loops([s for s, v in res])]
    o.live = {q.id for q in loops}
    o.roots = tuple(p for q in loops for p in q.phis)
    o.rows += [('an', 'paths', len(res))]
    rt = [x for x in a.values() if isinstance(x, Poly)][0]
    vals = mk('carr', 'v', N)
    names = arg_names(f)
    lists = [x for x in names if is_ref(a.get(x))]
    vals = mk('carr', lists[-1], N)
    for s, v in res:
        ns = [e for e in s.events() if e[0] == 'new']
        if len(ns) != 1:
            o.skip(INIT, 'built %d times' % len(ns))
            continue
        if is_ref(ns[0][1]) and ns[0][1].args[0] == ('obj', lists[0]):
            o.ok(INIT)
        else:
            o.skip(INIT, 'built from %s' % show(ns[0][1], 4))
        o.local(INIT, 'root', s, eq(P(ns[0][2]), rt), 'the tree is rooted at %s' % show(ns[0][2]))
        if not (isinstance(v, T) and v.op == 'agg'):
            o.skip(INIT, 'returns %s' % show(v, 4))
            continue
        for n in H.names:
            if n != 'data':
                (o.ok(INIT) if v.args[2 + H.names.index(n)] is H.val[n] else o.skip(INIT, 'what becomes of ' + n))
        d = v.args[2 + H.names.index('data')]
        if d is H.val['data']:
            if not segs(s):
                o.wrong(INIT, 'nothing', s, 'the initial values are not used')
            else:
                o.skip(INIT, 'the values are set one by one')
            continue
        if not (isinstance(d, T) and d.op == 'app' and d.args[0] == 'LazySegtree::from'):
            o.skip(INIT, 'the segment tree becomes %s' % show(d, 4))
            continue
        arr = d.args[1]
        if arr is vals:
            o.wrong(INIT, 'by-vertex', s, 'the values are taken in the order of the vertices')
            continue
        q = [q for q in loops if arr in q.phis]
        if isinstance(arr, T) and arr.op == 'fillr' and any(x.op == 'sel' and x.args[0] is vals and any(z.op == 'sel' and z.args[0] is H.val['pos'] for z in atoms_deep(P(x.args[1]))) for y in arr.args for x in atoms_deep(y)):
            # positions are read as vertices
            o.wrong(INIT, 'inverse', s, 'position i gets the value of vertex pos[i]')
            continue
        if not q:
            o.skip(INIT, 'values %s' % show(arr, 4))
            continue
        q = q[0]
        try:
            o.local(INIT, 'length', s, eq(P(arr_len(q.phis[arr])), N), 'there are %s values' % show(P(arr_len(q.phis[arr]))))
        except Unknown:
            o.skip(INIT, 'length of the values')
        idx = None
        for s2, b in q.backs:
            w = stores(b.get(arr, arr), arr)
            if w is None or len(w) > 1:
                o.skip(INIT, 'values become %s' % show(b.get(arr), 5))
                idx = False
                continue
            if not w:
                o.wrong(INIT, 'left-out', s2, 'a pass places no value')
                continue
            i, x = w[0]
            x = x.atom() if isinstance(x, Poly) else x
            j = P(x.args[1]) if isinstance(x, T) and x.op == 'sel' and x.args[0] is vals else None
            if j is None:
                if isinstance(x, T) and x.op == 'sel' and isinstance(x.args[0], T) and x.args[0] in q.phis:
                    o.wrong(INIT, 'moved', s2, 'value %s is taken from the list that is being rearranged' % show(x, 5))
                else:
                    o.skip(INIT, 'placed is %s' % show(x, 5))
                idx = False
                continue
            o.local(INIT, 'place', s2, eq(i, H.at('pos', j)), 'the value of %s is placed at %s' % (show(j), show(i, 5)))
            idx = j if idx in (None, j) else False
        if idx:
            cover(o, INIT, 'vertices', I, q, idx, 0, N, exits(I, [s], q))
    return o.rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        if not ctx.need(find_adt(crates[0], 'HLD'), 'HLD'):
            return
        for g, n in ((run_measure, 'new'), (run_place, 'new'), (run_path, 'apply_path'), (run_path, 'path_prod'), (run_single, 'get'), (run_init, 'with_init_value')):
            tasks.append(('%s %s/%s' % (g.__name__, n, cfg), g, crates, n))
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 12, 'functions')
    ctx.assumptions += ['the graph is a tree: connected, without loops and parallel edges', 'a nested search obeys the same rules', 'the segment tree does what C12 and C13 state', 'at most 2^30 vertices']
