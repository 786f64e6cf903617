"""C11: union-find.  find climbs to the root and changes nothing but shortcuts; everything else goes through it."""
from rec import *
from checks import c21

ROOT = 'find returns the root of the tree its argument is in'
SHORT = 'find changes a parent to something further up the same tree only'
FRESH = 'at the start every element is the root of a tree of size one'
LINK = 'a union makes one of the two roots a child of the other'
SIZE = 'the new root gets the sum of the two sizes'
TELL = 'a union reports whether the sets were different'
SAME = 'two elements are in the same set when their roots are equal'
READ = 'the size of a set is the one kept at its root'
FILE = 'every element is put into the group of its root, once'
PICK = 'the groups returned are those that have elements'
ASK = 'only elements are asked about'
OTHER = 'nothing else changes parents or sizes'

REP = 'root'


def setup(crates):
    """type, fields {fa, sz}, shape"""
    cr = crates[0]
    adt = find_adt(cr, 'UnionFind')
    ct = method(cr, adt, 'new')
    st = State()
    facts = [ge(N, 0), le(N, MAXN)]
    st.assume(*facts)
    I = AI(crates, NoResidues())
    res, _ = call(I, ct.path, st, [N])
    if len(res) != 1:
        raise Unknown('constructor')
    s, v = res[0]
    fields = cr.adts[adt]['variants'][0]['fields']
    role, vals = {}, []
    k = P(sym('k', 'usize'))
    s = s.copy().assume(ge(k, 0), lt(k, N))
    for n, (fd, x) in enumerate(zip(fields, v.args[2:])):
        if isinstance(x, T) and is_arr(x):
            try:
                y = I.sel(x, k, s)
            except Split:
                y = None
            r = None
            if isinstance(y, Poly) and y.const() is None:
                r = 'fa'
            elif isinstance(y, Poly):
                r = 'sz'
            if r is None or r in role:
                raise Unknown('tables of the union-find')
            role[r] = n
            vals.append(mk('carr', fd['n'], N))
        else:
            vals.append(x)
    if set(role) != {'fa', 'sz'}:
        raise Unknown('tables of the union-find')
    return cr, adt, ct, facts, role, AGG(adt, 0, *vals), (I, s, v)


# ------------------------------------------------------------------ find
def analyse_find(crates, o):
    """rows about find; True when a call leaves its argument directly below the root"""
    cr, adt, ct, facts, role, me, _ = setup(crates)
    f = method(cr, adt, 'find')
    S = Search(crates, f)
    if len(f.inputs) != 2 or f.inputs[0][0] != 'ref':
        raise Unknown('find takes %s' % (f.inputs,))
    fields = cr.adts[adt]['variants'][0]['fields']
    names = {fields[n]['n']: r for r, n in role.items()}
    i = P(sym(arg_names(f)[1], 'usize'))
    lens = {nm: N for nm in names}
    I, res = S.run(lens, facts + [ge(i, 0), lt(i, N)])
    lf = {names[l.name]: l for l in S.L if l.name in names}
    for l in S.L:
        if l.key != lf['fa'].key:
            if any(l.key not in S.kept[k] for k in S.kept):
                o.skip(SHORT, 'find changes %s' % l.name)
            else:
                o.ok(SHORT)
    T0 = S.first[lf['fa'].key]
    made = calls_made(I, res)
    fam = {T0}
    for x in c19_family(I, T0, made):
        fam.add(x)
    o.live = {q.id for q in used_loops([s for s, v in res])}
    ps = paths(I, res)
    key = lf['fa'].key
    # tables after nested searches belong to the family too
    fam |= {x for x in made if made[x] in fam}
    cand = {}
    for q in used_loops([s for s, v in res]):
        q = find(I, q)
        for p, x in q.phis.items():
            if isinstance(x, Poly):
                cand[p] = (q, x)
    roots = set(fam)
    for q in used_loops([s for s, v in res]):
        roots |= set(find(I, q).phis)
    o.roots = tuple(x for x in roots if isinstance(x, T))

    def base(t):
        w = []
        while isinstance(t, T) and t.op == 'store' and t not in fam:
            w.append((t.args[0], P(t.args[1]), t.args[2]))
            t = t.args[0]
        return (t if t in fam else None), w[::-1]

    def up(B, x, n=1):
        x = P(x)
        for _ in range(n):
            x = P(mk('sel', B, x))
        return x

    def begin(s, q):
        """family table at the beginning of this piece"""
        rs = recs(s)
        t = rs[0][3][key] if rs else S.end(s, lf['fa'])
        return base(t)[0]

    def rooted(s, x):
        return any(s.facts.entails(eq(up(t, x), P(x))) for t in fam if isinstance(t, T))

    def elements(s, q, B, before=()):
        """terms known to be on the way from the argument to its root"""
        out = [i]
        for p, (pq, x) in cand.items():
            if q is not None and pq is q or any(e[0] == 'loop' and find(I, e[1]) is pq for e in s.events()):
                out.append(P(p))
        if q is not None:
            for p, (pq, x) in cand.items():
                if pq is not q and P(p) not in out and any(e[0] == 'loop' and find(I, e[1]) is pq for e in q.entry.events()):
                    out.append(P(p))
        out += [P(e[5]) for e in recs(s)]
        if B is not None:
            out += [up(B, x) for x in list(out)] + [up(B, x, 2) for x in list(out)]
        return out

    # keep the loop variables that stay on the way up
    while True:
        drop = set()
        for p, (q, x) in cand.items():
            els = elements(q.entry, None, base(S_end(S, q.entry, lf['fa']))[0])
            if not q.entry.facts.entails(b_or(*[eq(x, y) for y in els])):
                drop.add(p)
                continue
            for s, b in q.backs:
                B = begin(s, q)
                nb = P(b.get(p, P(p)))
                ok = [P(p)] + ([up(B, P(p)), up(B, P(p), 2)] if B is not None else []) + [P(e[5]) for e in recs(s)]
                if B is None or not s.facts.entails(b_or(*[eq(nb, y) for y in ok])):
                    drop.add(p)
        if not drop:
            break
        for p in drop:
            cand.pop(p)
    o.rows += [('an', 'paths', len(ps))]
    comp = True
    for s, q, b in ps:
        t = s.copy()
        for e in recs(s):
            r = P(e[5])
            t.assume(ge(r, 0), lt(r, N), eq(P(mk('sel', e[4][key], r)), r))
        if t.facts.contradictory():
            continue
        B = begin(s, q)
        if B is None:
            o.skip(SHORT, 'parents: %s' % show(S.end(s, lf['fa']), 5))
            comp = False
            continue
        els = elements(s, q, B)
        tops = [P(e[5]) for e in recs(s)] + [x for x in els if rooted(s, x)] + ([x for x in elements(q.entry, None, None) if rooted(q.entry, x)] if q else [])
        # nested calls
        for n, e in enumerate(recs(s)):
            a = P(e[2][1])
            if base(e[3][key])[1]:
                o.skip(SHORT, 'parents change before a nested call')
            # the cell read after the call is still the parent, or the root
            B1 = base(e[3][key])[0]
            ok = [up(B1, x, k) for x in [y for y in els if y in ([i] + [P(p) for p in cand])] for k in (1, 2)]
            o.local(ROOT, 'nested', t, b_or(*[eq(a, y) for y in ok]), 'goes on at %s, which need not be above %s' % (show(a, 5), show(i)))
            o.local(ROOT, 'endless', t, b_or(*[b_not(eq(up(B1, x), x)) for x in [i]]), 'goes on from a root')
        # shortcuts
        segs = []
        end = S.end(s, lf['fa'])
        cur = end
        bad = False
        pts = [e[4][key] for e in recs(s)][::-1]
        w = []
        x = end
        while isinstance(x, T) and x.op == 'store':
            w.append((x.args[0], P(x.args[1]), x.args[2]))
            x = x.args[0]
        if x not in fam:
            o.skip(SHORT, 'parents become %s' % show(end, 5))
            comp = False
            continue
        for tab, k, v in w[::-1]:
            if not isinstance(v, Poly):
                o.skip(SHORT, 'parent %s' % show(v, 5))
                continue
            low = [y for y in els if y not in tops]
            goals = [eq(v, up(x, k)), eq(v, up(x, k, 2)), eq(v, up(B, k)), eq(v, up(B, k, 2))]
            goals += [b_and(eq(v, r), eq(k, y)) for r in tops for y in els]
            goals += [b_and(eq(v, y), eq(up(B, y), y), eq(k, z)) for y in low for z in low]
            if not t.facts.entails(b_or(*goals)) and any(a.op == 'phi' and a not in cand and a not in fam or a.op == 'carr' and a not in fam for z in (k, v) for a in atoms_deep(z)):
                o.skip(SHORT, 'the parent of %s becomes %s' % (show(k, 5), show(v, 5)))
                continue
            o.local(SHORT, 'shortcut', t, b_or(*goals), 'the parent of %s becomes %s' % (show(k, 5), show(v, 5)))
        if not w:
            o.ok(SHORT)
        if q is not None:
            continue
        # the answer
        if not isinstance(b, Poly):
            o.skip(ROOT, 'returns %s' % show(b, 5))
            continue
        unknown = [a for a in atoms_deep(b) if a.op == 'phi' and a not in cand and a not in fam]
        if unknown:
            o.skip(ROOT, 'returns %s' % show(b, 5))
            continue
        goals = [eq(b, r) for r in tops] + [b_and(eq(b, y), eq(up(B, y), y)) for y in els]
        o.local(ROOT, 'result', t, b_or(*goals), 'returns %s' % show(b, 5))
        try:
            comp = comp and t.facts.entails(eq(P(I.sel(end, i, t)), b))
        except Split:
            comp = False
    return comp


def S_end(S, s, l):
    return S.I.rd(s, S.args[l.arg].args[0], S.args[l.arg].args[1] + l.path)


def c19_family(I, x0, made):
    """loop variables that hold a later state of the table x0"""
    out = {x0}
    grew = True
    while grew:
        grew = False
        for i in I.loops_done:
            for p, v in i.phis.items():
                if p not in out and isinstance(v, T) and is_arr(v):
                    h = v
                    while isinstance(h, T) and h not in out:
                        h = h.args[0] if h.op == 'store' else made.get(h)
                    if h in out:
                        out.add(p)
                        grew = True
    return out


def run_find(crates, f):
    o = Rules(f, f.name)
    analyse_find(crates, o)
    return o.rows


# ------------------------------------------------------------------ the functions that use find
class Uses:
    """a method analysed with find replaced by what is known about it"""
    def __init__(self, crates, name):
        self.cr, self.adt, self.ct, self.facts, self.role, self.me, _ = setup(crates)
        self.f = method(self.cr, self.adt, name)
        if self.f is None:
            raise Unknown('no method ' + name)
        q = Rules(self.f, name)
        try:
            self.comp = analyse_find(crates, q) and not any(r[0] in ('skip', 'bad') for r in q.rows)
        except Unknown:
            self.comp = False
        fd = method(self.cr, self.adt, 'find')
        self.fa, self.sz = self.me.args[2 + self.role['fa']], self.me.args[2 + self.role['sz']]
        I = self.I = AI(crates, NoResidues())
        self.made, self.found, self.asked = {}, {}, []
        n = [0]

        def spec(I, fr, s, a, span, dty):
            s = s.copy()
            n[0] += 1
            rt, pth = a[0].args[0], a[0].args[1] + (('f', self.role['fa']),)
            old = I.rd(s, rt, pth)
            g = self.ghost(old)
            new = mk('carr', 'fa%d' % n[0], N)
            self.made[new] = old
            I.wr(s, rt, pth, new)
            x = P(a[1])
            self.asked.append((s.copy(), x))
            r = P(mk('sel', g, x))
            s.assume(ge(r, 0), lt(r, N), eq(P(mk('sel', g, r)), r), eq(P(mk('sel', new, r)), r))
            if self.comp:
                s.assume(eq(P(mk('sel', new, x)), r))
            for e in s.events():
                # what was found before stays a root, and those directly below it stay there
                if e[0] == 'find' and e[3] is g:
                    s.assume(eq(P(mk('sel', new, e[2])), e[2]))
                    if self.comp:
                        s.assume(eq(P(mk('sel', new, e[1])), e[2]))
            s.event('find', x, r, g)
            return [(s, r)]
        I.spec_fn[fd.path] = spec
        st = State()
        st.assume(*self.facts)
        st.mem[('obj', 'self')] = self.me
        self.xs = []
        args = [ref(('obj', 'self'))]
        for nm, t in list(zip(arg_names(self.f), self.f.inputs))[1:]:
            x = P(sym(nm, t[1]))
            r = self.root(x)
            st.assume(ge(x, 0), lt(x, N), ge(r, 0), lt(r, N), eq(self.root(r), r))
            self.xs.append(x)
            args.append(x)
        self.res, _ = call(I, self.f.path, st, args)
        self.fam = c19_family(I, self.fa, self.made)
        grew = True
        while grew:
            new = {x for x in self.made if self.made[x] in self.fam}
            grew = not new <= self.fam
            self.fam |= new | c19_family_of(I, self.fam | new)
        self.o = Rules(self.f, self.f.name)
        self.o.rows += [('an', 'paths', len(self.res)), ('an', 'call sites', n[0])]
        self.o.live = {q.id for q in used_loops([s for s, v in self.res])}
        roots = set(self.fam)
        for q in used_loops([s for s, v in self.res]):
            roots |= set(find(I, q).phis)
        self.o.roots = tuple(x for x in roots if isinstance(x, T))
        for s, x in self.asked:
            at = atoms_deep(x) | {y for l in s.facts.lits for y in atoms_deep(l)}
            if s.unk or any(y.op == 'phi' and y.args[0] not in self.o.live for y in at):
                continue        # left over from an abandoned round
            if s.facts.entails(lt(x, N)):
                self.o.ok(ASK)
            elif all(y.op == 'sym' or y.op == 'phi' and y.args[1:] == ('it', 'nat') for y in atoms_deep(x)):
                self.o.local(ASK, 'asked', s, lt(x, N), 'the root of %s is asked for' % show(x))
            else:
                self.o.skip(ASK, 'the root of %s' % show(x, 4))

    def ghost(self, t):
        """the roots before (loops are taken to keep them; checked afterwards) or after a parent was written"""
        k = t
        while isinstance(k, T) and k in self.made:
            k = self.made[k]
        if k is self.fa or k.op == 'phi':
            return mk('carr', REP, N)
        return mk('carr', '%s%d' % (REP, k.id), N)

    def root(self, x):
        return P(mk('sel', mk('carr', REP, N), x))

    def local(self, rule, key, s, goal, text):
        # what loops have done to the parents is not followed
        if not s.facts.entails(goal) and any(a.op == 'sel' and a.args[0].op == 'phi' and a.args[0] in self.fam for a in atoms_deep(goal)):
            self.first_pass(rule, key, s, goal, text)
            return
        self.o.local(rule, key, s, goal, text)

    def first_pass(self, rule, key, s, goal, text):
        """in the first pass of a loop the parents are those at its start"""
        q = [find(self.I, x) for x in used_loops([t for t, v in self.res]) if any(p in self.fam and p in atoms_deep(goal) for p in find(self.I, x).phis)]
        if len(q) == 1 and all(x is self.fa for p, x in q[0].phis.items() if p in self.fam) and not s.unk:
            m = dict(q[0].phis)
            if q[0].it_atom is not None:
                m[q[0].it_atom] = P(0)
            t = State()
            t.assume(*[subst(l, m) for l in s.facts.lits], *q[0].entry.facts.lits)
            g = subst(goal, m)
            if not t.facts.contradictory() and not t.facts.entails(g):
                self.o.local(rule, key, t, g, text + ', at once')
                return
        self.o.skip(rule, text)

    def tables(self, s):
        me = s.mem[('obj', 'self')]
        return me.args[2 + self.role['fa']], me.args[2 + self.role['sz']]

    def writes(self, s):
        """writes to parents since the call began, or None"""
        t, _ = self.tables(s)
        out = []
        while isinstance(t, T) and t not in self.fam:
            if t.op != 'store':
                if t in self.made:
                    t = self.made[t]
                    continue
                return None
            out.append((P(t.args[1]), t.args[2]))
            t = t.args[0]
        return out[::-1] if t in self.fam else None

    def quiet(self, key):
        """no path writes parents or sizes itself"""
        o = self.o
        for s, q, b in paths(self.I, self.res):
            w = self.writes(s)
            _, z = self.tables(s)
            if w is None or z is not self.sz and not stores(z, self.sz):
                o.skip(OTHER, 'tables after %s' % self.f.name)
            elif w or z is not self.sz:
                # a shortcut is none of this rule's business
                for k, v in w:
                    o.local(OTHER, key, s, b_or(eq(P(v), self.root(k)), eq(P(v), P(mk('sel', self.fa, k)))), '%s makes %s the parent of %s' % (self.f.name, show(v), show(k)))
                for k, v in stores(z, self.sz) or []:
                    o.local(OTHER, key + '-size', s, eq(P(v), P(mk('sel', self.sz, k))), '%s sets the size of %s to %s' % (self.f.name, show(k), show(v)))
            else:
                o.ok(OTHER)
        for q in used_loops([s for s, v in self.res]):
            for p in find(self.I, q).phis:
                if p in self.fam:
                    for s, b in find(self.I, q).backs:
                        x = b.get(p, p)
                        while x in self.made:
                            x = self.made[x]
                        if x not in self.fam:
                            o.skip(OTHER, 'parents change in a loop')


def c19_family_of(I, known):
    out = set()
    for i in I.loops_done:
        for p, v in i.phis.items():
            h = v
            while isinstance(h, T) and h not in known and h.op == 'store':
                h = h.args[0]
            if isinstance(h, T) and h in known:
                out.add(p)
    return out


def truth(v):
    if isinstance(v, T) and v.op in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'bterm'):
        return v
    return None


def iff(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def run_join(crates, f):
    U = Uses(crates, 'join')
    o = U.o
    x, y = U.xs
    rx, ry = U.root(x), U.root(y)
    same = eq(rx, ry)
    tot = P(mk('sel', U.sz, rx)) + P(mk('sel', U.sz, ry))
    for s, v in U.res:
        if s.unk:
            o.skip(LINK, str(s.unk))
            continue
        # different sets have no more than all elements together
        s = s.copy().assume(b_or(same, le(tot, N)), ge(P(mk('sel', U.sz, rx)), 1), ge(P(mk('sel', U.sz, ry)), 1))
        if not s.facts.entails(same):
            w = s.copy().assume(b_not(same))
            if w.facts.contradictory():
                continue
        b = truth(v)
        if b is None:
            o.skip(TELL, 'returns %s' % show(v))
        else:
            U.local(TELL, 'report', s, iff(b, b_not(same)), 'reports %s' % show(b))
        w = U.writes(s)
        _, z = U.tables(s)
        zs = stores(z, U.sz)
        if w is None or zs is None:
            o.skip(LINK, 'tables after a union: %s' % show(U.tables(s)[0], 5))
            continue
        # shortcuts to the common root aside, only roots change
        links = [(k, P(v2)) for k, v2 in w if isinstance(v2, Poly)]
        if len(links) != len(w):
            o.skip(LINK, 'parents after a union')
            continue
        if not links:
            o.local(LINK, 'unlinked', s, same, 'different sets are not linked')
            for k, v2 in zs:
                o.local(SIZE, 'size-changed', s, eq(P(v2), P(mk('sel', U.sz, k))), 'the size of %s becomes %s without a union' % (show(k), show(v2)))
            continue
        if len(links) != 1:
            o.skip(LINK, '%d parents change' % len(links))
            continue
        k, p = links[0]
        U.local(LINK, 'link', s, b_or(b_and(eq(k, rx), eq(p, ry)), b_and(eq(k, ry), eq(p, rx))), 'the parent of %s becomes %s' % (show(k), show(p)))
        # the size at the new root, whatever the order of the writes
        s = s.copy().assume(le(tot, N))
        if s.facts.contradictory():
            continue
        try:
            now = P(U.I.sel(z, p, s))
        except Split:
            o.skip(SIZE, 'size of %s' % show(p))
            continue
        U.local(SIZE, 'sum', s, b_or(same, eq(now, tot)), 'the size of %s becomes %s' % (show(p), show(now)))
        for k2, v2 in zs:
            o.local(SIZE, 'other', s, b_or(eq(k2, rx), eq(k2, ry)), 'the size of %s is changed to %s' % (show(k2), show(v2)))
    return o.rows


def run_same(crates, f):
    U = Uses(crates, 'is_same')
    x, y = U.xs
    for s, v in U.res:
        b = truth(v)
        if b is None or s.unk:
            U.o.skip(SAME, 'returns %s' % show(v))
        else:
            U.local(SAME, 'answer', s, iff(b, eq(U.root(x), U.root(y))), 'answers %s' % show(b))
    U.quiet('same')
    return U.o.rows


def run_size(crates, f):
    U = Uses(crates, 'size')
    x, = U.xs
    for s, v in U.res:
        if not isinstance(v, Poly) or s.unk:
            U.o.skip(READ, 'returns %s' % show(v))
        else:
            U.local(READ, 'answer', s, eq(v, P(mk('sel', U.sz, U.root(x)))), 'answers %s' % show(v))
    U.quiet('size')
    return U.o.rows


def run_new(crates, f):
    cr, adt, ct, facts, role, me, (I, s, v) = setup(crates)
    o = Rules(ct, ct.name)
    k = P(sym('k', 'usize'))
    for r in ('fa', 'sz'):
        x = v.args[2 + role[r]]
        o.local(FRESH, 'length', s, eq(P(arr_len(x)), N), '%s has %s entries' % (r, show(P(arr_len(x)))))
        y = P(I.sel(x, k, s))
        o.local(FRESH, r, s, eq(y, k if r == 'fa' else 1), '%s of %s is %s at the start' % ('parent' if r == 'fa' else 'size', show(k), show(y)))
    return o.rows


def run_groups(crates, f):
    U = Uses(crates, 'groups')
    o, I = U.o, U.I
    U.quiet('groups')
    # the table the elements are filed in
    loops = [find(I, q) for q in used_loops([s for s, v in U.res])]
    filed = []
    for q in loops:
        for p, x in q.phis.items():
            if isinstance(x, T) and p not in U.fam and x.op == 'rep' and isinstance(x.args[0], T) and P(arr_len(x.args[0])).const() == 0 and any(b.get(p, p) is not p for s, b in q.backs):
                filed.append((q, p, x))
    if not filed and all(isinstance(v, T) and is_arr(v) and P(arr_len(v)).const() == 0 for s, v in U.res):
        for s, v in U.res:
            o.local(FILE, 'left-out', s, le(N, 0), 'there are no groups')
        return o.rows
    if len(filed) != 1:
        o.skip(FILE, '%d tables of groups' % len(filed))
        return o.rows
    q, B, x = filed[0]
    o.local(FILE, 'room', q.entry, ge(P(arr_len(x)), N), 'there are only %s groups' % show(P(arr_len(x))))
    at_ = None
    for s, b in q.backs:
        w = stores(b.get(B, B), B)
        if s.unk or w is None:
            o.skip(FILE, 'groups: %s' % show(b.get(B, B), 5))
            return o.rows
        new = []
        for k, row in w:
            y = row
            while isinstance(y, T) and y.op == 'push':
                new.append((k, P(y.args[1])))
                y = y.args[0]
            if not (isinstance(y, T) and y.op == 'sel' and y.args[0] is B and (y.args[1] == k or s.facts.entails(eq(P(y.args[1]), k)))):
                o.skip(FILE, 'group %s becomes %s' % (show(k), show(row, 5)))
                return o.rows
        if len(new) > 1:
            o.wrong(FILE, 'twice', s, 'one pass files %s' % ', '.join('%s under %s' % (show(v), show(k)) for k, v in new))
            continue
        if not new:
            at_ = at_ or 'none'
            o.local(FILE, 'left-out', s, FALSE, 'a pass files no element')
            continue
        k, v = new[0]
        U.local(FILE, 'root', s, eq(k, U.root(v)), '%s is filed under %s' % (show(v), show(k)))
        if at_ not in (None, v):
            o.skip(FILE, 'order of filing')
        at_ = v
    if isinstance(at_, Poly) and q.it_atom is not None:
        d = at_ - q.it
        n = None
        if d.const() is not None:
            o.local(FILE, 'first', q.entry, le(d, 0), 'filing begins at %s' % show(d))
            for s in exits_of(I, U.res, q):
                o.local(FILE, 'last', s, ge(q.it + d, N), 'filing stops at %s' % show(q.it + d))
        elif (at_ + q.it).const() is None and not any(a.op == 'phi' for a in atoms_deep(at_ + q.it)):
            top = at_ + q.it
            o.local(FILE, 'first', q.entry, ge(top, N - 1), 'filing begins at %s' % show(top))
            for s in exits_of(I, U.res, q):
                o.local(FILE, 'last', s, lt(top - q.it, 0), 'filing stops at %s' % show(top - q.it))
        else:
            o.skip(FILE, 'order of filing: %s' % show(at_))
    elif at_ != 'none':
        o.skip(FILE, 'order of filing')
    pick(o, U, B, loops)
    return o.rows


def exits_of(I, res, q):
    return [s for s, v in res if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())]


def pick(o, U, B, loops):
    """the result is made of the groups that are not empty, in the order of one scan"""
    I = U.I
    n = P(arr_len(B))
    outs = {id(v): v for s, v in U.res}
    out = None
    for s, v in U.res:
        if isinstance(v, T) and v.op == 'phi':
            out = v if out in (None, v) else False
        elif v is B or isinstance(v, T) and P(arr_len(v)).const() is None:
            o.skip(PICK, 'returns %s' % show(v, 5))
            return
    if not out:
        o.skip(PICK, 'returns several things')
        return
    q = [x for x in loops if out in x.phis]
    if len(q) != 1 or not (isinstance(q[0].phis[out], T) and P(arr_len(q[0].phis[out])).const() == 0):
        o.skip(PICK, 'result list')
        return
    q = q[0]
    inner = [x for x in loops if x is not q and any(e[0] == 'loop' and find(I, e[1]) is x for s, b in q.backs for e in s.events())]
    cells = lambda s: {P(a.args[1]) for l in s.facts.lits for a in atoms_deep(l) if a.op == 'sel' and a.args[0] is B}
    # candidates for the place the scan has reached
    cands = [P(p) for p, x in q.phis.items() if isinstance(x, Poly) and x == P(0)] + ([q.it] if q.it_atom is not None else [])
    why = 'no scan over the groups'
    for c in cands:
        rows = []
        r = Rules(U.f, U.f.name)
        r.live, r.roots = o.live, o.roots
        good = True
        pos = {q.id: c}
        for x in inner:
            pos[x.id] = c + (x.it if x.it_atom is not None else P(0))
        for x in inner:
            for s, b in x.backs:
                here = pos[x.id]
                if here not in cells(s):
                    good = False
                    continue
                r.local(PICK, 'skipped', s, eq(P(mk('len', mk('sel', B, here))), 0), 'group %s is left out' % show(here, 5))
        for s, b in q.backs:
            e = b.get(out, out)
            nxt = at_back_(c, b)
            ins = [x for x in inner if any(ev[0] == 'loop' and find(I, ev[1]) is x for ev in s.events())]
            here = pos[ins[0].id] if ins else c
            if nxt is None or len(ins) > 1:
                good = False
                continue
            if e is out:
                if not s.facts.entails(eq(nxt, here + 1)):
                    good = False
                else:
                    r.local(PICK, 'dropped', s, eq(P(mk('len', mk('sel', B, here))), 0), 'group %s is left out' % show(here, 5))
            elif e.op == 'push' and e.args[0] is out and isinstance(e.args[1], T) and e.args[1].op == 'sel' and e.args[1].args[0] is B:
                if not s.facts.entails(eq(nxt, here + 1)):
                    good = False
                k = P(e.args[1].args[1])
                r.local(PICK, 'taken', s, eq(k, here), 'group %s is taken at place %s' % (show(k, 5), show(here, 5)))
                r.local(PICK, 'empty', s, ge(P(mk('len', mk('sel', B, k))), 1), 'group %s is taken although it may be empty' % show(k, 5))
            else:
                good = False
        for s, v in U.res:
            if v is out:
                ins = [x for x in inner if any(ev[0] == 'loop' and find(I, ev[1]) is x for ev in s.events())]
                here = pos[ins[0].id] if ins else c
                r.local(PICK, 'all', s, ge(here, n), 'the scan ends at %s' % show(here, 5))
        if good:
            o.rows += [x for x in r.rows]
            return
    o.skip(PICK, why)


def at_back_(c, b):
    m = {p: P(x) for p, x in b.items() if isinstance(x, Poly)}
    r = shallow(c, m)
    return r if isinstance(r, Poly) else None


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        adt = find_adt(crates[0], 'UnionFind')
        if not ctx.need(adt, 'UnionFind'):
            return
        f = method(crates[0], adt, 'find')
        if not ctx.need(f is not None, 'find'):
            return
        for g in (run_find, run_new, run_join, run_same, run_size, run_groups):
            tasks.append(('%s %s' % (f.path, g.__name__), g, crates, f))
    ctx.tasks(tasks, limit=200)
    ctx.floor(len(tasks), 12, 'functions')
    ctx.assumptions += ['induction over the calls made so far: parents form trees, and a nested find obeys the same rules', 'at most 2^30 elements']
