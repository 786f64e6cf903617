"""C17: the nodes a Fenwick tree reads and writes, in the segment domain.

Node k (1-based, stored at k-1) stands for the elements k - lowbit(k) .. k-1.  Prefix sums are proved by the inductive
hypothesis "the running sum is the segment from the current node to the start", updates by the parent rule
k -> k + lowbit(k), the partition search by "the running sum is the prefix of length pos, pos is a multiple of 2^e, and
position pos + 2^e is past the end or rejected"."""
from segd import *

N = P(sym('N', 'usize'))


def addf(t):
    if t.op == 'app' and t.args[0] == 'Add::add' and len(t.args) == 4:
        return t.args[2], t.args[3]
    if t.op == 'app' and t.args[0] == 'Default::default':
        return ()
    return None


def node(D, t, s):
    """a stored partial sum"""
    if t.op == 'sel' and isinstance(t.args[0], T) and t.args[0].op == 'carr':
        k = t.args[1] + 1
        if t.args[0].args[0] == 'a':
            return Seg(k - 1, k)
        for pos, e in D.mult:
            # pos is a multiple of 2^e, so pos + 2^(e-1) has lowest bit 2^(e-1)
            if s.facts.entails(eq(k, pos + pow2(e - 1))):
                return Seg(pos, k)
        return Seg(k - lowbit(k), k)
    return None


def domain(I):
    D = SegD(I, op=addf, leaf=node, comm=True)
    D.mult = []
    return D


def down(D, info, x):
    """hypothesis for a running sum over descending nodes: x = Seg(c + d, c0 + d) for a counter c"""
    best = None
    ini = info.inits()
    cs = [P(c) for c in int_phis(info)]
    for s, b in info.backs:
        for t in sorted(atoms_deep(b[x]), key=lambda t: t.id):
            if t.op == 'sel' and isinstance(t.args[0], T) and t.args[0].op == 'carr' and t.args[1] not in cs:
                cs.append(t.args[1])
    for c in cs:
        for d in (0, 1):
            c0 = subst(c, ini)
            D.scal[x] = h = Seg(c + d, c0 + d)
            try:
                v0 = D.value(info.phis[x], info.entry)
                if not D.same(v0, Seg(c0 + d, c0 + d), info.entry):
                    raise Bad(info.entry, D.eqf(v0, Seg(0, 0)), 'the sum starts with %s' % v0)
                for s, b in info.backs:
                    v = D.value(b[x], s)
                    w = h.sub(b)
                    if not D.same(v, w, s):
                        raise Bad(s, D.eqf(v, w), 'after node %s the sum is %s and the next node %s' % (show(c + d), v, show(subst(c + d, b))))
                return None
            except Stop as e:
                if best is None or isinstance(e, Bad) and not isinstance(best, Bad):
                    best = e
    D.scal.pop(x, None)
    return best or Stop('no counter')


RP = 'a prefix sum adds the elements 0 .. k-1, each once'


def run_pref(crates, adt, ctor, f, kind):
    o = Out(f, 'FenwickTree::' + f.name)
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    for sh in shapes(crates, adt, ctor, [N], st, N):
        I = AI(crates)
        s = sh.state.copy()
        s.mem[('obj', 'self')] = sh.value
        if kind == 'pref':
            k = P(sym('k', 'usize'))
            s.assume(ge(k, 0), le(k, N))
            args, want = [k], Seg(0, k)
        else:
            l, r = P(sym('l', 'usize')), P(sym('r', 'usize'))
            s.assume(ge(l, 0), le(l, r), le(r, N))
            args, want = [l, r], Seg(l, r)
        res, _ = call(I, f.path, s, [ref(('obj', 'self'))] + args)
        o.rows += [('an', 'loops', len(I.loops_done)), ('an', 'paths', len(res))]
        D = domain(I)
        done = True
        for info in I.loops_done:
            for x in val_phis(info):
                e = down(D, info, x)
                if e:
                    done = False
                    o.fail(RP, f.name + ':step', e, info)
        for s2, v in res:
            try:
                if s2.unk:
                    raise Stop(str(s2.unk))
                x = value2(D, v, s2)
                if not D.same(x, want, s2):
                    raise Bad(s2, D.eqf(x, want), 'the answer is %s, wanted %s' % (x, want))
                o.ok(RP)
            except Stop as e:
                o.fail(RP, f.name + ':result', e, *I.loops_done)
        panics(o, I, RP)
    return o.rows


def value2(D, v, s):
    """a segment, or the difference of two nested ones"""
    if isinstance(v, T) and v.op == 'app' and v.args[0] == 'Sub::sub':
        a, b = value2(D, v.args[2], s), value2(D, v.args[3], s)
        if D.empty(b, s):
            return a
        F = s.facts
        if F.entails(eq(a.lo, b.lo)) and F.entails(le(b.hi, a.hi)):
            return Seg(b.hi, a.hi)
        if F.entails(eq(a.hi, b.hi)) and F.entails(le(a.lo, b.lo)):
            return Seg(a.lo, b.lo)
        raise Bad(s, b_or(b_and(eq(a.lo, b.lo), le(b.hi, a.hi)), b_and(eq(a.hi, b.hi), le(a.lo, b.lo)), le(b.hi, b.lo)), '%s is taken away from %s' % (b, a))
    return D.value(v, s)


RA = 'an update reaches the nodes k, k + lowbit(k), ... up to n'


def delta(cell, t):
    """what is added to the cell `cell` in t: [terms]"""
    if t is cell:
        return []
    lr = addf(t)
    if not lr:
        return None
    for a, b in (lr, lr[::-1]):
        d = delta(cell, a)
        if d is not None:
            return d + [b]
    return None


def climb(o, info, idx, val, key, base=None):
    """the loop adds val to node k = c + d, k0 = idx + 1, next k + lowbit(k), until k > n"""
    arrs = [a for a, i in info.phis.items() if isinstance(i, T) and not is_bool(i) and any(isinstance(b.get(a), T) and b[a].op == 'store' for s, b in info.backs)]
    if len(arrs) != 1:
        raise Stop('%d arrays' % len(arrs))
    a = arrs[0]
    pos = set()
    for s, b in info.backs:
        e = b[a]
        if e.op != 'store':
            raise Stop('back edge without a write')
        if e.args[0] is not a:
            raise Stop('two writes in one step')
        pos.add(e.args[1])
    if len(pos) != 1:
        raise Stop('several write positions')
    w = pos.pop()
    k = w + 1
    k0 = subst(k, info.inits())
    s0 = info.entry
    if not s0.facts.entails(eq(k0, idx + 1)):
        raise Bad(s0, eq(k0, idx + 1), 'the first node updated is %s for index %s' % (show(k0), show(idx)))
    for s, b in info.backs:
        e = b[a]
        d = delta(mk('sel', a, w), e.args[2])
        if d is None:
            raise Stop('node becomes %s' % show(e.args[2], 5))
        if len(d) != 1 or d[0] is not val:
            raise Bad(s, FALSE, 'node %s is changed by %s' % (show(k), ' + '.join(show(x) for x in d)))
        k2 = subst(k, b)
        F = s.facts
        if not F.entails(eq(k2, k + lowbit(k))) and not F.entails(b_and(gt(k2, N), gt(k + lowbit(k), N))):
            raise Bad(s, b_or(eq(k2, k + lowbit(k)), b_and(gt(k2, N), gt(k + lowbit(k), N))), 'after node %s comes node %s' % (show(k), show(k2)))
    return a, k


def run_add(crates, adt, ctor, f):
    o = Out(f, 'FenwickTree::add')
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    for sh in shapes(crates, adt, ctor, [N], st, N):
        I = AI(crates)
        s = sh.state.copy()
        s.mem[('obj', 'self')] = sh.value
        idx, val = P(sym('idx', 'usize')), mk('sym', 'val', '?')
        s.assume(ge(idx, 0), lt(idx, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), idx, val])
        o.rows += [('an', 'loops', len(I.loops_done)), ('an', 'paths', len(res))]
        info = None
        try:
            if len(I.loops_done) != 1:
                raise Stop('%d loops' % len(I.loops_done))
            info = I.loops_done[0]
            a, k = climb(o, info, idx, val, 'add')
            o.ok(RA)
            for s2, v in res:
                if s2.unk:
                    raise Stop(str(s2.unk))
                fin = [x for x in s2.mem[('obj', 'self')].args[2:] if isinstance(x, T) and x.op not in ('sym',)]
                if a not in fin:
                    raise Stop('self holds %s' % [show(x, 3) for x in fin])
                if not s2.facts.entails(gt(k, N)):
                    raise Bad(s2, gt(k, N), 'the update stops at node %s' % show(k))
                o.ok(RA)
        except Stop as e:
            o.fail(RA, 'add', e, *([info] if info else []))
        panics(o, I, RA)
    return o.rows


RF = 'building from a list stores the same sums as adding the elements one at a time'


def run_from(crates, adt, f):
    o = Out(f, 'FenwickTree::from')
    I = AI(crates)
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    A = mk('carr', 'a', N)
    st.mem[('obj', 'a')] = A
    res, _ = call(I, f.path, st, [ref(('obj', 'a'))])
    o.rows += [('an', 'loops', len(I.loops_done)), ('an', 'paths', len(res))]
    info = None
    try:
        for s, v in res:
            if s.unk:
                raise Stop(str(s.unk))
            arr = [x for x in v.args[2:] if isinstance(x, T)]
            if len(arr) != 1:
                raise Stop('fields')
            arr = arr[0]
            if not any(isinstance(x, Poly) and s.facts.entails(eq(x, N)) for x in v.args[2:]):
                raise Bad(s, or_eq([x for x in v.args[2:] if isinstance(x, Poly)], N), 'the size recorded is not the length of the list')
            info = None
            for i in I.loops_done:
                if arr in i.phis:
                    info = i
            if s.facts.entails(eq(N, 0)):
                o.ok(RF)
                continue
            if info is None and arr.op == 'rep' and addf(arr.args[0]) == ():
                raise Bad(s, eq(N, 0), 'no element is added')
            if info is None:
                x = elem_is(Dx(I), arr, s)
                raise Stop('cells hold %s' % x)
            inner = [i for i in I.loops_done if i is not info and any(b.get(arr) in i.phis for _, b in info.backs if isinstance(b.get(arr), T))]
            init = info.phis[arr]
            own = own_base(I, init, info.entry, A)
            i = info.it
            if inner:
                if own is not False:
                    raise Stop('nested with a copy')
                e = inner[0]
                c = climb(o, e, i, mk('sel', A, i), 'from')
                for s2, b in info.backs:
                    if not isinstance(b[arr], T) or b[arr] is not c[0]:
                        raise Stop('nested')
                    if not s2.facts.entails(gt(c[1], N)):
                        raise Bad(s2, gt(c[1], N), 'the update of element %s stops at node %s' % (show(i), show(c[1])))
                o.ok(RF)
            else:
                parents(I, o, info, arr, own, A)
            # every element is visited
            if not s.facts.entails(ge(i, N)):
                raise Bad(s, ge(i, N), 'the elements from %s on are not added' % show(i))
            o.ok(RF)
    except Stop as e:
        o.fail(RF, 'from', e, *([info] if info else []))
    panics(o, I, RF)
    return o.rows


def or_eq(xs, n):
    return b_or(*[eq(x, n) for x in xs]) if xs else FALSE


class Dx:
    def __init__(self, I):
        self.I = I


def elem_is(D, arr, s):
    return show(arr, 3)


def own_base(I, init, s, A):
    """False: the cells start as the default value; True: as the elements themselves"""
    if init.op == 'rep' and addf(init.args[0]) == ():
        return False
    j = P(mk('anyidx', init.id, 'nat'))
    s2 = s.copy().assume(ge(j, 0), lt(j, N))
    for s3, v in Cells(I).elem(init, j, s2):
        if isinstance(v, T) and v.op == 'sel' and v.args[0] is A and s3.facts.entails(eq(v.args[1], j)):
            continue
        if isinstance(v, T) and addf(v) == ():
            return False
        raise Stop('cells start as %s' % show(v, 4))
    return True


def parents(I, o, info, arr, own, A):
    """pass i (0-based): cell i gets element i (unless it already has it), then cell i + lowbit(i+1) gets cell i if it exists"""
    i = info.it
    p = i + lowbit(i + 1)
    C = Cells(I)
    for s, b in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        e = b[arr]
        cell = mk('sel', arr, i)
        el = mk('sel', A, i)
        # cell i
        for s2, v in C.elem(e, i, s):
            d = delta(cell, v)
            if d is None and all(y is el or y is cell for y in flat(v)):
                # cells that nothing was added to yet hold the default value
                raise Bad(s2, eq(lowbit(i + 1), 1), 'cell %s loses what was added to it before' % show(i))
            if d is None:
                raise Stop('cell i becomes %s' % show(v, 5))
            want = [] if own else [el]
            if d != want:
                raise Bad(s2, FALSE, 'cell %s is given %s' % (show(i), ' + '.join(show(x) for x in d) or 'nothing'))
        full = {el: 1, cell: 1} if not own else {cell: 1}
        j = P(mk('anyidx', (e.id, 'from'), 'nat'))
        s1 = s.copy().assume(ge(j, 0), lt(j, N), ne(j, i))
        if not s1.facts.contradictory():
            for s2, v in C.elem(e, j, s1):
                for g in (eq(j, p), ne(j, p)):
                    s3 = s2.copy().assume(g)
                    if s3.facts.contradictory():
                        continue
                    d = None
                    for cj in (j, p):
                        d = d if d is not None else delta(mk('sel', arr, cj), v)
                    if d is None:
                        for x in atoms_deep(v):
                            if x.op == 'sel' and x.args[0] is arr and s3.facts.entails(eq(x.args[1], j)):
                                d = d if d is not None else delta(x, v)
                    if d is None:
                        raise Stop('cell %s becomes %s' % (show(j), show(v, 5)))
                    got = {}
                    for x in d:
                        for y in flat(x):
                            got[y] = got.get(y, 0) + 1
                    want = full if g.op == 'eq0' else {}
                    if got != want:
                        if any(not (y is el or y.op == 'sel') for y in got):
                            raise Stop('cell %s is given %s' % (show(j), show(v, 5)))
                        raise Bad(s3, FALSE, 'cell %s is given %s in the pass for %s' % (show(j), ' + '.join(show(x) for x in got) or 'nothing', show(i)))
        o.ok(RF)
    if own and not info.backs:
        raise Stop('no pass')


def flat(t):
    lr = addf(t)
    if lr == ():
        return []
    if lr:
        return flat(lr[0]) + flat(lr[1])
    return [t]


RS = 'the partition search tests prefix sums only and stops at the boundary'


def run_search(crates, adt, ctor, f):
    o = Out(f, 'FenwickTree::' + f.name)
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    for sh in shapes(crates, adt, ctor, [N], st, N):
        I = AI(crates)
        s = sh.state.copy()
        s.mem[('obj', 'self')] = sh.value
        names = arg_names(f)
        args = [ref(('obj', 'self')), mk('sym', 'pred', '?') if f.name == 'partition_point' else TARGET]
        res, _ = call(I, f.path, s, args)
        o.rows += [('an', 'loops', len(I.loops_done)), ('an', 'paths', len(res))]
        D = domain(I)
        info = I.loops_done[0] if I.loops_done else None
        try:
            if len(I.loops_done) != 1:
                raise Stop('%d loops' % len(I.loops_done))
            search_loop(o, D, I, info, res)
        except Stop as e:
            o.fail(RS, f.name, e, *([info] if info else []))
        panics(o, I, RS)
    return o.rows


def tested(s, val):
    """the values the predicate was asked about on this path: (term, outcome)"""
    out = []
    plain = [x for l in s.facts.lits for x in (l, l.args[0] if l.op == 'not' else l) if x.op == 'bterm' and x.args[0] == 'lt' and x.args[2] is TARGET]
    for l in s.facts.lits:
        neg = l.op == 'not'
        x = l.args[0] if neg else l
        if x.op == 'bterm' and x.args[0] == 'val' and isinstance(x.args[1], T) and x.args[1].op == 'app' and x.args[1].args[0] == 'call':
            a = x.args[1].args[2]
            if isinstance(a, T) and a.op == 'agg':
                a = a.args[2]
            out.append((a, not neg))
        elif x.op == 'bterm' and x.args[0] == 'lt' and x.args[2] is TARGET:
            out.append((x.args[1], not neg))
        elif x.op == 'bterm' and x.args[0] in ('lt', 'eq') and TARGET in x.args[1:] and not any(p.args[1] in x.args[1:] for p in plain):
            raise Bad(s, FALSE, 'the search asks whether %s %s %s' % (show(x.args[1], 4), '<' if x.args[0] == 'lt' else '=', show(x.args[2], 4)))
    return out


TARGET = mk('sym', 'target', '?')


def search_loop(o, D, I, info, res):
    xs = val_phis(info)
    if len(xs) > 1:
        raise Stop('running sums: %d' % len(xs))
    x = xs[0] if xs else None
    F0 = info.entry
    # the exponent: nodes read are pos + 2^t
    best = None
    for c in int_phis(info):
        pos = P(c)
        es = set()
        for s, b in info.backs:
            for t in [y for a, r in tested(s, None) for y in atoms_deep(a)] + (list(atoms_deep(b[x])) if xs else []):
                if t.op == 'sel' and isinstance(t.args[0], T) and t.args[0].op == 'carr':
                    d = t.args[1] + 1 - pos
                    for y in d.atoms():
                        if y.op == 'pow2':
                            es.add(y.args[0] + 1)
        for e in es:
            D.mult = [(pos, e)]
            try:
                one_search(o, D, I, info, res, x, pos, e)
                return
            except Stop as ex:
                if best is None or isinstance(ex, Bad) and not isinstance(best, Bad):
                    best = ex
    raise best or Stop('no exponent')


def one_search(o, D, I, info, res, x, pos, e):
    if x is None:
        # no running sum: what is asked about has to begin at the first element all the same
        for s, b in info.backs:
            for a, r in tested(s, None):
                v = D.value(a, s)
                if not s.facts.entails(b_or(eq(v.lo, 0), le(v.hi, v.lo))):
                    raise Bad(s, eq(v.lo, 0), 'the predicate is asked about %s' % v)
        raise Stop('no running sum')
    ini = info.inits()
    pos0, e0 = subst(pos, ini), subst(e, ini)
    s0 = info.entry
    v0 = D.value(info.phis[x], s0)
    if not s0.facts.entails(eq(pos0, 0)) or not D.empty(v0, s0):
        raise Bad(s0, b_and(eq(pos0, 0), le(v0.hi, v0.lo)), 'the search starts at %s with %s' % (show(pos0), v0))
    if not s0.facts.entails(gt(pow2(e0), N)):
        raise Bad(s0, gt(pow2(e0), N), 'the largest step is 2^(%s)' % show(e0 - 1))
    D.scal[x] = Seg(0, pos)
    for s, b in info.backs:
        F = s.facts
        pos2, e2 = subst(pos, b), subst(e, b)
        rej, acc = [], []
        for a, r in tested(s, None):
            v = D.value(a, s)
            if not F.entails(b_or(eq(v.lo, 0), le(v.hi, v.lo))):
                raise Bad(s, eq(v.lo, 0), 'the predicate is asked about %s' % v)
            if not F.entails(le(v.hi, N)):
                raise Bad(s, le(v.hi, N), 'the predicate is asked about %s' % v)
            (acc if r else rej).append(v.hi)
        v = D.value(b[x], s)
        if not D.same(v, Seg(0, pos2), s):
            raise Bad(s, D.eqf(v, Seg(0, pos2)), 'the running sum is %s at position %s' % (v, show(pos2)))
        g = b_or(eq(pos2, pos), *[eq(pos2, q) for q in acc])
        if not F.entails(g):
            raise Bad(s, g, 'the search moves to %s' % show(pos2))
        # multiples: pos' is a multiple of 2^e'
        if F.entails(eq(pos2, pos)):
            g = le(e2, e)
        elif F.entails(eq(pos2, pos + pow2(e - 1))):
            g = le(e2, e - 1)
        else:
            raise Stop('position %s' % show(pos2))
        if not F.entails(g):
            raise Bad(s, g, 'after the step 2^(%s) comes 2^(%s)' % (show(e - 1), show(e2 - 1)))
        q2 = pos2 + pow2(e2)
        g = b_or(gt(q2, N), eq(q2, pos + pow2(e)), *[le(q, q2) for q in rej])
        g1 = [gt(q2, N), eq(q2, pos + pow2(e))] + [eq(q, q2) for q in rej]
        if not any(F.entails(y) for y in g1):
            raise Bad(s, b_or(*g1), 'position %s is neither past the end nor rejected' % show(q2))
        o.ok(RS)
    for s, v in res:
        if s.unk:
            raise Stop(str(s.unk))
        inside = any(l for l in s.facts.lits if info.it_atom in atoms_deep(l))
        if not inside:
            if isinstance(v, Poly) and s.facts.entails(b_and(eq(N, 0), eq(v, 0))):
                o.ok(RS)
                continue
            raise Stop('a result without the loop: %s' % show(v))
        if not isinstance(v, Poly):
            raise Stop('result %s' % show(v))
        if not s.facts.entails(eq(v, pos)):
            raise Bad(s, eq(v, pos), 'the result is %s at position %s' % (show(v), show(pos)))
        if not s.facts.entails(b_or(le(e, 0), gt(pos + 1, N))):
            raise Bad(s, b_or(le(e, 0), gt(pos + 1, N)), 'the search ends before the step 2^(%s)' % show(e - 1))
        o.ok(RS)


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        cr = crates[0]
        adt = find_adt(cr, 'FenwickTree')
        if not ctx.need(adt, 'FenwickTree'):
            return
        cs = {f.name: f for f in ctors(cr, adt)}
        if not ctx.need('new' in cs and 'from' in cs, 'FenwickTree constructors'):
            return
        m = {k: method(cr, adt, k) for k in ('pref', 'sum', 'add', 'partition_point', 'search')}
        for k, v in m.items():
            if not ctx.need(v, 'FenwickTree::' + k):
                return
        new = cs['new']
        tasks += [(m['pref'].path, run_pref, crates, adt, new, m['pref'], 'pref'),
                  (m['sum'].path, run_pref, crates, adt, new, m['sum'], 'sum'),
                  (m['add'].path, run_add, crates, adt, new, m['add']),
                  (cs['from'].path, run_from, crates, adt, cs['from']),
                  (m['search'].path, run_search, crates, adt, new, m['search']),
                  (m['partition_point'].path, run_search, crates, adt, new, m['partition_point'])]
    ctx.tasks(tasks, limit=90)
    ctx.floor(len(tasks), 10, 'functions')
    ctx.assumptions += ['length at most 2^30', 'addition is associative and commutative']
