"""C14: the boundary searches of the segment trees, in the segment domain over leaf positions.

first(k) and end(k) are the first leaf below node k and the leaf after the last one, as uninterpreted terms with
  first(2k) = first(k), end(2k+1) = end(k), end(2k) = first(2k+1), end(k) = first(k+1) when k+1 is no power of two
(end(k) is the end of the array otherwise), and first(k) = k - size on the leaves."""
from tree import *
from c12 import trees


RULE = 'the search stops exactly at the boundary'
ANCHOR = 'the predicate is given ordered products anchored at the start of the search'


def first(k):
    return P(mk('firstleaf', P(k)))


def end(k):
    return P(mk('endleaf', P(k)))


class Search(SegD):
    def __init__(self, I, t, right, p):
        SegD.__init__(self, I, op=opf, leaf=Search.node)
        self.t, self.right, self.p = t, right, p
        self.rej = {}          # loop id -> position up to which a product is known to be rejected
        self.acc = set()       # scalars that are known to be accepted
        self.climbs = []       # (atom a >> it, a, 'even' / 'odd' / None, positive)
        self.low = []          # facts proved by induction
        for info in I.loops_done:
            self.climb_lemma(info)

    def node(self, t, s):
        if t.op == 'sel' and t.args[0] is self.t.D:
            return Seg(first(t.args[1]), end(t.args[1]))
        return None

    def climb_lemma(self, info):
        """node values a >> it of a loop that goes up: which side it always comes from"""
        it = info.it
        seen = set()
        for s, b in info.backs:
            for l in s.facts.lits:
                for y in atoms_deep(l):
                    if y.op == 'shr' and (y.args[1] - it).const() in (0, 1) and info.it_atom not in atoms_deep(y.args[0]):
                        seen.add(y.args[0])
        for a in seen:
            cur, nxt = shr(a, it), shr(a, it + 1)
            even = all(s.facts.entails(eq(nxt * 2, cur)) for s, b in info.backs)
            odd = all(s.facts.entails(eq(nxt * 2 + 1, cur)) for s, b in info.backs)
            pos = all(s.facts.entails(ge(nxt, 1)) for s, b in info.backs)
            self.climbs.append((cur, a, 'even' if even else 'odd' if odd else None, pos))

    def strengthen(self, s):
        """the positivity of what a climb reaches, and the bounds proved for counters"""
        s = s.copy()
        for l in self.low:
            s.assume(l)
        for _ in range(2):
            for cur, a, side, pos in self.climbs:
                if pos and s.facts.entails(ge(a, 1)):
                    s.assume(ge(cur, 1))
        for cur, a, side, pos in self.climbs:
            y = cur.atom()
            if isinstance(y, T) and s.facts.entails(eq(cur, 1)):
                s.assume(*[subst(l, {y: ONE}) for l in s.facts.lits if y in atoms_deep(l)])
        return s

    def floors(self, infos):
        for info in infos:
            for c in int_phis(info):
                for d in (2, 1):
                    f = ge(P(c), d)
                    if not self.strengthen(info.entry).facts.entails(subst(f, info.inits())):
                        continue
                    self.low.append(f)
                    ok = True
                    for s, b in info.backs:
                        s2 = self.strengthen(s)
                        if not s2.facts.contradictory() and not self.holds(s2, subst(f, b)):
                            ok = False
                    if ok:
                        break
                    self.low.pop()

    def holds(self, s, f):
        if s.facts.entails(f):
            return True
        # x >= 1 that is no power of two is at least three
        l = f.args[0] if f.op == 'ge0' else None
        if l is None:
            return False
        x = l + 2
        return s.facts.entails(ge(x, 1)) and self.nopow(x, s)

    # ---- positions -------------------------------------------------
    def nopow(self, k, s):
        F = s.facts
        if F.entails(ne(lowbit(k), k)):
            return True
        # 2y + 1 with y >= 1
        for y in self.half(k - 1):
            if F.entails(ge(y, 1)):
                return True
        return False

    def ispow(self, k, s):
        return s.facts.entails(eq(lowbit(k), k)) or s.facts.entails(eq(k, 1))

    def half(self, k):
        if all(c % 2 == 0 for m, c in k.t):
            r = ZERO
            for m, c in k.t:
                y = P(c // 2)
                for a in m:
                    y = y * P(a)
                r = r + y
            yield r

    def same_as(self, a, s):
        """other descriptions of a position"""
        x = a.atom() if isinstance(a, Poly) else a
        F = s.facts
        if not isinstance(x, T) or x.op not in ('firstleaf', 'endleaf'):
            return
        k = x.args[0]
        if F.entails(ge(k, SIZE)):
            yield k - SIZE if x.op == 'firstleaf' else k + 1 - SIZE
        if x.op == 'firstleaf':
            for y in self.half(k):
                yield first(y)
            for cur, b, side, pos in self.climbs:
                if side == 'even' and F.entails(eq(cur, k)):
                    yield first(b)
            if self.ispow(k, s):
                yield ZERO
            elif self.nopow(k, s):
                yield end(k - 1)
        else:
            for y in self.half(k - 1):
                yield end(y)
            for cur, b, side, pos in self.climbs:
                if side == 'odd' and F.entails(eq(cur, k)):
                    yield end(b)
            if self.ispow(k + 1, s):
                yield SIZE
            elif self.nopow(k + 1, s):
                yield first(k + 1)

    def names(self, a, s):
        out, todo = [], [P(a)]
        while todo and len(out) < 24:
            x = todo.pop(0)
            if any(x is y or (x - y).const() == 0 for y in out):
                continue
            out.append(x)
            todo += list(self.same_as(x, s))
        return out

    def eqp(self, a, b, s):
        s = self.strengthen(s)
        if s.facts.contradictory():
            return True
        xs, ys = self.names(a, s), self.names(b, s)
        F = s.facts
        for x in xs:
            for y in ys:
                if (x - y).const() == 0:
                    return True
        for x in xs:
            for y in ys:
                p, q = x.atom(), y.atom()
                fx, fy = [isinstance(z, T) and z.op in ('firstleaf', 'endleaf') for z in (p, q)]
                if fx and fy and p.op == q.op and F.entails(eq(p.args[0], q.args[0])):
                    return True
                if not fx and not fy and F.entails(eq(x, y)):
                    return True
        return False

    def atend(self, a, s):
        s = self.strengthen(s)
        return any(s.facts.entails(ge(x, N)) for x in self.names(a, s))

    # ---- segments --------------------------------------------------
    def value(self, t, s):
        if isinstance(t, T) and opf(t) == ():
            return Seg(self.p, self.p)
        return SegD.value(self, t, s)

    def empty(self, x, s):
        return x.lo is x.hi or (x.hi - x.lo).const() == 0

    def join(self, x, y, s):
        if self.empty(x, s):
            return y
        if self.empty(y, s):
            return x
        if self.eqp(x.hi, y.lo, s):
            return Seg(x.lo, y.hi)
        raise Bad(self.strengthen(s), eq(x.hi, y.lo), '%s combined with %s' % (x, y))

    def same(self, a, b, s):
        return self.eqp(a.lo, b.lo, s) and self.eqp(a.hi, b.hi, s)

    def eqf(self, a, b):
        return b_and(eq(a.lo, b.lo), eq(a.hi, b.hi))

    # ---- what is known about the predicate -------------------------
    def verdicts(self, s):
        """[(argument term, accepted?)] of the path"""
        out = []
        for l in s.facts.lits:
            pos, b = True, l
            if l.op == 'not':
                pos, b = False, l.args[0]
            if b.op != 'bterm':
                continue
            x = b.args[-1]
            x = x.atom() if isinstance(x, Poly) else x
            if isinstance(x, T) and x.op == 'app' and x.args[0] == 'call' and len(x.args) == 3:
                out.append((arg(x.args[2]), pos))
        return out

    def anchored(self, x, s):
        return self.eqp(x.lo if self.right else x.hi, self.p, s)

    def far(self, x):
        return x.hi if self.right else x.lo

    def accepted(self, t, s):
        if opf(t) == ():
            return True
        return t in self.acc or any(t is x and pos for x, pos in self.verdicts(s))

    def rejected(self, pos, s):
        """a product from the start up to pos is known to be rejected"""
        for x, ok in self.verdicts(s):
            if not ok:
                v = self.value(x, s)
                if self.anchored(v, s) and self.eqp(self.far(v), pos, s):
                    return True
        return any(self.eqp(r, pos, s) for r in self.rej.values())


def arg(x):
    return x.atom() if isinstance(x, Poly) else x


def hypothesis(D, info, x):
    """the running product, as a segment from the start to the node of a counter; the farther end of the node was rejected"""
    best = None
    for c in int_phis(info):
        k = P(c)
        for pos in (first(k), end(k - 1), end(k), first(k + 1)) if D.right else (end(k - 1), end(k), first(k), first(k + 1)):
            h = Seg(D.p, pos) if D.right else Seg(pos, D.p)
            D.scal[x] = h
            try:
                check(D, info, x, h)
                return None
            except Stop as e:
                if best is None or isinstance(e, Bad) and not isinstance(best, Bad):
                    best = e
                D.scal.pop(x, None)
                D.acc.discard(x)
    return best or Stop('no counter')


def check(D, info, x, h):
    ini = info.inits()
    e = info.entry
    v0, w0 = D.value(info.phis[x], e), h.sub(ini)
    if not D.same(v0, w0, e):
        raise Stop('starts with %s, %s' % (v0, w0))
    acc = D.accepted(info.phis[x], e)
    if acc:
        D.acc.add(x)
    worst = None
    for s, b in info.backs:
        s2 = D.strengthen(s)
        if s2.facts.contradictory():
            continue
        v, w = D.value(b[x], s2), h.sub(b)
        if not D.same(v, w, s2):
            raise Bad(s2, D.eqf(v, w), 'the product is %s where the search is at %s' % (v, D.far(w)))
        if acc and not D.accepted(b[x], s2):
            if unfounded(D, b[x], s2):
                worst = Bad(s2, FALSE, 'the search goes on from %s, which the predicate does not accept' % v)
            else:
                worst = Stop('accepted?')
    if worst:
        raise worst


def unfounded(D, t, s):
    """the predicate was not asked about this product, or said no"""
    return all(x is not t or not pos for x, pos in D.verdicts(s))


def rejection(D, info):
    """an invariant 'the product up to the far end of the node is rejected'"""
    for c in int_phis(info):
        k = P(c)
        for pos in (end(k), first(k + 1), end(k + 1)) if D.right else (first(k), first(k - 1)):
            ini = info.inits()
            try:
                if not D.rejected(subst(pos, ini), info.entry):
                    continue
                D.rej[info.id] = pos
                if all(D.rejected(subst(pos, b), D.strengthen(s)) for s, b in info.backs):
                    return True
            except Stop:
                pass
            D.rej.pop(info.id, None)
    return False


def run_search(crates, adt, ctor, lazy, f):
    o = Out(f, '%s::%s' % (tail(adt), f.name))
    infos = []
    right = f.name == 'max_right'

    def fail(rule, key, e):
        if isinstance(e, Bad):
            env = None if e.s.unk else W.find(e)
            if env:
                if key not in o.hit:
                    o.hit.add(key)
                    o.rows.append(('bad', key, '%s (%s): %s\nwith %s\ne.g. %s' % (f.path, f.span, e.text, e.s.facts, env), rule))
                return
        o.rows.append(('skip', rule, o.nm, '%s %s' % (e, e.s.facts if isinstance(e, Bad) else '')))

    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        s = start(t)
        if lazy:
            abstract_steps(I, t)
        p, g = P(sym('p', 'usize')), mk('sym', 'g', '?')
        s.assume(ge(p, 0), le(p, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), p, g])
        infos = [i for i in I.loops_done]
        W = Wit(infos)
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(infos))]
        D = Search(I, t, right, p)
        D.floors(infos[::-1])
        pending = [(i, x) for i in infos for x in val_phis(i)]
        good = True
        while pending:
            left = []
            for i, x in pending:
                e = hypothesis(D, i, x)
                if e is None:
                    o.ok(RULE)
                else:
                    left.append((i, x, e))
            if len(left) == len(pending):
                # a failure that depends on another one is not reported on its own
                bads = [(i, x, e) for i, x, e in left if isinstance(e, Bad)]
                for i, x, e in bads or left:
                    fail(RULE, 'step', e)
                good = False
                break
            pending = [(i, x) for i, x, e in left]
        if not good:
            return o.rows
        for i in infos:
            rejection(D, i)
        # what the predicate is given
        states = [s2 for i in infos for s2, b in i.backs] + [s2 for s2, v in res]
        for s2 in states:
            if s2.unk:
                continue
            for e in s2.events():
                if e[0] != 'callfn' or arg(e[1]) is not g:
                    continue
                x = arg(e[2][0])
                try:
                    s3 = D.strengthen(s2)
                    if s3.facts.contradictory():
                        continue
                    v = D.value(x, s3)
                    if opf(x) != () and not D.anchored(v, s3):
                        a = v.lo if right else v.hi
                        raise Bad(s3, eq(a, p), 'the predicate is given %s' % v)
                    o.ok(ANCHOR)
                except Stop as e2:
                    fail(ANCHOR, 'anchor', e2)
        # results
        for s2, v in res:
            try:
                if s2.unk:
                    raise Stop(str(s2.unk))
                s3 = D.strengthen(s2)
                if s3.facts.contradictory():
                    o.ok(RULE)
                    continue
                result(D, s3, as_poly(v), p, right)
                o.ok(RULE)
            except Stop as e:
                fail(RULE, 'result', e)
        panics(o, I, RULE)
    except Stop as e:
        o.rows.append(('skip', RULE, o.nm, str(e))) if not isinstance(e, Bad) else o.fail(RULE, f.name, e)
    return o.rows


def result(D, s, v, p, right):
    """the product from the start to v is accepted, and the one that is one element longer is rejected or does not exist"""
    F = s.facts
    # accepted products on this path
    acc = [Seg(p, p)]
    for x, ok in D.verdicts(s):
        if ok:
            acc.append(D.value(x, s))
    for x in D.acc:
        if occurs(x, s):
            acc.append(D.scal[x])
    limit = N if right else ZERO
    stop = F.entails(eq(v, N)) if right else F.entails(eq(v, 0))
    if stop:
        if any((D.atend(D.far(a), s) or D.eqp(D.far(a), N, s)) if right else D.eqp(D.far(a), ZERO, s) for a in acc):
            return
    hit = [a for a in acc if D.eqp(D.far(a), v, s)]
    if hit and D.rejected(v + 1 if right else v - 1, s):
        return
    # a definite mismatch: no accepted product ends there, or the next one is not the rejected one
    fars = [D.far(a) for a in acc] + [P(r) for r in ()]
    if not hit:
        conds = [eq(x, v) for x in fars]
        if right:
            conds += [b_and(eq(v, N), ge(x, N)) for x in fars]
        raise Bad(s, b_or(FALSE, *conds), 'the result is %s, accepted products end at %s' % (show(v), ', '.join(show(x) for x in fars)))
    rej = [D.far(D.value(x, s)) for x, ok in D.verdicts(s) if not ok] + list(D.rej.values())
    w = v + 1 if right else v - 1
    raise Bad(s, b_or(eq(v, limit), *[eq(P(x), w) for x in rej]), 'the result is %s, rejected products end at %s' % (show(v), ', '.join(show(x) for x in rej)))


def occurs(x, s):
    """the loop of the scalar has been passed on this path"""
    return any(e[0] == 'loop' and x in e[1].phis for e in s.events())


def run(ctx):
    tasks = []
    for cfg in ('debug',):
        ts = trees(ctx, cfg)
        if not ts:
            return
        for crates, adt, ctor, lazy in ts:
            for m in ('max_right', 'min_left'):
                f = method(crates[0], adt, m)
                if not ctx.need(f, '%s::%s' % (adt, m)):
                    return
                tasks.append((f.path, run_search, crates, adt, ctor, lazy, f))
    ctx.tasks(tasks, limit=400)
    ctx.floor(len(tasks), 4, 'functions')
    ctx.assumptions += ['length at most 2^30', 'the operation is associative with the given identity', 'the predicate depends on its argument only',
                        'every node holds the combination of the leaves below it (C15), nothing pending above it (C13)']
