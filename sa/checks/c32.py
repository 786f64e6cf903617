"""C32: prefix function and Z-function, as rules over every pass of the scan and of the loop inside it.

Discharge: the rules below, from the facts of each path.  Alarm: a rule that fails AND a word on which this very path, begun
in the state the earlier passes are to leave, ends with something else than the value asked for."""
import itertools
from graph import *
from checks.c23 import cover

ORDER = 'the entries are made one after the other, each once, up to the last'
FIRST = 'the entry of the first position is zero'
BEGIN = {'kmp': 'the longest border of the prefix before is tried first', 'z': 'a scan begins with no more than is known to agree'}
NEXT = {'kmp': 'a border that does not go on is followed by the next shorter one', 'z': 'an agreement grows by one when the next elements are equal'}
DONE = {'kmp': 'an entry is one more than the border that goes on, or zero', 'z': 'a scan ends at the end or at different elements'}
BOX = 'the remembered stretch agrees with the beginning'
WHOLE = 'the result has an entry for every position'
SAFE = 'no sequence makes it panic'

M = P(sym('M', 'usize'))
S = mk('carr', 's', M)


def prefix(s):
    p = [0] * len(s)
    for i in range(1, len(s)):
        p[i] = max(k for k in range(i + 1) if s[:k] == s[i + 1 - k:i + 1])
    return p


def zfun(s):
    z = [0] * len(s)
    for i in range(1, len(s)):
        while i + z[i] < len(s) and s[z[i]] == s[i + z[i]]:
            z[i] += 1
    return z


WORDS = [w for n in range(0, 10) for w in itertools.product((0, 1), repeat=n) if not sum(w[:1])] + [(0, 0, 1, 0, 0, 0, 1), (0, 1, 0, 0, 1, 0, 1, 0), (0, 0, 1, 0, 0, 1, 0, 0, 0), (0, 1, 2, 0, 1, 0, 1, 2)] + [(0,) * 12, (0,) * 19 + (1,), (0, 1) * 9, (0, 0, 1) * 6] + [
    (0,) * 135, (0, 0, 1) * 24 + (0, 0, 0, 1), (0,) * 70 + (1,) + (0,) * 68 + (1, 0), ((0, 1, 0, 0, 1) * 7 + (0, 2)) * 4]


class Val:
    """terms under values for their free parts"""
    def __init__(self, env):
        self.env = env

    def p(self, x):
        if isinstance(x, Poly):
            t = 0
            for m, c in x.t:
                for a in m:
                    c *= self.t(a)
                t += c
            return t
        return self.t(x)

    def t(self, a):
        if a in self.env:
            return self.env[a]
        o = a.op
        if o == 'sel':
            arr, k = self.t(a.args[0]), self.p(a.args[1])
            if not isinstance(arr, list) or not 0 <= k < len(arr):
                raise wit.NoVal(a)
            return arr[k]
        if o == 'len':
            return len(self.t(a.args[0]))
        if o == 'rep':
            return [self.p(a.args[0])] * self.p(a.args[1])
        if o == 'arr':
            return [self.p(x) for x in a.args]
        if o == 'store':
            r, k = list(self.t(a.args[0])), self.p(a.args[1])
            if not 0 <= k < len(r):
                raise wit.NoVal(a)
            r[k] = self.p(a.args[2])
            return r
        if o == 'push':
            return list(self.t(a.args[0])) + [self.p(a.args[1])]
        if o in wit.INTERP:
            b = mk(o, *[P(self.p(y)) if isinstance(y, (Poly, T)) else y for y in a.args])
            return wit.evt(b, {}) if isinstance(b, T) else wit.evp(b, {})
        raise wit.NoVal(a)

    def f(self, l):
        if l.op == 'bterm' and l.args[0] in ('eq', 'lt'):
            x, y = self.p(l.args[1]), self.p(l.args[2])
            return x == y if l.args[0] == 'eq' else x < y
        if l.op == 'not':
            return not self.f(l.args[0])
        if l.op == 'and':
            return all(self.f(x) for x in l.args)
        if l.op == 'or':
            return any(self.f(x) for x in l.args)
        if l.op == 'ge0':
            return self.p(l.args[0]) >= 0
        if l.op == 'eq0':
            return self.p(l.args[0]) == 0
        if l.op in ('true', 'false'):
            return l.op == 'true'
        raise wit.NoVal(l)


def same(i, j):
    """elements i and j of the sequence are equal"""
    x, y = sorted((mk('sel', S, P(i)), mk('sel', S, P(j))), key=lambda t: t.id)
    return TRUE if x is y else mk('bterm', 'eq', x, y)


LO = sym('lo', 'usize')        # where the stretch begins, when the code does not keep it


class Hook(NoResidues):
    unroll = False      # passes are looked at in general


class Scan:
    def __init__(self, crates, f, kind):
        self.f, self.kind = f, kind
        self.I = I = AI(crates, Hook())
        st = State()
        st.assume(ge(M, 0), le(M, MAXN))
        st.mem[('obj', 's')] = S
        self.res, _ = call(I, f.path, st, [ref(('obj', 's'))])
        self.true = prefix if kind == 'kmp' else zfun
        self.loops = [find(I, q) for q in used_loops([s for s, v in self.res])]
        self.outer = [q for q in self.loops if not any(e[0] == 'loop' and find(I, e[1]) is q for p in self.loops for s, b in p.backs for e in s.events())]

    def take(self, q):
        """look at one of the loops over the positions"""
        self.q = q
        if hasattr(self, 'i'):
            del self.i
        arrs = [p for p, x in q.phis.items() if isinstance(x, T) and is_arr(x)]
        if len(arrs) != 1 or q.it_atom is None:
            raise Unknown('tables %s' % arrs)
        self.A = A = arrs[0]
        self.inner = [p for p in self.loops if p not in self.outer and any(e[0] == 'loop' and find(self.I, e[1]) is p for s, b in q.backs for e in s.events())]
        self.pushed = not (isinstance(q.phis[A], T) and q.phis[A].op in ('rep', 'fillr', 'store'))
        self.place()
        self.states = None
        self.scalars = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom]
        return self

    def place(self):
        """the position treated in a pass"""
        idx = set()
        for s, b in self.q.backs:
            for k, v in self.writes(b.get(self.A, self.A)) or ():
                idx.add(k)
        if self.pushed:
            idx = {self.q.it + c for c in (0, 1, 2) if all(s.facts.entails(eq(P(mk('len', self.A)), self.q.it + c)) for s, b in self.q.backs)}
        if len(idx) != 1:
            raise Unknown('positions %s' % [show(x) for x in idx])
        self.i = idx.pop()

    def writes(self, arr):
        """[(index, value)] of the cells written since the pass began, oldest first"""
        out = []
        while isinstance(arr, T) and arr is not self.A:
            if arr.op == 'store':
                out.append((P(arr.args[1]), P(arr.args[2])))
                arr = arr.args[0]
            elif arr.op == 'push':
                out.append((self.q.it if not hasattr(self, 'i') else self.i, P(arr.args[1])))
                arr = arr.args[0]
            else:
                q = [q for q in self.inner if arr in q.phis]
                if not q:
                    return None
                for s, b in q[0].backs:
                    for k, v in stores(b.get(arr, arr), arr) or ((None, None),):
                        if k is None:
                            return None
                        out.append((k, P(mk('sel', arr, k))))
                arr = q[0].phis[arr]
        return out[::-1] if arr is self.A else None

    def entry_of(self, arr):
        """the value an array holds for the position"""
        while isinstance(arr, T) and arr is not self.A:
            if arr.op == 'store' and P(arr.args[1]) == self.i:
                return P(arr.args[2])
            if arr.op == 'push':
                return P(arr.args[1])
            if arr.op == 'phi':
                return P(mk('sel', arr, self.i))
            return None
        return P(0) if arr is self.A else None

    # ------------------------------------------------------------ real states
    def starts(self):
        """states in which a pass begins when the earlier ones made the right entries: (values, word, position, truth)"""
        if self.states is None:
            self.states = [x for w in WORDS for x in self.follow(w)]
        return self.states

    def follow(self, w):
        t, q = self.true(w), self.q
        env = {M.atom(): len(w), S: list(w), q.it_atom: 0}
        try:
            v = Val(env)
            if not all(v.f(l) for l in q.entry.facts.lits if not any(x.op == 'phi' for x in atoms_deep(l))):
                return
            cur = {p: v.p(q.phis[p]) for p in self.scalars}
            for it in range(len(w) + 1):
                env = {M.atom(): len(w), S: list(w), q.it_atom: it}
                env.update(cur)
                i = Val(env).p(self.i)
                if not 0 <= i <= len(w):
                    return
                env[self.A] = t[:i] + ([] if self.pushed else [0] * (len(w) - i))
                yield env, w, i, t
                cur = i < len(w) and self.after(env, w, i, t)
                if not cur and self.scalars:
                    return
                cur = cur or {}
        except (wit.NoVal, KeyError):
            return

    def after(self, env, w, i, t):
        """what the pass hands on when it makes the right entry"""
        for s, b in self.q.backs:
            qs = [x for x in (find(self.I, e[1]) for e in s.events() if e[0] == 'loop') if x in self.inner]
            x = self.entry_of(b.get(self.A, self.A))
            if len(qs) > 1 or x is None:
                continue
            for e in (self.inside(qs[0], env, w, i, t) if qs else [env]):
                v = Val(e)
                try:
                    if all(v.f(l) for l in s.facts.lits) and v.p(x) == t[i]:
                        return {p: v.p(b.get(p, P(p))) for p in self.scalars}
                except (wit.NoVal, KeyError):
                    continue
        return None

    def inside(self, q, env, w, i, t):
        """states of the inner loop that follow from such a state"""
        v = self.cand(q)
        if v is None:
            return
        if i >= len(w):
            # behind the end
            e = dict(env)
            if q.it_atom is not None:
                e[q.it_atom] = 0
            for p, y in q.phis.items():
                try:
                    e[p] = Val(env).p(y)
                except wit.NoVal:
                    pass
            yield e
            return
        try:
            n = Val(env).p(v[2])
        except wit.NoVal:
            return
        if self.kind == 'kmp':
            vals, c = [n], n
            while c > 0 and w[c] != w[i] if i < len(w) else False:
                c = t[c - 1]
                vals.append(c)
        else:
            vals = range(n, t[i] + 1) if i < len(w) else ()
        for k, x in enumerate(vals):
            e = dict(env)
            if q.it_atom is not None:
                e[q.it_atom] = k
            if v[0] == 'cell':
                a = list(e[self.A])
                if i < len(a):
                    a[i] = x
                elif i == len(a):
                    a.append(x)
                e[v[1]] = a
            elif v[0] == 'expr':
                try:
                    if q.it_atom is None or Val(e).p(v[1]) != x:
                        continue
                except wit.NoVal:
                    return
            else:
                e[v[1]] = x
            for p, y in q.phis.items():
                # tables that are not changed in the loop keep what they hold
                if p not in e and p is not q.it_atom and all(b.get(p, p) in (p, P(p)) for s, b in q.backs):
                    try:
                        e[p] = Val(e).p(y)
                    except wit.NoVal:
                        pass
            yield e

    def cand(self, q):
        """('cell' | 'int', atom, value at the entry): what the inner loop works on"""
        for p, x in q.phis.items():
            if isinstance(x, T) and (x is self.A or is_arr(x)):
                x0 = self.entry_of(x)
                if x0 is not None and any(b.get(p, p) is not p for s, b in q.backs):
                    return 'cell', p, x0
        ps = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom and any(P(b.get(p, P(p))) != P(p) for s, b in q.backs)]
        if len(ps) > 1:
            ps = [p for p in ps if any(mk('sel', S, P(p)) is z for s, b in q.backs for l in s.facts.lits for z in atoms_deep(l))]
            if self.kind == 'z':
                ps = [p for p in ps if all(s.facts.entails(b_not(eq(P(q.phis[p]), self.i))) or True for s, b in q.backs) and q.entry.facts.entails(le(P(q.phis[p]), self.i)) or len(ps) == 1]
        if len(ps) == 1:
            return 'int', ps[0], P(q.phis[ps[0]])
        # a closed form in the number of passes
        ks = {P(z.args[1]) for s, b in q.backs for l in s.facts.lits for z in atoms_deep(l) if z.op == 'sel' and z.args[0] is S}
        ks = [k for k in ks if any(x is q.it_atom for x in atoms_deep(k))]
        if self.kind == 'z':
            ks = [k for k in ks if k + self.i in ks]
        if not ps and len(ks) == (1 if self.kind == 'kmp' else 1):
            return 'expr', ks[0], subst(ks[0], {q.it_atom: P(0)})
        return None

    def value(self, q, b=None):
        k, p, x0 = self.cand(q)
        if k == 'expr':
            return p if b is None else subst(p, {q.it_atom: q.it + 1})
        if b is None:
            return P(p) if k == 'int' else P(mk('sel', p, self.i))
        if k == 'int':
            return P(b.get(p, P(p)))
        return P(self.entry_of_inner(p, b.get(p, p)))

    def entry_of_inner(self, p, arr):
        while isinstance(arr, T) and arr is not p:
            if arr.op == 'store' and P(arr.args[1]) == self.i:
                return P(arr.args[2])
            raise Unknown('cell %s' % show(arr, 4))
        return P(mk('sel', p, self.i))

    def real(self, s, wrongly, q=None):
        """a word on which this path is taken and wrongly(values, word, position, truth) says what is wrong"""
        if s.unk:
            return None
        lits = list(s.facts.lits)
        qs = [q] if q is not None else [x for x in (find(self.I, e[1]) for e in s.events() if e[0] == 'loop') if x in self.inner]
        if len(qs) > 1:
            return None
        for env, w, i, t in self.starts():
            for e in (self.inside(qs[0], env, w, i, t) if qs else [env]):
                v = Val(e)
                try:
                    if all(v.f(l) for l in lits):
                        why = wrongly(v, w, i, t)
                        if why:
                            return 'the sequence %s at position %d: %s' % (list(w), i, why)
                except (wit.NoVal, KeyError):
                    continue
        return None


class Judge(Out):
    def __init__(self, sc):
        Out.__init__(self, sc.f, sc.f.name)
        self.sc, self.fails, self.plainly = sc, 0, {}

    def check(self, rule, key, s, goal, text, wrongly, q=None):
        if not s.unk and s.facts.entails(goal):
            self.ok(rule)
            return
        self.fails += 1
        env = self.sc.real(self.plainly.get(id(s), (s,))[0], wrongly, q)
        if env:
            if key not in self.hit:
                self.hit.add(key)
                self.rows.append(('bad', key, '%s (%s): %s\nunder %s\nneeds %s\n%s' % (self.f.path, self.f.span, text, s.facts, show(goal), env), rule))
        else:
            self.rows.append(('skip', rule, self.nm, '%s: %s under %s' % (text, show(goal), s.facts)))

    def plain(self, rule, key, s, goal, text, wrongly):
        """a rule for a state before the first pass"""
        if not s.unk and s.facts.entails(goal):
            self.ok(rule)
            return
        self.fails += 1
        for w in WORDS if not s.unk else ():
            v = Val({M.atom(): len(w), S: list(w)})
            try:
                why = all(v.f(x) for x in s.facts.lits) and wrongly(v, w)
            except (wit.NoVal, KeyError):
                continue
            if why:
                self.rows.append(('bad', key, '%s (%s): %s\nunder %s\nneeds %s\nfor the sequence %s: %s' % (self.f.path, self.f.span, text, s.facts, show(goal), list(w), why), rule))
                return
        self.rows.append(('skip', rule, self.nm, '%s: %s under %s' % (text, show(goal), s.facts)))

    def skip(self, rule, text):
        self.fails += 1
        self.rows.append(('skip', rule, self.nm, text))


def pass_paths(sc, o):
    """(state, bindings, inner loop or None) of the passes"""
    for s, b in sc.q.backs:
        qs = [x for x in (find(sc.I, e[1]) for e in s.events() if e[0] == 'loop')]
        if len(qs) > 1:
            o.skip(DONE[sc.kind], '%d loops in a pass' % len(qs))
            continue
        yield s, b, qs[0] if qs else None


def judge(sc, roles=None):
    o, kind, q, i, A = Judge(sc), sc.kind, sc.q, sc.i, sc.A
    o.rows += [('an', 'paths', len(sc.res) + sum(len(x.backs) for x in sc.loops)), ('an', 'loops', len(sc.loops))]
    old = lambda k: P(mk('sel', A, P(k)))
    if roles:
        l, r, d = roles
        lo, end = P(l), P(r) + d
    inv = [eq(old(0), 0)] + ([ge(i, 1)] if q.entry.facts.entails(ge(subst(i, {q.it_atom: P(0)}), 1)) else [])
    if not sc.pushed:
        inv.append(eq(old(i), 0))
    i0 = subst(i, {q.it_atom: P(0)})
    if roles and q.entry.facts.entails(le(P(q.phis[r]) + d, i0)):
        # the stretch is behind, or began at an earlier position: see BOX
        inv.append(b_or(le(end, i), b_and(ge(lo, 1), lt(lo, i))))

    def with_(s):
        r = s.copy().assume(*inv)
        o.plainly[id(r)] = s, r
        return r

    def final(v, w, i, t, arr):
        if i >= len(w):
            return None
        x = v.p(sc.entry_of(arr))
        return None if x == t[i] else 'entry %s instead of %s' % (x, t[i])

    # ---- the inner loop
    for p in sc.inner:
        c = sc.cand(p)
        if c is None:
            o.skip(NEXT[kind], 'what the inner loop changes: %s' % [(show(a), show(x, 4), [show(b.get(a, a), 4) for s, b in p.backs]) for a, x in p.phis.items()])
            continue
        v, v0 = sc.value(p), c[2]
        e = with_(p.entry)
        if kind == 'kmp':
            goal = TRUE if v0 == old(i - 1) else eq(v0, old(i - 1))
            carried = [z for z in sc.scalars if v0 == P(z)]
            if carried:
                # handed on from the pass before
                z = carried[0]
                o.check(BEGIN[kind], 'carry', q.entry, eq(P(q.phis[z]), 0), 'begins with the border %s' % show(q.phis[z]), lambda *a: None)
                for s, b in q.backs:
                    w = sc.entry_of(b.get(A, A))
                    if w is None:
                        o.skip(BEGIN[kind], 'border handed on')
                        continue
                    o.check(BEGIN[kind], 'carry', with_(s), eq(P(b.get(z, P(z))), w), 'hands on %s, the entry is %s' % (show(b.get(z, P(z))), show(w)),
                            lambda vv, w_, i_, t: None if i_ >= len(w_) or vv.p(b.get(z, P(z))) == t[i_] else 'the next border tried is %s' % vv.p(b.get(z, P(z))))
            else:
                o.check(BEGIN[kind], 'begin', e, goal, 'the first border tried is %s' % show(v0),
                        lambda vv, w, i_, t: None if i_ >= len(w) or vv.p(v0) == t[i_ - 1] or chain_ok(w, i_, t, t[i_ - 1], vv.p(v0)) else 'the first border tried is %s' % vv.p(v0), q=None)
        else:
            goal = eq(v0, 0)
            if roles:
                goal = b_or(goal, b_and(lt(i, end), ge(lo, 1), le(v0, old(i - lo)), le(v0, end - i)))
            o.check(BEGIN[kind], 'begin', e, goal, 'the scan begins with %s' % show(v0),
                    lambda vv, w, i_, t: None if i_ >= len(w) or vv.p(v0) <= t[i_] else 'the scan begins with %s, only %s agree' % (vv.p(v0), t[i_]))
        for s, b in p.backs:
            n = sc.value(p, b)
            s = with_(s)
            if kind == 'kmp':
                goal = b_and(ge(v, 1), b_not(same(i, v)), eq(n, old(v - 1)))
                o.check(NEXT[kind], 'next', s, goal, 'goes on with %s' % show(n),
                        lambda vv, w, i_, t: None if i_ >= len(w) or chain_ok(w, i_, t, vv.p(v), vv.p(n)) else 'the border %s is followed by %s' % (vv.p(v), vv.p(n)), q=p)
            else:
                goal = b_and(ge(i, 1), eq(n, v + 1), lt(i + v, M), same(v, i + v))
                o.check(NEXT[kind], 'next', s, goal, '%s becomes %s' % (show(v), show(n)),
                        lambda vv, w, i_, t: None if i_ >= len(w) or vv.p(v) < vv.p(n) <= t[i_] else '%s becomes %s, %s agree' % (vv.p(v), vv.p(n), t[i_]), q=p)
    # ---- one pass
    for s, b, p in pass_paths(sc, o):
        arr = b.get(A, A)
        ws = sc.writes(arr)
        w = sc.entry_of(arr)
        if ws is None or w is None or any(k != i for k, x in ws):
            o.skip(ORDER, 'a pass writes %s' % show(arr, 5))
            continue
        s0 = s
        s = with_(s)
        if p is not None and sc.cand(p) is None:
            continue
        v = sc.value(p) if p is not None else None
        if kind == 'kmp':
            if v is None:
                v = old(i - 1)
            goal = b_or(b_and(same(i, v), eq(w, v + 1)), b_and(b_not(same(i, v)), eq(v, 0), eq(w, 0)))
        else:
            v = P(0) if v is None else v
            goal = b_and(eq(w, v), b_or(ge(i + v, M), b_not(same(v, i + v))))
            if roles:
                # inside the stretch and below what is known: the entry is known
                goal = b_or(goal, b_and(ge(lo, 1), eq(w, old(i - lo)), lt(old(i - lo), end - i)))
        goal = b_or(b_and(ge(i, 1), goal), b_and(le(i, 0), eq(w, 0)))
        o.check(DONE[kind], 'done', s, goal, 'the entry is %s' % show(w), lambda vv, w_, i_, t: final(vv, w_, i_, t, arr))
        if roles:
            ln, en = P(b.get(l, P(l))), P(b.get(r, P(r))) + d
            if l is LO and not s.facts.entails(eq(en, end)):
                ln = i
            goal = b_or(b_and(eq(ln, lo), eq(en, end)), b_and(eq(ln, i), le(en, i + w)), le(en, i + 1))

            def bad_box(vv, w_, i_, t):
                a, z = vv.p(ln), vv.p(en)
                if i_ >= len(w_) or z <= i_ + 1 or z <= a or 1 <= a <= i_ and z <= len(w_) and w_[a:z] == w_[:z - a]:
                    return None
                return 'the stretch from %d to before %d is said to agree with the beginning' % (a, z)
            o.check(BOX, 'box', s, goal, 'the stretch becomes %s up to before %s' % (show(ln), show(en)), bad_box)
    if roles:
        o.check(BOX, 'first-box', q.entry, le(P(q.phis[r]) + d, i0), 'the first stretch ends before %s' % show(P(q.phis[r]) + d), lambda *a: None)
    # ---- the scan
    shift = i - q.it
    if not any(x is q.it_atom for x in atoms_deep(shift)):
        o.plain(ORDER, 'start', q.entry, eq(shift, 1), 'begins at %s' % show(shift),
                lambda v, w: 'the entries before %d are %s, not %s' % (v.p(shift), v.p(q.phis[A])[:v.p(shift)], sc.true(w)[:v.p(shift)]) if v.p(q.phis[A])[:v.p(shift)] != sc.true(w)[:v.p(shift)] else None)
    else:
        o.skip(ORDER, 'positions %s' % show(i))
    # the tables before the first pass
    x0 = q.phis[A]
    try:
        z0 = P(sc.I.sel(x0, P(0), q.entry))
        o.plain(FIRST, 'first', q.entry, eq(z0, 0), 'the first entry is %s' % show(z0), lambda v, w: 'it is %s' % v.p(z0) if v.p(z0) else None)
    except Exception as e:
        o.skip(FIRST, 'begins with %s' % show(x0, 4))
    for s, ret in sc.res:
        through = any(e[0] == 'loop' and find(sc.I, e[1]) is q for e in s.events())
        if not through and any(e[0] == 'loop' for e in s.events()):
            continue        # taken with its own loop

        def wrong_result(vv, w, i_, t):
            x = vv.p(ret)
            return None if x == t else 'the result is %s instead of %s' % (x, t)
        if through:
            if ret is not A:
                o.skip(WHOLE, 'returns %s' % show(ret, 4))
            o.check(WHOLE, 'all', s, b_and(ge(i, M), eq(P(mk('len', A)), M)) if ret is A else FALSE, 'ends before %s' % show(i), wrong_result)
        else:
            n = P(arr_len(ret)) if isinstance(ret, T) and is_arr(ret) else None
            goal = FALSE
            if n is not None and isinstance(ret, T) and ret.op == 'rep':
                goal = b_and(eq(n, M), b_or(le(M, 1), FALSE), b_or(eq(P(ret.args[0]), 0), eq(M, 0)))
            elif n is not None and isinstance(ret, T) and ret.op == 'arr':
                goal = b_and(eq(n, M), *[eq(P(x), 0) for x in ret.args]) if len(ret.args) <= 1 else FALSE
            if not s.unk and s.facts.entails(goal):
                o.ok(WHOLE)
            else:
                o.fails += 1
                hit = None
                for w in WORDS:
                    vv = Val({M.atom(): len(w), S: list(w)})
                    try:
                        if all(vv.f(x) for x in s.facts.lits) and vv.p(ret) != sc.true(w):
                            hit = w, vv.p(ret)
                            break
                    except (wit.NoVal, KeyError):
                        continue
                if hit and not s.unk:
                    o.rows.append(('bad', 'early', '%s (%s): returns %s for the sequence %s' % (sc.f.path, sc.f.span, hit[1], list(hit[0])), WHOLE))
                else:
                    o.skip(WHOLE, 'returns %s under %s' % (show(ret, 4), s.facts))
    # ---- panics that a sequence reaches
    for p in sc.I.panics:
        s = p[3]
        if s.unk:
            continue
        if not any(x.op == 'phi' for l in s.facts.lits for x in atoms_deep(l)):
            hit = None
            for w in WORDS:
                vv = Val({M.atom(): len(w), S: list(w)})
                try:
                    if all(vv.f(x) for x in s.facts.lits):
                        hit = 'the sequence %s' % list(w)
                        break
                except (wit.NoVal, KeyError):
                    continue
        else:
            ids = {x.args[0] for l in s.facts.lits for x in atoms_deep(l) if x.op == 'phi'}
            live = {x.id for x in sc.loops}
            if not ids <= live:
                continue
            qs = [x for x in sc.inner if x.id in ids]
            if len(qs) > 1:
                continue
            hit = sc.real(s, lambda *a: 'panics', qs[0] if qs else None) if q.id in ids else None
        if hit:
            o.rows.append(('bad', 'panic', '%s (%s): %s at %s for %s' % (sc.f.path, sc.f.span, p[0], p[1], hit), SAFE))
            break
    return o


def chain_ok(w, i, t, a, b):
    """from the border a of w[..i], b is a shorter border and none between them goes on"""
    if b > a or b < 0:
        return False
    if b == a:
        return False
    c = a
    while c > b:
        if w[c] == w[i]:
            return False
        c = t[c - 1] if c else -1
    return c == b


def task(crates, f, kind):
    sc = Scan(crates, f, kind)
    rows = returns(sc) if not sc.outer else []
    for q in sc.outer:
        if not any(isinstance(x, T) and is_arr(x) for x in q.phis.values()):
            rows += constant(sc, q)
        else:
            rows += treat(sc.take(q), kind)
    return rows


def returns(sc):
    """no loop on any path that returns"""
    o = Judge(sc)
    for w in WORDS:
        env = Val({M.atom(): len(w), S: list(w)})
        got = []
        try:
            for s, ret in sc.res:
                if s.unk:
                    raise wit.NoVal()
                if all(env.f(x) for x in s.facts.lits):
                    got.append(env.p(ret))
        except (wit.NoVal, KeyError):
            continue
        if not got:
            o.rows.append(('bad', 'returns', '%s (%s) never returns for the sequence %s' % (sc.f.path, sc.f.span, list(w)), SAFE))
            return o.rows
        if any(x != sc.true(w) for x in got):
            o.rows.append(('bad', 'constant', '%s (%s): the result for %s is %s' % (sc.f.path, sc.f.span, list(w), got[0]), WHOLE))
            return o.rows
    o.skip(WHOLE, 'no loop')
    return o.rows


def constant(sc, q):
    """a loop that writes nothing"""
    o = Judge(sc)
    for s, ret in sc.res:
        if not any(e[0] == 'loop' and find(sc.I, e[1]) is q for e in s.events()):
            continue
        hit = None
        for w in WORDS if not s.unk else ():
            for it in range(len(w) + 1):
                v = Val({M.atom(): len(w), S: list(w), q.it_atom: it})
                try:
                    if not hit and all(v.f(x) for x in s.facts.lits) and v.p(ret) != sc.true(w):
                        hit = 'the result for %s is %s' % (list(w), v.p(ret))
                except (wit.NoVal, KeyError):
                    continue
        if hit:
            o.rows.append(('bad', 'constant', '%s (%s): %s' % (sc.f.path, sc.f.span, hit), WHOLE))
            break
        o.skip(WHOLE, 'returns %s' % show(ret, 4))
    return o.rows


def treat(sc, kind):
    if kind == 'kmp':
        return judge(sc).rows
    ps = sc.scalars
    tried = []
    for roles in [(l, r, d) for l in (ps if len(ps) > 1 else [LO]) for r in ps if l is not r for d in (1, 0)] or [None]:
        o = judge(sc, roles)
        tried.append(o)
        if not o.fails:
            return o.rows
    return min(tried, key=lambda o: (o.fails, -sum(r[0] == 'bad' for r in o.rows))).rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        for n, kind in (('kmp', 'kmp'), ('z_function', 'z')):
            fs = [f for f in crates[0].fns.values() if f.name == n and f.body and len(f.inputs) == 1]
            if ctx.need(fs, n):
                tasks.append(('%s/%s' % (n, cfg), task, crates, fs[0], kind))
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 4, 'scans')
    ctx.assumptions += ['equality of elements is an equivalence that the same two elements always answer alike', 'at most 2^30 elements']
