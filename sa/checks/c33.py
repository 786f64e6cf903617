"""C33: greatest common divisors, Bezout coefficients, inverses and remainder systems, as linear invariants of every pass.

A pass of a Euclidean loop (or a call of itself) acts on a pair of integers as an integer matrix whose entries may contain
quotients, taken as opaque integers: determinant 1 or -1 keeps the gcd of the pair, and the same matrix acting on the
coefficients keeps `value = coefficient * argument` modulo the other argument.  All identities are between polynomials, so
they hold for every quotient.  Alarm: a rule that fails AND small arguments on which the abstract paths, followed with these
arguments, end in a wrong result."""
import itertools
import math
from graph import *
from residue import *
from checks.c32 import Val
from checks.c09 import cong

PAIR = 'a pass keeps the gcd of the pair it works on'
SHRINK = 'a pass hands on a remainder of the pair'
LAST = 'the value left over when the other one is zero is returned'
SIGN = 'the gcd of numbers that are not negative is not negative'
LCM = 'the least common multiple is the product over the gcd'
COEF = 'the coefficients returned combine the arguments to the gcd'
RANGE = 'the inverse lies between zero and the reduced modulus'
REDUCE = 'a reduction differs from the number by a multiple of the modulus'
INSIDE = 'a reduced number lies between zero and the modulus'
SOLVE = 'a step makes the next congruence hold'
KEEP = 'a step moves by multiples of the step reached so far'
STEP = 'the new step is the old one times the part of the modulus that is new'
NONE = 'no solution is reported exactly when the gcd does not divide the difference'
FINAL = 'the answer is reduced modulo the final step'
BEGIN = 'the solver starts with every integer'
INV = 'an inverse is the coefficient found by the gcd, or the power the prime asks for'
EXIST = 'no inverse is given exactly when the gcd is not one'

I64 = ('int', 'i64')
DIV = ('tdiv', 'quot')
REM = {'trem': 'tdiv', 'rem': 'quot'}


# ------------------------------------------------------------------ polynomials over opaque quotients
def fits(x, ty):
    """the value of x fits because of its form: remainders and quotients of values of the type"""
    return all(a.op in REM or a.op in DIV or TY.get(a) == ty or a.op in ('sym', 'phi', 'sel', 'cst') for a in x.atoms()) and len(x.t) <= 1


def expand(p):
    """remainders written with the quotient; quotients are left alone"""
    p = as_poly(p)
    out = P(0)
    for mono, c in p.t:
        q = P(c)
        for a in mono:
            if a.op in REM:
                x, y = expand(a.args[0]), expand(a.args[1])
                q = q * (x - y * P(mk(REM[a.op], a.args[0], a.args[1])))
            elif a.op == 'wrap' and (a.args[1] in ('i128', 'u128') or fits(as_poly(a.args[0]), a.args[1])):
                q = q * expand(a.args[0])
            else:
                q = q * P(a)
        out = out + q
    return out


def split(p, x, y):
    """(c, d) with p = c x + d y; the atoms x and y do not occur in c, d outside quotients"""
    c, d = P(0), P(0)
    for mono, k in expand(p).t:
        n = [a for a in mono if a is x or a is y]
        if len(n) != 1:
            return None
        r = P(k)
        hit = False
        for a in mono:
            if a is n[0] and not hit:
                hit = True
            else:
                r = r * P(a)
        if n[0] is x:
            c = c + r
        else:
            d = d + r
    return c, d


def unimodular(u, v):
    d = u[0] * v[1] - u[1] * v[0]
    return d == P(1) or d == P(-1)


def opaque(p, tab):
    """quotients replaced by symbols"""
    return subst_top(expand(p), lambda a: P(tab.setdefault(a, mk('sym', '?q%d' % len(tab), '?'))) if a.op in DIV else None)


def subst_top(p, f):
    out = P(0)
    for mono, k in as_poly(p).t:
        r = P(k)
        for a in mono:
            y = f(a)
            r = r * (P(a) if y is None else y)
        out = out + r
    return out


def multiple(p, *fs):
    """every monomial of p has one of the groups of factors"""
    for mono, k in p.t:
        if not any(has(list(mono), f) for f in fs):
            return False
    return True


def has(mono, f):
    for a in f:
        if a not in mono:
            return False
        mono.remove(a)
    return True


WIDE = ('i64', 'i128', 'u64', 'u128', 'usize', 'isize')


def plain(x):
    """the value without conversions to wide types: exact when nothing leaves the type (shown or assumed where it is used)"""
    if isinstance(x, Poly):
        return subst_top(x, lambda a: as_poly(plain(a)))
    if not isinstance(x, T):
        return tuple(map(plain, x)) if isinstance(x, tuple) else x
    if x.op == 'wrap' and x.args[1] in WIDE:
        return plain(x.args[0])
    if x.op in ('ge0', 'eq0'):
        return (ge if x.op == 'ge0' else eq)(plain(x.args[0]), 0)
    if x.op == 'not':
        return b_not(plain(x.args[0]))
    if x.op in ('and', 'or'):
        return (b_and if x.op == 'and' else b_or)(*map(plain, x.args))
    if x.op in ('tdiv', 'trem', 'quot', 'rem', 'sel', 'agg', 'wrap'):
        return mk(x.op, *map(plain, x.args))
    return x


def plain_state(s):
    r = State()
    r.mem, r.unk = s.mem, s.unk
    for e in s.events():
        r.event(*((e[0], e[1], plain(e[2]), plain(e[3])) + e[4:] if e[0] == 'call' else e))
    r.assume(*map(plain, s.facts.lits))
    return r


def left(s):
    """something has left its type on this path (release: it wraps; debug: such paths end in a panic)"""
    def out(l):
        if l.op == 'ge0':
            return sum(c for m, c in l.args[0].t if not m) <= -(1 << 63) and any(m for m, c in l.args[0].t)
        return l.op == 'or' and all(map(out, l.args))
    return any(map(out, s.facts.lits))


# ------------------------------------------------------------------ one function
class Fun:
    """a function of integers, calls of itself and of functions under contract replaced by fresh results"""
    def __init__(self, crates, f, args, facts, env=None, under=(), st=None, split_rem=True, exact=False):
        self.f, self.args = f, args
        H = NoResidues()
        H.split_rem = split_rem
        self.I = I = AI(crates, H)
        n = [0]

        def spec_for(fn):
            def spec(I, fr, s, a, span, dty):
                n[0] += 1
                ty = I.norm_ty(ty_subst(fn.output, env or {}), env or {})
                ts = ty[1] if ty[0] == 'tuple' else (ty,)
                vs = [P(sym('%s%d.%d' % (fn.name, n[0], k), I64[1])) for k in range(len(ts))]
                s2 = s.copy()
                s2.event('call', fn.name, tuple(a), tuple(vs), span)
                return [(s2, AGG('tuple', 0, *vs) if ty[0] == 'tuple' else vs[0])]
            return spec
        for g in [f] + list(under):
            I.spec_fn[g.path] = spec_for(g)
        s0 = st or State()
        s0.assume(*facts)
        self.res, _ = call(I, f.path, s0, args, env)
        self.loops = [find(I, q) for q in used_loops([s for s, v in self.res])]
        if exact:
            self.res = [(plain_state(s), plain(v)) for s, v in self.res if not left(s)]
            for q in self.loops:
                q.phis = {p: plain(x) for p, x in q.phis.items()}
                q.backs = [(plain_state(s), {p: plain(x) for p, x in b.items()}) for s, b in q.backs if not left(s)]
                q.entry = plain_state(q.entry)

    def loop_of(self, s):
        return [find(self.I, e[1]) for e in s.events() if e[0] == 'loop']

    def calls(self, s):
        return [e for e in s.events() if e[0] == 'call']

    # ------------------------------------------------------------ following the paths with numbers
    def value(self, v, x):
        if isinstance(x, T) and x.op == 'agg':
            if x.args[0] == 'tuple':
                return tuple(self.value(v, y) for y in x.args[2:])
            if x.args[1] == 0:
                return None
            return self.value(v, x.args[2])
        return v.p(x)

    def holds(self, s, env, final):
        v = Val(env)
        for l in s.facts.lits:
            try:
                if not v.f(l):
                    return False
            except (wit.NoVal, KeyError):
                if final:
                    return False
        return True

    def advance(self, s, env, calls, depth):
        """the values after the loops and calls of a path, None when it is not taken"""
        if s.unk or not self.holds(s, env, False):
            return None
        done = set()
        for e in s.events():
            if e[0] == 'call':
                if e[3][0].atom() in env:
                    continue
                try:
                    a = [Val(env).p(x) for x in e[2]]
                except (wit.NoVal, KeyError):
                    return None
                r = calls(e[1], a, depth + 1)
                if r is None:
                    return None
                env.update({x.atom(): y for x, y in zip(e[3], r if isinstance(r, tuple) else (r,))})
            elif e[0] == 'loop':
                q = find(self.I, e[1])
                if q.it_atom in env:
                    continue
                env.update(self.loop(q, env, calls, depth))
            if not self.holds(s, env, False):
                return None
        return env if self.holds(s, env, True) else None

    def loop(self, q, env, calls, depth):
        v = Val(env)
        cur = {q.it_atom: 0}
        cur.update({p: self.value(v, x) if not (isinstance(x, T) and is_arr(x)) else v.t(x) for p, x in q.phis.items() if p is not q.it_atom})
        for _ in range(200):
            for s, b in q.backs:
                e = self.advance(s, {**env, **cur}, calls, depth)
                if e is None:
                    continue
                v = Val(e)
                nxt = {p: v.p(b[p]) if p in b and b[p] is not p else cur[p] for p in cur if p is not q.it_atom}
                nxt[q.it_atom] = cur[q.it_atom] + 1
                cur = nxt
                break
            else:
                return cur
        raise Endless()

    def follow(self, vals, calls, depth=0):
        """the result for these arguments: ('ret', value), ('panic', where) or None"""
        if depth > 60:
            raise Endless()
        env = {}
        for x, y in zip(self.args, vals):
            env[x.atom() if isinstance(x, Poly) else x] = y
        try:
            for s, v in self.res:
                e = self.advance(s, dict(env), calls, depth)
                if e is not None:
                    return 'ret', self.value(Val(e), v)
            for p in self.I.panics:
                st = p[3]
                if isinstance(st, State):
                    en = dict(env)
                    # a panic inside a pass: the loop is followed up to the pass that does not go on
                    read = {x for l in st.facts.lits for x in atoms_deep(l)}
                    gone = self.loop_of(st)
                    for q in self.loops:
                        if q not in gone and (q.it_atom in read or any(x in read for x in q.phis)) and self.holds(q.entry, en, False):
                            en.update(self.loop(q, en, calls, depth))
                    e = self.advance(st, en, calls, depth)
                    if e is not None:
                        return 'panic', str(p[1])
        except (wit.NoVal, KeyError, TypeError, IndexError, ZeroDivisionError):
            return None
        return None


class Endless(Exception):
    pass


class Judge(Out):
    def __init__(self, fun, name, samples, wrong, calls=None):
        Out.__init__(self, fun.f, name)
        self.fun, self.samples, self.wrongly, self.seen = fun, samples, wrong, False
        self.calls = calls or self.itself
        self.rows += [('an', 'paths', len(fun.res) + sum(len(q.backs) for q in fun.loops)), ('an', 'loops', len(fun.loops))]

    def itself(self, name, a, depth):
        if name != self.fun.f.name:
            return None
        r = self.fun.follow(a, self.calls, depth)
        return r[1] if r and r[0] == 'ret' else None

    def example(self):
        if self.seen is False:
            self.seen = None
            for vals in self.samples:
                try:
                    r = self.fun.follow(vals, self.calls)
                    if r is None:
                        continue
                    w = 'it panics (%s)' % r[1] if r[0] == 'panic' else self.wrongly(vals, r[1])
                except Endless:
                    w = 'it does not end'
                if w:
                    self.seen = 'for the arguments %s %s' % (', '.join(map(str, vals)), w)
                    break
        return self.seen

    def no(self, rule, key, text):
        x = self.example()
        if x:
            if key not in self.hit:
                self.hit.add(key)
                self.rows.append(('bad', key, '%s (%s): %s\n%s' % (self.f.path, self.f.span, text, x), rule))
        else:
            self.rows.append(('skip', rule, self.nm, text))

    def need(self, cond, rule, key, text):
        if cond:
            self.ok(rule)
        else:
            self.no(rule, key, text)
        return cond


def nonneg(x, given):
    """x is not negative because it is given or a remainder of something given"""
    x = as_poly(x)
    if x.const() is not None:
        return x.const() >= 0
    a = x.atom()
    if a is None:
        return any(remainder_plus(x, u, w) for u in given for w in given if u is not w)
    return a in given or a.op == 'rem' or a.op == 'trem' and nonneg(a.args[0], given)


def remainder_of(p, x, y):
    """p is what is left of x divided by y, possibly with the other sign"""
    p = expand(p)
    for o in DIV:
        for u, su in ((P(x), 1), (-P(x), -1)):
            for w, sw in ((P(y), 1), (-P(y), -1)):
                t = expand(mk('trem' if o == 'tdiv' else 'rem', u, w))
                if p == t or p == -t:
                    return True
    return False


class Euclid:
    """the pair of integers whose gcd is asked for, along every path"""
    def __init__(self, o, fun, a, b):
        self.o, self.fun, self.a, self.b = o, fun, a, b
        self.pairs = {}
        for q in fun.loops:
            self.pairs[q] = self.pair(q)

    def pair(self, q):
        """(x, y): phis, y the one that becomes zero"""
        o = self.o
        ps = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom]
        best = None
        for x, y in itertools.permutations(ps, 2):
            exits = [s for s, v in self.fun.res if q in self.fun.loop_of(s)]
            if not exits or not all(s.facts.entails(eq(P(y), 0)) for s in exits):
                continue
            e = [split(q.phis[z], self.a.atom(), self.b.atom()) for z in (x, y)]
            if None in e or not unimodular(*e):
                best = best or (x, y, None)
                continue
            best = (x, y, e)
            break
        if best is None:
            o.no(PAIR, 'pair', 'no pair of integers one of which is zero in the end, among %s' % [show(p) for p in ps])
            return None
        x, y, e = best
        if not o.need(e is not None, PAIR, 'entry', 'the loop begins with %s and %s' % (show(q.phis[x], 5), show(q.phis[y], 5))):
            return None
        fine = True
        for s, b in q.backs:
            u = [split(b.get(z, P(z)), x, y) for z in (x, y)]
            if not o.need(None not in u and unimodular(*u), PAIR, 'pass', 'a pass makes %s, %s of %s, %s' % (show(b.get(x, P(x)), 5), show(b.get(y, P(y)), 5), show(x), show(y))):
                fine = False
                continue
            last = b.get(y, P(y))
            if remainder_of(last, x, y) and as_poly(b.get(x, P(x))) in (P(y), -P(y)):
                o.ok(SHRINK)
            else:
                o.no(SHRINK, 'shrink', 'the next pair is %s, %s' % (show(b.get(x, P(x)), 5), show(last, 5)))
        return (x, y) if fine else None

    def nonneg(self, s, g):
        """the value is not negative when the arguments are not"""
        given = {self.a.atom(), self.b.atom()}
        for q in self.fun.loop_of(s):
            if q not in self.pairs or not self.pairs[q]:
                return False
            ps = set(self.pairs[q])
            if not all(nonneg(q.phis[p], given) for p in ps):
                return False
            if not all(nonneg(b.get(p, P(p)), ps | given) for st, b in q.backs for p in ps):
                return False
            given = given | ps
        for e in self.fun.calls(s):
            if not all(nonneg(x, given) for x in e[2][:2]):
                return False
            given = given | {e[3][-1].atom()}
        return nonneg(g, given)

    def gcd(self, s):
        """the integers that are the gcd on this path (up to sign)"""
        F = s.facts
        x, y = self.a.atom(), self.b.atom()
        qs, cs = self.fun.loop_of(s), self.fun.calls(s)
        if len(qs) + len(cs) > 1:
            return None
        if qs:
            p = self.pairs.get(qs[0])
            if not p:
                return None
            x, y = p
            return [P(x)] if F.entails(eq(P(y), 0)) else [P(y)] if F.entails(eq(P(x), 0)) else None
        if cs:
            u = [split(z, x, y) for z in cs[0][2][:2]]
            if None in u or not unimodular(*u):
                self.o.no(PAIR, 'call', 'the call of itself gets %s, %s' % (show(cs[0][2][0], 5), show(cs[0][2][1], 5)))
                return None
            self.o.ok(PAIR)
            p, q = cs[0][2][:2]
            if as_poly(p) == P(y) and remainder_of(q, x, y):
                self.o.ok(SHRINK)
            else:
                self.o.no(SHRINK, 'shrink', 'the next pair is %s, %s' % (show(p, 5), show(q, 5)))
            return [cs[0][3][-1]]
        out = []
        if F.entails(eq(P(x), 0)):
            out.append(P(y))
        if F.entails(eq(P(y), 0)):
            out.append(P(x))
        for l in F.lits:
            if l.op == 'eq0':
                u = split(l.args[0], x, y)
                if u and u[0] in (P(1), P(-1)):
                    out.append(P(y))
                if u and u[1] in (P(1), P(-1)):
                    out.append(P(x))
        if F.entails(eq(P(x), P(y))) or F.entails(eq(P(x), -P(y))):
            out += [P(x), P(y)]
        return out or None


def is_gcd(G, g, F):
    return any(g == x or g == -x or F.entails(eq(g, x)) or F.entails(eq(g, -x)) for x in G)


def up(v):
    return v.args[2:] if isinstance(v, T) and v.op == 'agg' and v.args[0] == 'tuple' else None


# ------------------------------------------------------------------ gcd, lcm
SMALL = [(x, y) for x in range(0, 13) for y in range(0, 13)] + [(252, 105), (987, 610), (1 << 20, 1000), (999999, 123456), (17, 17 * 19), (1 << 40, 3 << 39)]
SIGNED = SMALL + [(x, y) for x in range(-9, 10) for y in range(-9, 10)]


def two(f, ty):
    nm = arg_names(f)
    return [P(sym(nm[0], ty)), P(sym(nm[1], ty))]


def gcd_task(crates, f, ty):
    a, b = two(f, ty)
    facts = [] if ty[0] == 'i' else [ge(a, 0), ge(b, 0)]
    fun = Fun(crates, f, [a, b], facts, {'T': ('int', ty)})
    wrong = lambda v, r: None if abs(r) == math.gcd(*v) and (r >= 0 or min(v) < 0) else 'the result is %s' % (r,)
    o = Judge(fun, 'gcd/' + ty, SIGNED if ty[0] == 'i' else SMALL, wrong)
    E = Euclid(o, fun, a, b)
    for s, v in fun.res:
        G = E.gcd(s)
        if s.unk or G is None:
            o.no(LAST, 'last', 'what the gcd is under %s' % s.facts)
            continue
        if o.need(is_gcd(G, v, s.facts), LAST, 'last', 'returns %s under %s' % (show(v, 5), s.facts)):
            o.need(E.nonneg(s, v), SIGN, 'sign', 'the sign of %s' % show(v, 5))
    return o.rows


def lcm_task(crates, f, ty):
    a, b = two(f, ty)
    fun = Fun(crates, f, [a, b], [b_or(b_not(eq(a, 0)), b_not(eq(b, 0)))] + ([] if ty[0] == 'i' else [ge(a, 0), ge(b, 0)]), {'T': ('int', ty)})
    wrong = lambda v, r: None if abs(r) == math.lcm(*v) else 'the result is %s' % (r,)
    sam = [x for x in SMALL if x != (0, 0) and x[0] * x[1] < 1 << 31]
    o = Judge(fun, 'lcm/' + ty, sam, wrong)
    E = Euclid(o, fun, a, b)
    for s, v in fun.res:
        if s.facts.entails(eq(v, 0)) and (s.facts.entails(eq(a, 0)) or s.facts.entails(eq(b, 0))):
            o.ok(LCM)
            continue
        G = E.gcd(s)
        if s.unk or G is None:
            o.no(LCM, 'lcm', 'what the gcd is under %s' % s.facts)
            continue
        good = []
        for g in G:
            for d in DIV:
                for n, k in ((a * b, P(1)), (a, b), (b, a)):
                    t = mk(d, n, g)
                    good += [k * P(t), -k * P(t)]
        o.need(any(v == x for x in good), LCM, 'lcm', 'returns %s' % show(v, 5))
    return o.rows


# ------------------------------------------------------------------ Bezout coefficients
def lin(p, m):
    """p with the loop values replaced, quotients opaque"""
    tab = {}
    return subst_top(opaque(p, tab), lambda a: m.get(a))


def coef_loop(q, pair, a, b, kind):
    """{value phi: (coefficients)} kept by every pass; kind 'both': value = X a + Y b; 'mod': value = X a modulo b"""
    ps = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom and p not in pair]
    n = 4 if kind == 'both' else 2
    for c in itertools.permutations(ps, n):
        X = {pair[0]: c[0], pair[1]: c[1]}
        Y = {pair[0]: c[2], pair[1]: c[3]} if kind == 'both' else None

        def rel(vals):
            """the relation between the values for the pair"""
            for r in pair:
                m = {z: P(X[z]) * a + (P(Y[z]) if Y else P(mk('sym', '?k' + show(z), '?'))) * b for z in pair}
                e = lin(vals(r), m) - lin(vals(X[r]), m) * a - (lin(vals(Y[r]), m) * b if Y else P(0))
                if Y and not e == P(0) or not Y and not multiple(e, [b.atom()]):
                    return False
            return True
        if rel(lambda p: q.phis[p]) and all(rel(lambda p: bd.get(p, P(p))) for s, bd in q.backs):
            return X, Y
    return None


def bezout(o, E, s, G, x, y, a, b, kind):
    """x a + y b = G (y None: modulo b) on this path"""
    fun = E.fun
    m = {}
    qs, cs = fun.loop_of(s), fun.calls(s)
    if qs:
        c = coef_loop(qs[0], E.pairs[qs[0]], a, b, kind)
        if c is None:
            return False
        X, Y = c
        for z in E.pairs[qs[0]]:
            m[z] = P(X[z]) * a + (P(Y[z]) if Y else P(mk('sym', '?k' + show(z), '?'))) * b
    if cs:
        e = cs[0]
        m[e[3][-1].atom()] = expand(e[2][0]) * e[3][0] + expand(e[2][1]) * e[3][1]
    # multiples of b / g added to a coefficient change x a by a multiple of b
    drop = {mk(d, n, sg * g) for d in DIV for n in (b,) for g in [as_poly(G)] for sg in (1, -1)} if y is None else set()
    x = subst_top(as_poly(x), lambda t: P(0) if t in drop else None)
    tab = {}
    f = lambda p: subst_top(opaque(p, tab), lambda t: opaque(m[t], tab) if t in m else None)
    e = f(G) - f(x) * a - (f(y) * b if y is not None else P(0))
    F = s.facts
    for z in (a, b):
        if F.entails(eq(z, 0)):
            e = subst_top(e, lambda t: P(0) if t is z.atom() else None)
    if y is None:
        if multiple(e, [b.atom()]):
            return True
        for l in F.lits:
            if l.op == 'eq0':
                u = split(l.args[0], a.atom(), b.atom())
                if u and u[0] in (P(1), P(-1)) and multiple(subst_top(e, lambda t: P(0) if t is a.atom() else None), [b.atom()]):
                    return True
        return False
    return e == P(0)


def bez_task(crates, f, ty):
    a, b = two(f, ty)
    fun = Fun(crates, f, [a, b], [], {'T': ('int', ty)}, split_rem=False)

    def wrong(v, r):
        x, y, g = r
        if abs(g) != math.gcd(*v) or g < 0 and min(v) >= 0 or x * v[0] + y * v[1] != g:
            return 'the result is %s' % (r,)
    o = Judge(fun, 'ex_gcd/' + ty, SIGNED, wrong)
    E = Euclid(o, fun, a, b)
    for s, v in fun.res:
        G, r = E.gcd(s), up(v)
        if s.unk or G is None or not r or len(r) != 3:
            o.no(LAST, 'last', 'what the gcd is under %s (%s)' % (s.facts, s.unk))
            continue
        if o.need(is_gcd(G, r[2], s.facts), LAST, 'last', 'returns %s as the gcd under %s' % (show(r[2], 5), s.facts)):
            o.need(E.nonneg(s, r[2]), SIGN, 'sign', 'the sign of %s' % show(r[2], 5))
        o.need(bezout(o, E, s, r[2], r[0], r[1], a, b, 'both'), COEF, 'coef', 'returns the coefficients %s, %s for %s under %s' % (show(r[0], 5), show(r[1], 5), show(r[2], 5), s.facts))
    return o.rows


# ------------------------------------------------------------------ inverse modulo b
INVS = [(x, y) for y in range(1, 25) for x in range(-2, 26)] + [(-17, 12), (3, 998244353), (998244352, 998244353), (1 << 31, 1000000007), ((1 << 63) - 1, (1 << 62) - 1), (-(1 << 63), (1 << 63) - 1), (6, 1 << 62), (832040, 1346269), (4, 2147483646)]


def inv_wrong(v, r):
    a, b = v
    g, x = r
    t = math.gcd(a, b)
    if g != t or not 0 <= x < b // t or (x * a - g) % b:
        return 'the result is %s' % (r,)


def inv_task(crates, f):
    a, b = two(f, 'i64')
    fun = Fun(crates, f, [a, b], [ge(b, 1), le(b, (1 << 63) - 1), ge(a, -(1 << 63)), le(a, (1 << 63) - 1)], exact=True)
    o = Judge(fun, 'inv_gcd', INVS, inv_wrong)
    E = Euclid(o, fun, a, b)
    for s, v in fun.res:
        G, r = E.gcd(s), up(v)
        if s.unk or G is None or not r or len(r) != 2:
            o.no(LAST, 'last', 'what the gcd is under %s (%s)' % (s.facts, s.unk))
            continue
        g, x = r
        o.need(is_gcd(G, g, s.facts) and (plain_sign(E, s, g, a, b)), LAST, 'last', 'returns %s as the gcd under %s' % (show(g, 5), s.facts))
        o.need(bezout(o, E, s, g, x, None, a, b, 'mod'), COEF, 'coef', 'returns the coefficient %s under %s' % (show(x, 5), s.facts))
        why = range_of(E, s, g, x, a, b)
        o.need(why is None, RANGE, 'range', why)
    return o.rows


def reduced(p, a, b, F):
    """p is a modulo b, between zero and b"""
    u = split(p, a.atom(), b.atom())
    if u is None or u[0] != P(1):
        return False
    F = F.copy()
    for t in atoms_deep(p):
        if t.op == 'trem' and as_poly(t.args[1]) == b:
            F.assume(le(P(t), b - 1), ge(P(t), 1 - b)) if hasattr(F, 'assume') else F.add(le(P(t), b - 1))
    return F.entails(ge(p, 0)) and F.entails(lt(p, b))


def facts_with(s, ps, b):
    """the facts of a path, with the ranges of the remainders by b"""
    s = s.copy()
    for p in ps:
        for t in atoms_deep(p) if isinstance(p, (Poly, T)) else ():
            if t.op in ('trem', 'rem') and as_poly(t.args[1]) == b:
                s.assume(le(P(t), b - 1), ge(P(t), 1 - b if t.op == 'trem' else P(0)))
    return s.facts


def plain_sign(E, s, g, a, b):
    """g is positive: b, or what is left of a pair of remainders"""
    g = as_poly(g)
    if g == b:
        return True
    for q in E.fun.loop_of(s):
        p = E.pairs.get(q)
        if p and g in (P(p[0]), P(p[1])):
            F = facts_with(q.entry, [q.phis[p[0]], q.phis[p[1]]], b)
            return all(F.entails(ge(q.phis[z], 0)) for z in p) and all(nonneg_pass(bd.get(z, P(z)), p) for st, bd in q.backs for z in p)
    return s.facts.entails(ge(g, 0))


def nonneg_pass(x, p):
    x = as_poly(x)
    return x in (P(p[0]), P(p[1])) or remainder_plus(x, p[0], p[1])


def remainder_plus(v, x, y):
    v = expand(v)
    return any(v == expand(mk(o, P(x), P(y))) for o in ('trem', 'rem'))


def range_of(E, s, g, x, a, b):
    """None when 0 <= x < b / g by the shape of the coefficients:
    s = b, t = a mod b with coefficients 0, 1 and every pass (s, t, X, Y) -> (t, s - u t, Y, X - u Y), u = s / t >= 1, gives
    coefficients of opposite signs with s |Y| + t |X| = b, and |X| < |Y| = b / g in the end"""
    x = as_poly(x)
    qs = E.fun.loop_of(s)
    if not qs:
        return None if x == P(0) and as_poly(g) == b else 'the coefficient %s' % show(x, 5)
    q = qs[0]
    p = E.pairs.get(q)
    c = p and coef_loop(q, p, a, b, 'mod')
    if not c:
        return 'the coefficients of the pair'
    X = c[0]
    F = facts_with(q.entry, [q.phis[z] for z in p], b)
    if not (as_poly(q.phis[p[0]]) == b and F.entails(ge(q.phis[p[1]], 0)) and F.entails(lt(q.phis[p[1]], b)) and as_poly(q.phis[X[p[0]]]) == P(0) and as_poly(q.phis[X[p[1]]]) == P(1)):
        return 'the loop begins with %s' % [show(z, 5) for z in q.phis.values()]
    for st, bd in q.backs:
        us = [P(mk(o, P(p[0]), P(p[1]))) for o in DIV]
        if not any(as_poly(bd.get(p[0], P(p[0]))) == P(p[1]) and expand(bd.get(p[1], P(p[1]))) == P(p[0]) - u * P(p[1])
                   and as_poly(bd.get(X[p[0]], P(X[p[0]]))) == P(X[p[1]]) and expand(bd.get(X[p[1]], P(X[p[1]]))) == P(X[p[0]]) - u * P(X[p[1]]) for u in us):
            return 'a pass makes %s' % [show(z, 5) for z in bd.values()]
    c0 = P(X[p[0]])
    if x == c0:
        return None if s.facts.entails(ge(c0, 0)) else 'the coefficient %s may be negative' % show(x, 5)
    if any(x == c0 + P(mk(o, b, P(p[0]))) for o in DIV):
        return None if s.facts.entails(lt(c0, 0)) else 'the coefficient %s may be too large' % show(x, 5)
    return 'the coefficient %s' % show(x, 5)


# ------------------------------------------------------------------ reduction
def mod_task(crates, f):
    x, m = two(f, 'i64')
    fun = Fun(crates, f, [x, m], [ge(m, 1), le(m, (1 << 63) - 1), ge(x, -(1 << 63)), le(x, (1 << 63) - 1)])
    o = Judge(fun, f.name, INVS, lambda v, r: None if r == v[0] % v[1] else 'the result is %s' % (r,))
    for s, v in fun.res:
        if s.unk or not isinstance(v, Poly):
            o.no(REDUCE, 'reduce', 'returns %s (%s)' % (show(v), s.unk))
            continue
        e = expand(v) - x
        F = facts_with(s, [v] + list(s.facts.lits), m)
        o.need(multiple(e, [m.atom()]) or F.entails(eq(rem(v - x, m), 0)) or F.entails(eq(v, x)), REDUCE, 'reduce', 'returns %s under %s' % (show(v), s.facts))
        o.need(F.entails(ge(v, 0)) and F.entails(lt(v, m)), INSIDE, 'inside', 'returns %s under %s' % (show(v), s.facts))
    return o.rows


# ------------------------------------------------------------------ systems of congruences
def egcd(a, b):
    if b == 0:
        return 1, 0, a
    x, y, g = egcd(b, a - wit.tdiv(a, b) * b)
    return y, x - wit.tdiv(a, b) * y, g


def crt(A, B, M):
    L = 1
    for m in M:
        L = math.lcm(L, m)
    sols = [x for x in range(L) if all((a * x - b) % m == 0 for a, b, m in zip(A, B, M))]
    if not sols:
        return None
    step = sols[1] - sols[0] if len(sols) > 1 else L
    return sols[0], step


SYSTEMS = [([], [], [])] + [([a], [b], [m]) for m in range(1, 9) for a in range(0, 7) for b in range(-3, 13)] + \
    [([a, c], [b, d], [m, n]) for m, n in ((2, 3), (4, 6), (6, 4), (6, 9), (5, 5), (1, 7), (8, 12)) for a, c in ((1, 1), (2, 1), (1, 3), (2, 4), (0, 1), (1, 0)) for b in (0, 1, 4) for d in (0, 2, 5, -1)] + \
    [([1, 1, 1], [2, 3, 2], [3, 5, 7]), ([1, 1, 1], [1, 3, 5], [4, 6, 8]), ([2, 3, 4], [2, 6, 4], [6, 9, 10]), ([1, 1, 1], [5, 11, 3], [6, 12, 7]), ([3, 1, 5], [6, 2, 10], [9, 4, 15]), ([1] * 5, [3, 1, 7, 7, 7], [4, 6, 9, 10, 15]), ([1, 3, 1, 1, 7, 1], [1, 3, 6, 1, 7, 11], [2, 4, 5, 10, 3, 15])]


def crt_task(crates, f):
    nm = arg_names(f)
    n = P(sym('n', 'usize'))
    st = State()
    arrs, args = [], []
    for x in nm:
        arrs.append(mk('carr', '*' + x, n))
        st.mem[('obj', x)] = arrs[-1]
        args.append(ref(('obj', x)))
    bez = [g for g in crates[0].fns.values() if g.name == 'ex_gcd' and g.body]
    fun = Fun(crates, f, args, [ge(n, 0), le(n, MAXN)], under=bez, st=st, split_rem=False, exact=True)
    fun.args = arrs + [n]

    def calls(name, a, depth):
        return egcd(*a) if name == 'ex_gcd' else None
    wrong = lambda v, r: None if r == crt(*v[:3]) else 'the result is %s' % (r,)
    o = Judge(fun, 'ex_crt', [(list(a), list(b), list(m), len(a)) for a, b, m in SYSTEMS], wrong, calls)
    A, B, M = arrs
    if len(fun.loops) != 1:
        o.no(SOLVE, 'loops', '%d loops' % len(fun.loops))
        return o.rows
    q = fun.loops[0]
    for p in fun.I.panics:
        if not p[0].startswith(('overflow', 'rem0', 'div0')):
            o.no(SOLVE, 'panics', 'panics (%s at %s)' % (p[0], p[1]))
    if not any(isinstance(v, T) and v.op == 'agg' and len(v.args) > 2 for s, v in fun.res):
        o.no(FINAL, 'never', 'a solution is returned on no path')
    ps = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom]
    best = None
    for x, L in itertools.permutations(ps, 2):
        rows = solver(o, fun, q, x, L, A, B, M, n)
        if best is None or sum(not r[0] for r in rows) < sum(not r[0] for r in best):
            best = rows
    if best is None:
        o.no(SOLVE, 'solution', 'the solution so far among %s' % [show(p) for p in ps])
    for c, rule, key, text in best or ():
        o.need(c, rule, key, text)
    return o.rows


def solver(o, fun, q, x, L, A, B, M, n):
    """[(holds, rule, key, text)] for x the solution so far and L its step"""
    out = []
    i = q.it
    a, b, m = (mk('sel', z, i) for z in (A, B, M))
    out.append((as_poly(q.phis[L]) == P(1) and as_poly(q.phis[x]) == P(0), BEGIN, 'begin', 'the solver starts with %s, step %s' % (show(q.phis[x]), show(q.phis[L]))))
    for s, v in fun.res:
        r = v.args[2] if isinstance(v, T) and v.op == 'agg' and len(v.args) > 2 else None
        cs = fun.calls(s)
        if r is None:
            t = gcd_call(cs, a, L, m)
            ok = False
            if t and not s.unk:
                d = P(b) - P(a) * P(x)
                ok = any(F_no(s, mk(o_, k * d, k2 * t[2])) for o_ in REM for k in (1, -1) for k2 in (1, -1))
            out.append((ok, NONE, 'none', 'reports no solution under %s' % s.facts))
        else:
            v, step = up(r) or (None, None)
            ok = not s.unk and isinstance(step, Poly) and step == P(L) and s.facts.entails(ge(i, n))
            out.append((ok, FINAL, 'step', 'returns the step %s under %s' % (show(step, 5), s.facts)))
            F = s.copy()
            F.assume(ge(P(L), 1), lt(P(x), P(L)), lt(-P(x), P(L)))
            v = as_poly(v) if v is not None else P(0)
            for t in atoms_deep(v):
                if t.op == 'trem' and as_poly(t.args[1]) == P(L):
                    F.assume(lt(P(t), P(L)), lt(-P(t), P(L)))
                    if F.facts.entails(ge(t.args[0], 0)):
                        F.assume(ge(P(t), 0))
                elif t.op == 'rem' and as_poly(t.args[1]) == P(L):
                    F.assume(lt(P(t), P(L)), ge(P(t), 0))
            e = expand(v) - P(x)
            ok = ok and multiple(e, [L]) and F.facts.entails(ge(v, 0)) and F.facts.entails(lt(v, P(L)))
            out.append((ok, FINAL, 'answer', 'returns %s under %s' % (show(v, 5), s.facts)))
    for s, bd in q.backs:
        cs = fun.calls(s)
        t = gcd_call(cs, a, L, m)
        nx, nl = as_poly(bd.get(x, P(x))), as_poly(bd.get(L, P(L)))
        if t is None or s.unk:
            out.append((False, SOLVE, 'solve', 'a pass asks for the gcd of %s (%s)' % ([[show(z, 5) for z in c[2]] for c in cs], s.unk)))
            continue
        y, w, g, swap = t
        d = P(b) - P(a) * P(x)
        yes = [mk(o_, k * d, k2 * g) for o_ in REM for k in (1, -1) for k2 in (1, -1)]
        out.append((any(s.facts.entails(eq(P(z), 0)) for z in yes), NONE, 'goes on', 'goes on under %s' % s.facts))
        mp, bp, al = (mk('sym', '?' + z, '?') for z in ("m'", "b'", 'alpha'))
        tab = {}
        for o_ in DIV:
            tab[mk(o_, P(m), g)] = mp
            tab[mk(o_, d, g)] = bp

        def conv(p):
            """quotients by the gcd named; remainders by the new part written with a quotient"""
            def f(t_):
                if t_ in tab:
                    return P(tab[t_])
                if t_.op == 'wrap' and (t_.args[1] in ('i128', 'u128') or t_.args[1] == 'i64' and fits(as_poly(t_.args[0]), 'i64')):
                    return conv(t_.args[0])
                if t_.op in REM:
                    z, k = conv(t_.args[0]), conv(t_.args[1])
                    u = mk('sym', '?u%d' % t_.id, '?')
                    rng.append((t_, k))
                    return z - k * P(u)
                return None
            return subst_top(p, f)
        rng = []
        cx, cl = conv(nx), conv(nl)
        out.append((cl == P(L) * P(mp), STEP, 'step', 'the step becomes %s' % show(nl, 6)))
        move = cx - P(x)
        out.append((multiple(move, [L]), KEEP, 'keep', 'the solution becomes %s' % show(nx, 7)))
        # a x' - b, with b = a x + g b', a L = g alpha, alpha y = 1 - m' w, g m' = m
        e = P(a) * cx - (P(a) * P(x) + g * P(bp))
        e = by_pairs(e, a, L, g * P(al))
        e = by_pairs(e, al, y.atom(), 1 - P(mp) * w)
        ok = multiple(e, [g.atom(), mp], [m])
        # the move is a remainder by the new part: the solution stays below the step in absolute value
        one = [t_ for t_, k in rng if k == P(mp)]
        small = any(nx == P(x) + sg * P(L) * z for t_ in one for z in forms(t_, nx) for sg in (1, -1))
        out.append((ok, SOLVE, 'solve', 'the solution becomes %s' % show(nx, 7)))
        out.append((small, FINAL, 'below', 'the solution becomes %s, which may leave the step' % show(nx, 7)))
    return out


def forms(t, p):
    """a remainder, or the conversion of it, as it stands in p"""
    return [P(t)] + [P(z) for z in as_poly(p).atoms() if z.op == 'wrap' and as_poly(z.args[0]) == P(t)]


def F_no(s, t):
    return s.facts.entails(b_not(eq(P(t), 0)))


def by_pairs(p, u, v, r):
    """u v replaced by r wherever both occur"""
    out = P(0)
    for mono, k in p.t:
        l = list(mono)
        q = P(k)
        while u in l and v in l:
            l.remove(u)
            l.remove(v)
            q = q * r
        for z in l:
            q = q * P(z)
        out = out + q
    return out


def gcd_call(cs, a, L, m):
    """(coefficient of a L, coefficient of m, gcd, swapped) of the call in a pass"""
    if len(cs) != 1 or cs[0][1] != 'ex_gcd':
        return None
    p, q = map(as_poly, cs[0][2])
    y, w, g = cs[0][3]
    aL = P(a) * P(L)
    if p == aL and q == P(m):
        return y, w, g, False
    if q == aL and p == P(m):
        return w, y, g, True
    return None


# ------------------------------------------------------------------ inverses of residues
def res_inv(crates, R, fn, m, st0):
    inst = R.name
    rows = [('an', 'functions')]
    bez = [g for g in crates[0].fns.values() if g.name == 'inv_gcd' and g.body]
    pw_ = [g for g in crates[0].fns.values() if g.name == 'pow' and g.body and len(g.inputs) == 2 and g.output and g.output[:2] == ('adt', R.adt) or g.name == 'pow' and g.body and g.in_trait]
    pr = [g for g in crates[0].fns.values() if g.name == 'is_prime' and g.body]
    calls = []

    def prep(I):
        def spec_inv(I, fr, s, a, span, dty):
            g, x = P(sym('g', 'i64')), P(sym('x', 'i64'))
            s2 = s.copy().assume(ge(g, 1), le(g, m), ge(x, 0), lt(x, m))
            s2.event('gcd', tuple(a))
            return [(s2, AGG('tuple', 0, g, x))]

        def spec_pow(I, fr, s, a, span, dty):
            v = P(sym('power', 'u32'))
            s2 = s.copy().assume(ge(v, 0), lt(v, m))
            s2.event('pow', tuple(a))
            return [(s2, R.mkres(I, v))]

        def spec_prime(I, fr, s, a, span, dty):
            s2 = s.copy()
            s2.event('prime', tuple(a))
            return [(s2, TRUE)]
        for g in bez:
            I.spec_fn[g.path] = spec_inv
        for g in pw_:
            I.spec_fn[g.path] = spec_pow
        for g in pr:
            I.spec_fn[g.path] = spec_prime
    I = RAI(crates, R, None, 'inv', m)
    prep(I)
    st = st0.copy()
    env = {'Self': R.ty} if fn.in_trait else {}
    for t in fn.inputs + [fn.output]:
        rename(t, R, env)
    arg, val = operand(I, R, st, 'self', I.norm_ty(fn.inputs[0], env))
    res, _ = call(I, fn.path, st, [arg], env)
    if not res:
        rows.append(('skip', INV, inst, 'no path'))
    g, x, pv = P(sym('g', 'i64')), P(sym('x', 'i64')), P(sym('power', 'u32'))
    small = [(mm, vv) for mm in (2, 3, 4, 6, 7, 9, 12, 13, 15) for vv in range(mm)]

    def wrong(s, want):
        """numbers under which the path is taken and want(modulus, value, gcd, coefficient) is false"""
        if s.unk:
            return None
        for mm, vv in small:
            e = {val.atom(): vv}
            if m.atom() is not None:
                e[m.atom()] = mm
            p, q = vv, mm
            for ev in s.events():
                if ev[0] == 'gcd':
                    p, q = (Val(dict(e)).p(z) for z in ev[1])
            if q < 1:
                continue
            gg = math.gcd(p, q)
            xx = [k for k in range(q) if (k * p - gg) % q == 0][0]
            e = {val.atom(): vv, g.atom(): gg, x.atom(): xx, pv.atom(): pow(vv, mm - 2, mm)}
            if m.atom() is not None:
                e[m.atom()] = mm
            v = Val(e)
            ok = True
            for l in s.facts.lits:
                try:
                    ok = ok and v.f(l)
                except (wit.NoVal, KeyError):
                    if any(z in e for z in atoms_deep(l)):
                        ok = False
            if ok and not want(v, mm, vv, gg, xx):
                return 'modulus %d, value %d (gcd %d, coefficient %d)' % (mm, vv, gg, xx)
        return None

    def no(rule, key, s, text, want):
        try:
            w = wrong(s, want)
        except (wit.NoVal, KeyError):
            w = None
        if w:
            rows.append(('bad', key + ':' + R.name, '%s (%s): %s\nfor example %s' % (fn.path, fn.span, text, w), rule))
        else:
            rows.append(('skip', rule, inst, text))
    for s, v in res:
        rows.append(('an', 'paths'))
        y = resval(R, v)
        ev = [e for e in s.events() if e[0] in ('gcd', 'pow')]
        y = s.facts.simp(y) if isinstance(y, Poly) else y
        if len(ev) != 1 or not isinstance(y, Poly):
            rows.append(('skip', INV, inst, '%d calls, returns %s %s' % (len(ev), show(v, 5), s.unk)))
            continue
        if ev[0][0] == 'gcd':
            p, q = map(as_poly, ev[0][1])
            inv = lambda V, mm, vv, gg, xx: gg == 1 and (V.p(y) * vv - 1) % mm == 0
            if s.facts.entails(eq(p, val)) and s.facts.entails(eq(q, m)):
                rows.append(('ok', INV, inst))
            else:
                no(INV, 'gcd', s, 'the gcd of %s, %s' % (show(p, 5), show(q, 5)), lambda V, mm, vv, gg, xx: gg != 1 or (V.p(y) * vv - 1) % mm == 0)
                continue
            if s.facts.entails(eq(g, 1)):
                rows.append(('ok', EXIST, inst))
            else:
                no(EXIST, 'exists', s, 'an inverse is returned under %s' % s.facts, inv)
            if s.facts.entails(eq(y, x)) or cong(y - x, m, s.facts) == P(0):
                rows.append(('ok', INV, inst))
            else:
                no(INV, 'coefficient', s, 'the inverse is %s' % show(y, 5), lambda V, mm, vv, gg, xx: gg != 1 or (V.p(y) * vv - 1) % mm == 0)
        else:
            b_, e_ = ev[0][1]
            bv = resval(R, b_) if not isinstance(b_, Poly) else b_
            if isinstance(b_, T) and b_.op == 'ref':
                bv = resval(R, I._pure(s, b_))
            if not isinstance(bv, Poly) or not isinstance(e_, Poly):
                rows.append(('skip', INV, inst, 'a power of %s' % show(b_, 5)))
                continue
            if s.facts.entails(eq(bv, val)) and s.facts.entails(eq(e_, m - 2)) and y == pv:
                rows.append(('ok', INV, inst))
            else:
                primes = lambda V, mm, vv, gg, xx: mm in (4, 6, 9, 12, 15) or mm == 2 or vv == 0 or pow(V.p(bv), V.p(e_), mm) * vv % mm == 1
                no(INV, 'power', s, 'the inverse is the power %s of %s' % (show(e_, 5), show(bv, 5)), primes)
            # a power is the inverse for prime moduli: the type says so or it was tested
            hint = any(l.op == 'bterm' and any('PRIME' in str(z) for z in l.args) for l in s.facts.lits)
            if hint or m.atom() is None or any(e[0] == 'prime' for e in s.events()):
                rows.append(('ok', INV, inst))
            else:
                no(INV, 'composite', s, 'the inverse is a power although nothing says that the modulus is prime', lambda V, mm, vv, gg, xx: gg != 1 or pow(vv, mm - 2, mm) * vv % mm == 1)
            if s.facts.entails(b_not(eq(val, 0))):
                rows.append(('ok', EXIST, inst))
            else:
                no(EXIST, 'zero', s, 'zero gets an inverse', lambda V, mm, vv, gg, xx: vv != 0)
    return rows


def inv_tasks(ctx, crates, cfg):
    out = []
    cr = crates[0]
    for R in residues(cr):
        ms, why = modulus(crates, R)
        fns = [f for f in cr.fns.values() if f.name == 'inv' and f.body and f.impl_self and f.impl_self[:2] == ('adt', R.adt) and not f.impl_trait]
        if ms is None or not fns:
            ctx.skip(INV, R.name, why or 'no inverse')
            continue
        for k, (m, st) in enumerate(ms):
            out.append(('inv of %s %d/%s' % (R.name, k, cfg), res_inv, crates, R, fns[0], m, st))
    return out


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        fns = crates[0].fns.values()

        def named(n, k):
            fs = [f for f in fns if f.name == n and f.body and len(f.inputs) == k and not f.impl_self]
            return fs[0] if ctx.need(fs, n) else None
        for n, t, tys in (('gcd', gcd_task, ('i64', 'u64')), ('lcm', lcm_task, ('i64', 'u64')), ('ex_gcd', bez_task, ('i64',))):
            f = named(n, 2)
            for ty in tys if f else ():
                tasks.append(('%s/%s/%s' % (n, ty, cfg), t, crates, f, ty))
        for n, t, k in (('inv_gcd', inv_task, 2), ('safe_mod', mod_task, 2), ('ex_crt', crt_task, 3)):
            f = named(n, k)
            if f:
                tasks.append(('%s/%s' % (n, cfg), t, crates, f))
        tasks += inv_tasks(ctx, crates, cfg)
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 20, 'functions')
    ctx.assumptions += ['no product or sum leaves the integer type (solver, least common multiple)', 'coefficients and moduli of the solver are not negative, moduli at least one']
