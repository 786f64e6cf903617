"""C24: factorial tables and the counts built from them."""
from cells import *
from fractions import Fraction
import itertools
import math
import wit

N = P(sym('N', 'usize'))


class M:
    """product of powers of factorials F(p), integers I(p) and a rational constant"""
    def __init__(self, c=Fraction(1), f=()):
        self.c, self.f = Fraction(c), dict(f)

    def __mul__(self, o):
        if isinstance(o, Sum):
            return o * self
        f = dict(self.f)
        for k, e in o.f.items():
            f[k] = f.get(k, 0) + e
        return M(self.c * o.c, {k: e for k, e in f.items() if e})

    def pow(self, n):
        if self.c == 0 and n < 0:
            raise Stop('inverse of zero')
        return M(self.c ** n, {k: e * n for k, e in self.f.items()})

    def inv(self):
        return self.pow(-1)

    def __str__(self):
        s = [str(self.c)] if self.c != 1 or not self.f else []
        return ' * '.join(s + ['%s%s' % ('(%s)!' % show(p) if k == 'F' else '(%s)' % show(p), '' if e == 1 else '^%d' % e) for (k, p), e in self.f.items()])


class Sum:
    """sum of products"""
    def __init__(self, terms):
        self.terms = list(terms)

    def __mul__(self, o):
        return Sum([x * y for x in self.terms for y in terms_of(o)])
    __rmul__ = __mul__

    def inv(self):
        raise Stop('inverse of a sum')

    def __str__(self):
        return '(%s)' % ' + '.join(str(x) for x in self.terms)


def terms_of(m):
    return m.terms if isinstance(m, Sum) else [m]


def total(ts, s):
    """sum of products, like ones collected"""
    by = {}
    for t in ts:
        t = reduce(t, s)
        k = tuple(sorted(t.f.items(), key=str))
        by[k] = M(by[k].c + t.c, t.f) if k in by else t
    ts = [t for t in by.values() if t.c]
    return ts[0] if len(ts) == 1 else Sum(ts) if ts else ZEROM


def fact(p):
    return M(1, {('F', p): 1})


ZEROM = M(0)


def ifact(p):
    return M(1, {('F', p): -1})


def num(p):
    return M(1, {('I', p): 1})


def diff(p, q, F):
    d = (p - q).const()
    if d is None:
        d = F.simp(p - q).const()
    if d is None:
        for c in (0, 1, -1):
            if F.entails(eq(p, q + c)):
                return c
    return d


def reduce(m, s):
    """cancel F(p)/F(q) with constant p-q, constants, using the facts"""
    F = s.facts
    c = m.c
    fs = {}
    for (k, p), e in m.f.items():
        p = F.simp(p)
        q = p.const()
        if q is not None and k == 'I':
            if q == 0 and e < 0:
                raise Stop('division by zero')
            c *= Fraction(int(q)) ** e
            continue
        if q is not None and k == 'F' and 0 <= q <= 20:
            x = 1
            for i in range(2, int(q) + 1):
                x *= i
            c *= Fraction(x) ** e
            continue
        if k == 'F' and F.entails(eq(p, 0)):
            continue
        fs[(k, p)] = fs.get((k, p), 0) + e
    for _ in range(30):
        ps = [(p, e) for (k, p), e in fs.items() if k == 'F' and e]
        hit = None
        for p, e in ps:
            for q, g in ps:
                if e > 0 > g:
                    d = diff(p, q, F)
                    if d is not None and abs(d) <= 8:
                        hit = (p, q, int(d))
        if not hit:
            break
        p, q, d = hit
        fs[('F', p)] -= 1
        fs[('F', q)] += 1
        if d > 0:
            for i in range(1, d + 1):
                fs[('I', q + i)] = fs.get(('I', q + i), 0) + 1
        else:
            for i in range(1, -d + 1):
                fs[('I', p + i)] = fs.get(('I', p + i), 0) - 1
        fs = {k: e for k, e in fs.items() if e}
    # integers that are equal under the facts
    ks = [k for k in fs if k[0] == 'I']
    for i, x in enumerate(ks):
        for y in ks[i + 1:]:
            if fs.get(x, 0) * fs.get(y, 0) < 0 and diff(x[1], y[1], F) == 0:
                n = min(abs(fs[x]), abs(fs[y]))
                sx = 1 if fs[x] > 0 else -1
                fs[x] -= sx * n
                fs[y] += sx * n
    for x in ks:
        if fs.get(x) and diff(x[1], ONE, F) == 0:
            fs[x] = 0
    return M(c, {k: e for k, e in fs.items() if e})


class FD(Cells):
    def value(self, t, s):
        if isinstance(t, Poly):
            a = t.atom()
            if a is not None and a.op not in ('app', 'sel'):
                return num(t)
            if a is None:
                return num(t)
            t = a
        if t in self.scal:
            return self.scal[t]
        if t.op == 'sel':
            return self.lookup(t.args[0], t.args[1], s)
        if t.op == 'app':
            k, a = t.args[0], t.args[1:]
            if k == 'Mul':
                return self.value(a[0], s) * self.value(a[1], s)
            if k in ('Add', 'Sub'):
                x, y = self.value(a[0], s), self.value(a[1], s)
                return total(terms_of(x) + [M(-1 if k == 'Sub' else 1) * t for t in terms_of(y)], s)
            if k == 'Div':
                return self.value(a[0], s) * self.value(a[1], s).inv()
            if k == 'inv':
                return self.value(a[0], s).inv()
            if k in ('From', 'new', 'raw') and len(a) == 1 and isinstance(a[0], Poly):
                if a[0].const() == 0:
                    raise Stop('zero')
                return num(a[0])
            if k in ('count:choose', 'count:perm'):
                return fact(a[0]) * ifact(a[0] - a[1]) * (ifact(a[1]) if k == 'count:choose' else M())
            if k == 'one':
                return M()
        raise Stop(show(t, 5))

    def raw(self, w):
        if isinstance(w, T) and w.op == 'app' and w.args[0] in ('From', 'new', 'zero') and (len(w.args) < 2 or w.args[1] is ZERO):
            return ZEROM
        return None

    def differ(self, a, b, s):
        return differ(a, b, s)

    def same(self, a, b, s):
        if isinstance(b, Sum):
            return False
        m = total(terms_of(a * b.inv()), s)
        if isinstance(m, Sum):
            return False
        return m.c == 1 and not m.f


def evm(m, env):
    if isinstance(m, Sum):
        return sum(evm(t, env) for t in m.terms)
    r = m.c
    for (k, p), e in m.f.items():
        v = wit.evp(p, env)
        if k == 'F':
            if v < 0:
                raise wit.NoVal()
            if v > 70000:
                raise wit.NoVal()
            v = math.factorial(int(v))
        if v == 0:
            if e < 0:
                raise wit.NoVal()
            return Fraction(0)
        r *= Fraction(int(v)) ** e
    return r


def differ(a, b, s):
    """small sizes for which the facts hold and the two products differ"""
    fs = [l for l in s.facts.lits]
    at, bl = wit.free_atoms(fs + [ge(p, 0) for x in (a, b) for t in terms_of(x) for (k, p) in t.f])
    lens = {x for x in at if x.op == 'len'}
    fs = [l for l in fs if not (atoms_deep(l) & lens)]
    at = sorted(at - lens, key=lambda x: x.id)
    if len(at) > 4 or bl:
        return None
    ext = set()
    for l in fs:
        for p in l.args:
            if isinstance(p, Poly) and 6 < abs(p.c0()) < 2000:
                ext |= {abs(p.c0()) + d for d in (-1, 0, 1, 2)}
    dom = list(range(7)) + sorted(ext)[:12]
    # conversions that lose digits: sizes past what the narrow type can hold
    for w in {t for x in (a, b) for y in terms_of(x) for (k, p) in y.f for t in atoms_deep(p) if t.op == 'wrap'}:
        n = wit.BITS[w.args[1]] - (w.args[1][0] == 'i')
        if n <= 16:
            dom += [(1 << n) + d for d in (-1, 0, 1, 2)]
    for vals in itertools.product(dom if len(at) < 4 else dom[:7], repeat=len(at)):
        env = dict(zip(at, vals))
        try:
            if all(wit.evf(f, env) for f in fs) and evm(a, env) != evm(b, env):
                return {show(x): v for x, v in zip(at, vals)}
        except (wit.NoVal, KeyError):
            continue
    return None


def scalars(D, info):
    """running products kept in a variable"""
    it = info.it
    for a, init in info.phis.items():
        if is_bool(a) or not isinstance(init, (T, Poly)) or isinstance(init, T) and is_arr(init):
            continue
        cands = [fact(it + c) for c in (0, 1, -1)] + [ifact(it + c) for c in (0, 1)] + [ifact(N - it + c) for c in (0, -1, 1)]
        for m in cands:
            try:
                sub = lambda x, b: M(x.c, {(k, subst(p, b)): e for (k, p), e in x.f.items()})
                if not D.same(D.value(init, info.entry), sub(m, info.inits()), info.entry):
                    continue
                D.scal[a] = m
                if all(D.same(D.value(b[a], s), sub(m, b), s) for s, b in info.backs):
                    break
                del D.scal[a]
            except (Stop, KeyError):
                D.scal.pop(a, None)


def ctor_tables(crates, adt, f):
    """(rows, {field: target name})"""
    I = AI(crates, NoResidues())
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    res, _ = call(I, f.path, st, [N])
    rows = [('an', 'functions'), ('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
    roles = None
    nm = 'Factorial::new'
    if not res:
        rows.append(('bad', 'new:returns', '%s (%s) never returns' % (f.path, f.span), 'tables'))
    for s, v in res:
        D = FD(I)
        tg = {'factorial': fact, 'inverse': ifact}
        D.loops_ = I.loops_done
        for info in I.loops_done:
            scalars(D, info)
            D.loops([info], lambda a, i: list(tg.values()))
            scalars(D, info)
        mine, fails = {}, {}
        D.bounds = [N + c for c in (0, 1, 2, -1)] + [P(c) for c in (0, 1, 2)]
        for i, x in enumerate(v.args[2:]):
            if not isinstance(x, T) or x.op not in LEN_OPS | {'phi'}:
                continue
            for k, t in tg.items():
                try:
                    if D.prove(x, ZERO, N + 1, t, s):
                        mine[i] = k
                        break
                except Stop as e:
                    D.why.append(str(e))
                if D.fail and (i not in fails or D.fail[0] == 'gap'):
                    fails[i] = D.fail
            if i not in mine and i not in fails and x in D.best:
                fails[i] = D.best[x]
        names = [q['n'] for q in crates[0].adts[adt]['variants'][0]['fields']]
        if not s.unk and set(mine.values()) == set(tg):
            rows.append(('ok', 'every entry of both tables, for every size', nm))
        else:
            hit = False
            for i, fl in fails.items():
                if i in mine:
                    continue
                D.fail = fl
                al = D.alarm()
                if al and not s.unk:
                    hit = True
                    k, s2, got, want, J, env = al
                    rows.append(('bad', 'new:' + names[i], '%s (%s): cell %s of the table `%s` %s %s, which is not %s\nwith %s\ne.g. %s' % (
                        f.path, f.span, show(J), names[i], 'still holds' if k == 'gap' else 'is given', got, want, s2.facts, env), 'tables'))
                    break
            if not hit:
                rows.append(('skip', 'tables', nm, 'not established: %s %s' % (s.unk, D.why[-3:])))
        roles = mine if roles is None else {i: k for i, k in mine.items() if roles.get(i) == k}
    for p in I.panics:
        if p[0].startswith('overflow'):
            continue
        s = p[3]
        if s.unk or any(t.op == 'opaque' for t in atoms_deep(tuple(s.facts.lits))):
            rows.append(('skip', 'tables', nm, 'panic %s' % p[0]))
    return rows, roles or {}


class QH(NoResidues):
    def on_recursion(self, I, fn, args, st, fr, span):
        # induction hypothesis: the call answers correctly, for arguments within the table
        if len(args) == 3 and isinstance(args[1], Poly) and isinstance(args[2], Poly) \
                and st.facts.entails(b_and(ge(args[2], 0), le(args[2], args[1]), le(args[1], N))):
            return [(st, mk('app', 'count:' + fn.name, args[1], args[2]))]
        return None


def check_query(crates, adt, f, roles, name):
    rows = [('an', 'functions')]
    I = AI(crates, QH())
    st = State()
    nf = len(crates[0].adts[adt]['variants'][0]['fields'])
    tabs = {i: mk('carr', 'self.%d' % i, N + 1) for i in range(nf)}
    st.mem[('obj', 'self')] = AGG(adt, 0, *[tabs[i] if i in roles else mk('sym', 'f%d' % i, '?') for i in range(nf)])
    n, k = P(sym('n', 'usize')), P(sym('k', 'usize'))
    st.assume(ge(N, 0), le(N, MAXN), ge(n, 0), ge(k, 0), le(k, n), le(n, N))
    res, _ = call(I, f.path, st, [ref(('obj', 'self')), n, k])
    D = FD(I)
    for i, r in roles.items():
        D.hyp.append((tabs[i], ZERO, N + 1, fact if r == 'factorial' else ifact))
    want = fact(n) * ifact(n - k) * (ifact(k) if name == 'choose' else M())
    nm = 'Factorial::' + name
    for s, v in res:
        rows.append(('an', 'paths'))
        try:
            if s.unk:
                raise Stop(str(s.unk))
            x = D.value(v, s)
            if D.same(x, want, s):
                rows.append(('ok', 'count is the textbook quotient', nm))
                continue
            env = differ(x, want, s)
            if env:
                rows.append(('bad', 'count:' + name, '%s (%s) returns %s instead of %s\non the path with %s\ne.g. %s' % (f.path, f.span, x, want, s.facts, env),
                             'count is the textbook quotient'))
            else:
                rows.append(('skip', 'count is the textbook quotient', nm, str(x)))
        except Stop as e:
            if isinstance(v, T) and v.op == 'app' and v.args[0] in ('From', 'new', 'zero') and (len(v.args) < 2 or v.args[1] is ZERO):
                env = wit.witness(list(s.facts.lits), FALSE)
                if env:
                    rows.append(('bad', 'count:' + name, '%s (%s) returns zero for arguments within the table\non the path with %s\ne.g. %s' % (f.path, f.span, s.facts, env),
                                 'count is the textbook quotient'))
                    continue
            rows.append(('skip', 'count is the textbook quotient', nm, str(e)))
    for p in I.panics:
        s = p[3]
        env = None if s.unk else wit.witness(list(s.facts.lits), FALSE)
        if env:
            rows.append(('bad', 'refuses:' + name, '%s (%s) panics (%s at %s) for arguments within the table\non the path with %s\ne.g. %s'
                         % (f.path, f.span, p[0], p[1], s.facts, env), 'arguments within the table are answered'))
        else:
            rows.append(('skip', 'arguments within the table are answered', nm, '%s %s' % (p[0], s.unk)))
    if not any(r[0] in ('bad', 'skip') and 'answered' in str(r) for r in rows):
        rows.append(('ok', 'arguments within the table are answered', nm))
    return rows


def check_ctor(crates, adt, f):
    try:
        rows, roles = ctor_tables(crates, adt, f)
    except (Unknown, RuntimeError, Stop) as e:
        rows, roles = [('skip', 'tables', 'Factorial::new', str(e))], {}
    return rows + [('roles', sorted(roles.items()))]


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    adt = find_adt(cr, 'Factorial')
    if not ctx.need(adt, 'Factorial'):
        return
    cs = [f for f in ctors(cr, adt) if f.name == 'new']
    if not ctx.need(len(cs) == 1, 'Factorial::new'):
        return
    r = ctx.tasks([(cs[0].path, check_ctor, crates, adt, cs[0])], limit=60)
    roles = {}
    for row in r[0]:
        if row[0] == 'roles':
            roles = {int(i): k for i, k in row[1]}
    if len(set(roles.values())) < 2:
        # fall back on the declared names to analyse the queries
        for i, f in enumerate(cr.adts[adt]['variants'][0]['fields']):
            t = cr.ty(f['t'])
            if i not in roles and t[0] == 'adt' and t[1].endswith('::Vec'):
                roles[i] = 'inverse' if 'inv' in f['n'] else 'factorial'
    tasks = []
    for name in ('choose', 'perm'):
        f = method(cr, adt, name)
        if ctx.need(f, 'Factorial::' + name):
            tasks.append((f.path, check_query, crates, adt, f, roles, name))
    ctx.tasks(tasks, limit=60)
    ctx.floor(len(tasks), 2, 'counting functions')
    ctx.assumptions.append('prime modulus larger than the table bound, so every entry has an inverse; residue arithmetic itself is C05-C09')
