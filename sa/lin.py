"""Linear-integer entailment over polynomial atoms: equality substitution, gcd tightening and
Fourier-Motzkin elimination, with on-demand axioms for the interpreted atoms
(shr, pow2, lowbit, rem, quot, lg, len, bounded machine integers)."""
from term import *
from math import gcd

INT_RANGE = {
    'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
    'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1),
    'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
    'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1),
    'char': (0, 0x10ffff), 'bool': (0, 1), 'nat': (0, None), 'int': (None, None),
    'len': (0, 2**63 - 1),
}
STATS = {'queries': 0, 'fm': 0, 'giveup': 0}
MAXC = 700


def atom_range(a):
    op = a.op
    if op == 'sym':
        return INT_RANGE.get(a.args[1], (None, None))
    if op in ('sel', 'fld', 'app', 'phi', 'opaque'):
        return INT_RANGE.get(a.args[-1], (None, None))
    if op == 'len':
        return (0, 2**63 - 1)
    if op == 'discr':
        return (0, None)
    if op == 'pow2':
        return (0, None)
    if op == 'lg':
        return (0, 127)
    if op == 'wrap':
        return INT_RANGE.get(a.args[1], (None, None))
    return (None, None)


AXIOM_HOOKS = []      # functions (atom) -> list of formulas


def atom_axioms(a):
    """unconditional consequences, as formulas"""
    r = []
    lo, hi = atom_range(a)
    pa = P(a)
    if lo is not None:
        r.append(ge0(pa - lo))
    if hi is not None:
        r.append(ge0(-pa + hi))
    op = a.op
    if op == 'shr':
        p, k = a.args
        kc = k.const()
        if kc is not None:
            m = 1 << kc
            r.append(ge0(p - pa * m))
            r.append(ge0(pa * m + (m - 1) - p))
        else:
            w = pow2(k)
            r.append(ge0(p - pa * w))
            r.append(ge0((pa + 1) * w - p - 1))
            # conditional sign facts handled by or
            r.append(b_or(ge0(-p - 1), b_and(ge0(pa), ge0(p - pa))))
    elif op == 'pow2':
        k = a.args[0]
        r.append(b_or(ge0(-k - 1), ge0(pa - k - 1)))
        r.append(b_or(ge0(-k), b_and(ge0(pa - 2), ge0(pa - k * 2))))
    elif op == 'lowbit':
        p = a.args[0]
        r.append(b_or(ge0(-p), b_and(ge0(pa - 1), ge0(p - pa))))
    elif op == 'rem':
        p, m = a.args
        q = P(mk('quot', p, m))
        r.append(b_or(ge0(-m), b_and(ge0(pa), ge0(m - pa - 1), eq0(p - m * q - pa))))
        r.append(b_or(ge0(-m), ge0(-p - 1), b_and(ge0(q), ge0(p - pa))))
    elif op == 'quot':
        p, m = a.args
        r.append(b_or(ge0(-m), b_and(ge0(p - m * pa), ge0(m * pa + m - 1 - p))))
        r.append(b_or(ge0(-m), ge0(-p - 1), b_and(ge0(pa), ge0(p - pa))))
    elif op == 'lg':
        x = a.args[0]
        w = pow2(pa)
        r.append(b_or(ge0(-x), b_and(ge0(x - w), ge0(w * 2 - x - 1))))
    for h in AXIOM_HOOKS:
        r.extend(h(a))
    return r


def _shallow(p, x, e):
    """replace atom x by polynomial e in the top-level monomials of p"""
    if x not in p.atoms():
        return p
    acc = ZERO
    for m, c in p.t:
        q = P(c)
        for a in m:
            q = q * (e if a is x else P(a))
        acc = acc + q
    return acc


def _solve(eqs, ges):
    """eliminate equalities; returns (ges, substitutions) or None if contradictory"""
    eqs = list(eqs)
    ges = list(ges)
    subs = []
    guard = 0
    while eqs:
        guard += 1
        if guard > 400:
            break
        # choose the easiest
        best = None
        for i, e in enumerate(eqs):
            c = e.const()
            if c is not None:
                if c != 0:
                    return None
                best = (i, None, None)
                break
            for m, k in e.t:
                if len(m) == 1 and abs(k) == 1:
                    x = m[0]
                    rest = (P(x) - e * k)   # k*x + rest0 = 0 -> x = -rest0*k ; P(x)-e*k
                    if x in rest.atoms():
                        continue
                    deep = x in atoms_deep(rest)
                    used = sum(1 for mm, _ in e.t if x in mm)
                    score = (deep, used > 1, _prio(x), len(e.t))
                    if best is None or best[1] is None or score < best[3]:
                        best = (i, x, rest, score)
        if best is None:
            # no unit coefficient: keep as two inequalities after a gcd test
            for e in eqs:
                g = 0
                for m, k in e.t:
                    if m != ():
                        g = gcd(g, k)
                if g and e.c0() % g:
                    return None
                ges.append(e)
                ges.append(-e)
            break
        i, x, rest = best[:3]
        eqs.pop(i)
        if x is None:
            continue
        deep = x in atoms_deep(rest)
        if deep:
            f = lambda p: _shallow(p, x, rest)
        else:
            m = {x: rest}
            memo = {}
            f = lambda p: subst(p, m, memo)
        subs.append((x, rest, deep))
        neq = []
        for e in eqs:
            try:
                q = f(e)
            except Exception:
                q = _shallow(e, x, rest)
            fq = eq0(q)
            if fq is FALSE:
                return None
            if fq is not TRUE:
                neq.append(fq.args[0])
        eqs = neq
        nge = []
        for e in ges:
            q = f(e)
            fq = ge0(q)
            if fq is FALSE:
                return None
            if fq is not TRUE:
                nge.append(fq.args[0])
        ges = nge
    return ges, subs


_PR = {'phi': 0, 'shr': 3, 'pow2': 4, 'lowbit': 3, 'sym': 2, 'len': 1, 'sel': 1, 'fld': 2, 'rem': 3, 'quot': 3}


def _prio(x):
    # smaller = eliminated first
    return (_PR.get(x.op, 2), -x.id)


def _fm(ges):
    """True if the conjunction of p>=0 is infeasible over the integers (monomials independent)"""
    STATS['fm'] += 1
    cons = {}

    def add(lin, c):
        # lin: tuple of (var,coef) sorted, value lin + c >= 0
        g = 0
        for _, k in lin:
            g = gcd(g, k)
        if g == 0:
            return c >= 0
        if g > 1:
            lin = tuple((v, k // g) for v, k in lin)
            c = c // g
        o = cons.get(lin)
        if o is None or c < o:
            neg = tuple((v, -k) for v, k in lin)
            on = cons.get(neg)
            if on is not None and c + on < 0:
                return False
            cons[lin] = c
        return True

    for p in ges:
        lin = []
        c = 0
        for m, k in p.t:
            if m == ():
                c = k
            else:
                lin.append((tuple(a.id for a in m), k))
        lin.sort()
        if not add(tuple(lin), c):
            return True
    while True:
        occ = {}
        for lin in cons:
            for v, k in lin:
                pn = occ.setdefault(v, [0, 0])
                pn[k > 0] += 1
        if not occ:
            return False
        # drop one-sided variables first
        v = min(occ, key=lambda v: occ[v][0] * occ[v][1] - occ[v][0] - occ[v][1])
        pos, neg, rest = [], [], {}
        for lin, c in cons.items():
            k = 0
            for vv, kk in lin:
                if vv == v:
                    k = kk
                    break
            if k > 0:
                pos.append((lin, c, k))
            elif k < 0:
                neg.append((lin, c, -k))
            else:
                rest[lin] = c
        cons = rest
        if len(pos) * len(neg) > MAXC or len(cons) > 4 * MAXC:
            STATS['giveup'] += 1
            # soundly forget the variable
            if len(pos) * len(neg) > MAXC:
                continue
        for l1, c1, k1 in pos:
            for l2, c2, k2 in neg:
                g = gcd(k1, k2)
                a, b = k2 // g, k1 // g
                d = {}
                for vv, kk in l1:
                    d[vv] = d.get(vv, 0) + kk * a
                for vv, kk in l2:
                    d[vv] = d.get(vv, 0) + kk * b
                lin = tuple(sorted((vv, kk) for vv, kk in d.items() if kk))
                if not add(lin, c1 * a + c2 * b):
                    return True


def _flatten(fs, eqs, ges, ors, opq):
    """distribute literals; returns False when trivially contradictory"""
    for f in fs:
        if f is TRUE:
            continue
        if f is FALSE:
            return False
        o = f.op
        if o == 'ge0':
            ges.append(f.args[0])
        elif o == 'eq0':
            eqs.append(f.args[0])
        elif o == 'and':
            if not _flatten(f.args, eqs, ges, ors, opq):
                return False
        elif o == 'or':
            ors.append(f)
        elif o == 'not' and f.args[0].op == 'eq0':
            p = f.args[0].args[0]
            ors.append(mk('or', ge0(p - 1), ge0(-p - 1)))
        else:
            g, v = (f.args[0], False) if o == 'not' else (f, True)
            if opq.get(g, v) != v:
                return False
            opq[g] = v
    return True


def _axioms_for(polys, seen):
    out = []
    todo = set()
    for p in polys:
        for m, _ in p.t:
            for a in m:
                todo.add(a)
    for a in sorted(todo, key=lambda a: a.id):
        if a in seen:
            continue
        seen.add(a)
        out.extend(atom_axioms(a))
    # pairs of pow2 atoms with comparable exponents
    p2 = sorted((a for a in seen if isinstance(a, T) and a.op == 'pow2'), key=lambda a: a.id)
    for i, a in enumerate(p2):
        for b in p2[i + 1:]:
            if (a, b) in seen:
                continue
            seen.add((a, b))
            d = (a.args[0] - b.args[0])
            dc = d.const()
            pa, pb = P(a), P(b)
            if dc is not None:
                if dc > 0:
                    out.append(eq0(pa - pb * (1 << dc)))
                elif dc < 0:
                    out.append(eq0(pb - pa * (1 << -dc)))
            else:
                out.append(b_or(b_and(ge0(d), ge0(pa - pb)), b_and(ge0(-d - 1), ge0(pb - pa * 2))))
                out.append(b_or(ge0(-d), ge0(pa - pb * 2)))
                out.append(b_or(ge0(d - 1), ge0(pb - pa)))
    return out


def _bound_pairs(ges):
    return ges


def _products(ges):
    """consequences f*y >= 0 for nonneg atoms y that appear in nonlinear monomials"""
    monos = set()
    for p in ges:
        for m, _ in p.t:
            if len(m) >= 2:
                monos.add(m)
    if not monos:
        return []
    out = []
    allm = set(monos)
    for p in ges:
        for m, _ in p.t:
            allm.add(m)
    ys = {}
    for m in monos:
        for y in set(m):
            if y.op in ('pow2',) or (atom_range(y)[0] is not None and atom_range(y)[0] >= 0):
                ys[y] = 1
    for p in ges:
        if len(p.t) <= 2:
            for m, c in p.t:
                if len(m) == 1 and c > 0 and p.c0() <= 0 and len(p.t) == (2 if p.c0() else 1):
                    ys[m[0]] = 1
    # sign of monomials of nonneg atoms
    for m in monos:
        if all(y in ys for y in m):
            out.append(_mkmono(m))
            if len(m) == 2 and any(y.op == 'pow2' for y in m):
                a, b = m
                # a*b >= a when b >= 1 (pow2 of nonneg exponent handled via f*y below)
    for y in ys:
        yp = P(y)
        n = 0
        for p in ges:
            if any(len(m) > 1 for m, _ in p.t):
                continue
            q = p * yp
            if all(m in allm or m == () for m, _ in q.t):
                out.append(q)
                n += 1
                if n > 40:
                    break
    return out


def _mkmono(m):
    q = ONE
    for a in m:
        q = q * P(a)
    return q


def infeasible(fs, depth=4, budget=None):
    """True only if the conjunction of formulas fs has no integer model."""
    if budget is None:
        budget = [60]
    eqs, ges, ors, opq = [], [], [], {}
    if not _flatten(fs, eqs, ges, ors, opq):
        return True
    seen = set()
    # axioms, to a small closure
    allp = eqs + ges + [q for f in ors for q in _polys(f)]
    ax = []
    for _ in range(3):
        new = _axioms_for(allp, seen)
        if not new:
            break
        e2, g2, o2 = [], [], []
        if not _flatten(new, e2, g2, o2, {}):
            return True
        eqs += e2
        ges += g2
        ax += o2
        allp = e2 + g2
    return _inf(eqs, ges, ors + ax, len(ors), depth, budget, seen)


def _polys(f):
    if f.op in ('ge0', 'eq0'):
        return [f.args[0]]
    r = []
    for a in f.args:
        if isinstance(a, T):
            r += _polys(a)
    return r


def _inf(eqs, ges, ors, nfacts, depth, budget, seen):
    budget[0] -= 1
    r = _solve(eqs, ges)
    if r is None:
        return True
    g2, subs = r
    # new atoms created by substitution get axioms too
    new = _axioms_for(g2, seen)
    if new:
        e3, g3, o3 = [], [], []
        if not _flatten(new, e3, g3, o3, {}):
            return True
        if e3:
            r = _solve(eqs + e3, ges + g3)
            if r is None:
                return True
            g2, subs = r
        else:
            # the axioms may mention eliminated atoms
            for p in g3:
                q = _apply(p, subs)
                g2.append(q)
        ors = ors + o3
    # simplify the disjunctions under the substitution, do unit propagation
    pend = []
    units = []
    for f in ors:
        alts = []
        sat = False
        for a in f.args if f.op == 'or' else (f,):
            a2 = _applyf(a, subs)
            if a2 is TRUE:
                sat = True
                break
            if a2 is FALSE:
                continue
            alts.append(a2)
        if sat:
            continue
        if not alts:
            return True
        # drop alternatives that contradict directly
        live = [a for a in alts if not _quick_false(a, g2)]
        if not live:
            return True
        if len(live) == 1:
            units.append(live[0])
        else:
            pend.append(mk('or', *live))
    if units:
        e3, g3, o3 = [], [], []
        if not _flatten(units, e3, g3, o3, {}):
            return True
        if budget[0] > 0:
            return _inf(e3, g2 + g3, pend + o3, 0, depth, budget, seen)
    g2 = g2 + _products(g2)
    if _fm(g2):
        return True
    if depth <= 0 or budget[0] <= 0 or not pend:
        return False
    # case split
    cand = pend[:]
    cand.sort(key=lambda f: len(f.args))
    for f in cand[:5]:
        ok = True
        rest = [x for x in pend if x is not f]
        for a in f.args:
            e3, g3, o3 = [], [], []
            if not _flatten([a], e3, g3, o3, {}):
                continue
            if budget[0] <= 0 or not _inf(e3, g2 + g3, rest + o3, 0, depth - 1, budget, seen):
                ok = False
                break
        if ok:
            return True
        if budget[0] <= 0:
            return False
    return False


def _quick_false(f, ges):
    if f.op == 'and':
        return any(_quick_false(a, ges) for a in f.args)
    if f.op == 'ge0':
        return _fm_small(ges, f.args[0])
    if f.op == 'eq0':
        return _fm_small(ges, f.args[0]) or _fm_small(ges, -f.args[0])
    return False


def _fm_small(ges, p):
    """cheap refutation of p >= 0: only constraints within two hops of p's monomials"""
    vs = {m for m, _ in p.t if m != ()}
    rel = [p]
    used = set()
    for _ in range(2):
        nv = set(vs)
        for i, g in enumerate(ges):
            if i in used or len(g.t) > 4:
                continue
            ms = {m for m, _ in g.t if m != ()}
            if ms & vs:
                used.add(i)
                rel.append(g)
                nv |= ms
        vs = nv
        if len(rel) > 40:
            break
    return _fm(rel[:60])


def _apply(p, subs):
    for x, rest, deep in subs:
        p = _shallow(p, x, rest) if deep else subst(p, {x: rest})
    return p


def _applyf(f, subs):
    if f.op in ('ge0',):
        return ge0(_apply(f.args[0], subs))
    if f.op == 'eq0':
        return eq0(_apply(f.args[0], subs))
    if f.op in ('and', 'or', 'not'):
        return rebuild(f.op, tuple(_applyf(a, subs) for a in f.args))
    return f


# ---------------------------------------------------------------- fact sets
class Facts:
    __slots__ = ('lits', 'key', '_cache', '_sub', '_inf')
    _intern = {}

    @staticmethod
    def of(lits):
        key = frozenset(l.id for l in lits)
        f = Facts._intern.get(key)
        if f is None:
            f = Facts()
            f.lits, f.key, f._cache, f._sub, f._inf = tuple(lits), key, {}, None, None
            Facts._intern[key] = f
        return f

    def add(self, *fs):
        new = list(self.lits)
        have = set(self.key)
        for f in fs:
            for g in (f.args if f.op == 'and' else (f,)):
                if g is TRUE or g.id in have:
                    continue
                have.add(g.id)
                new.append(g)
        if len(new) == len(self.lits):
            return self
        return Facts.of(new)

    def contradictory(self):
        if self._inf is None:
            STATS['queries'] += 1
            self._inf = FALSE in self.lits or infeasible(self.lits)
        return self._inf

    def entails(self, f):
        if f is TRUE:
            return True
        if f.id in self.key:
            return True
        r = self._cache.get(f)
        if r is None:
            r = self._entails(f)
            self._cache[f] = r
        return r

    def _entails(self, f):
        STATS['queries'] += 1
        if f.op == 'and':
            return all(self.entails(a) for a in f.args)
        if f.op == 'or':
            if any(self.entails(a) for a in f.args):
                return True
            return infeasible(self.lits + (b_not(f),))
        if f.op == 'eq0':
            p = f.args[0]
            if self.simp(p) is ZERO:
                return True
            return self.entails(ge0(p)) and self.entails(ge0(-p))
        if f is FALSE:
            return self.contradictory()
        if f.op == 'not' and f.args[0].op == 'eq0':
            return infeasible(self.lits + (f.args[0],))
        if f.op in ('ge0',):
            return infeasible(self._rel(f) + (b_not(f),))
        # opaque boolean: rewrite modulo equalities
        g = self.simp(f)
        if g is TRUE:
            return True
        for l in self.lits:
            if l.op not in ('ge0', 'eq0') and self.simp(l) is g:
                return True
        return False

    def _rel(self, f):
        """facts connected to f through shared atoms (keeps queries small)"""
        if len(self.lits) <= 12:
            return self.lits
        at = _fatoms(f)
        rel = set()
        chg = True
        info = [(l, _fatoms(l)) for l in self.lits]
        while chg:
            chg = False
            for l, a in info:
                if l.id not in rel and a & at:
                    rel.add(l.id)
                    if not a <= at:
                        at = at | a
                        chg = True
        return tuple(l for l in self.lits if l.id in rel)

    def subs(self):
        if self._sub is None:
            eqs = [l.args[0] for l in self.lits if l.op == 'eq0']
            r = _solve(eqs, [])
            self._sub = r[1] if r else []
        return self._sub

    def simp(self, x):
        """normal form modulo the known equalities"""
        for _ in range(2):
            y = x
            for v, rest, deep in self.subs():
                if deep:
                    if isinstance(x, Poly):
                        x = _shallow(x, v, rest)
                else:
                    x = subst(x, {v: rest})
            if y is x:
                break
        return x

    def __repr__(self):
        return ' & '.join(show(l) for l in self.lits)


_fa_memo = {}


def _fatoms(f):
    r = _fa_memo.get(f)
    if r is None:
        r = frozenset(a for a in atoms_deep(f)
                      if a.op not in ('ge0', 'eq0', 'not', 'and', 'or', 'true', 'false'))
        _fa_memo[f] = r
    return r


EMPTY = Facts.of(())
