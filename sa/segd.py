"""Values as segments of consecutive elements: Seg(lo, hi) is the ordered combination of the elements lo .. hi-1."""
from cells import *
import itertools
import wit
from loops import REG


class Seg:
    def __init__(self, lo, hi):
        self.lo, self.hi = P(lo), P(hi)

    def __str__(self):
        return '[%s, %s)' % (show(self.lo), show(self.hi))

    def sub(self, b):
        return Seg(subst(self.lo, b), subst(self.hi, b))


class Bad(Stop):
    """a definite mismatch in state s: cond is a formula that holds exactly when the step is right"""
    def __init__(self, s, cond, text):
        Stop.__init__(self, text)
        self.s, self.cond, self.text = s, cond, text

    def witness(self, *infos):
        """small sizes that satisfy the path's facts and not cond; with loops given, also tried at their first iteration"""
        if self.s.unk:
            return None
        r = small(self.s.facts.lits, self.cond)
        if r or not infos:
            return r
        # the first and the second iteration of the loops, whose states are reachable for certain
        for steps in (0, 1):
            for fs, b in self.unroll(infos, steps):
                r = small([subst(l, b) for l in self.s.facts.lits] + fs, subst(self.cond, b))
                if r:
                    return r
        return None

    def unroll(self, infos, steps):
        outs = [([], {})]
        for i in infos:
            if not i.phis:
                continue
            ini = {k: v for k, v in i.inits().items() if isinstance(v, Poly)}
            cur = [([], ini)]
            if steps and not any(i.it_atom in atoms_deep(l) for l in self.s.facts.lits):
                cur = [([], {})]
            elif steps:
                cur = []
                for s, b in i.backs:
                    if not s.unk:
                        cur.append(([subst(l, ini) for l in s.facts.lits], {k: subst(v, ini) for k, v in b.items() if isinstance(v, Poly)}))
            outs = [(f + g, {**b, **c}) for f, b in outs for g, c in cur]
        return outs[:12]


def small(lits, cond, free=()):
    """small sizes under which all the facts hold and cond does not"""
    fs = tighten(lits)
    for _ in range(6):
        at, bl = wit.free_atoms(fs + [cond])
        odd = [x for x in at if not (x.op in ('sym', 'anyidx') or x.op == 'phi' and x.args[1:] == ('it', 'nat') or x in free)]
        if not odd:
            break
        hit = False
        for x in odd:
            v = determined(x, fs)
            if v is not None:
                fs = [subst(l, {x: v}) for l in fs]
                cond = subst(cond, {x: v})
                hit = True
                break
        if hit:
            continue
        # counters of a finished loop with one way out: they only say that the loop is over
        gone = {x for x in odd if x.op == 'phi' and x not in atoms_deep(cond) and over(x)}
        if not gone:
            return None
        fs = [l for l in fs if not (atoms_deep(l) & gone)]
    else:
        return None
    if any(isinstance(x, T) and x.op == 'bterm' for l in fs + [cond] for x in atoms_deep(l)):
        fs = [l for l in fs if not any(x.op == 'bterm' for x in atoms_deep(l))]
        if any(x.op == 'bterm' for x in atoms_deep(cond)):
            return None
    at, bl = wit.free_atoms(fs + [cond])
    return search(sorted(at, key=lambda x: x.id), fs, cond)


def over(x):
    info = REG.get(x.args[0])
    return info is not None and len(getattr(info, 'exits', ())) == 1


def tighten(lits):
    """p >= 0 and -p >= 0 read as p == 0"""
    ge = {l.args[0] for l in lits if l.op == 'ge0'}
    return list(lits) + [mk('eq0', p) for p in ge if -p in ge and p.id < (-p).id]


def determined(x, fs):
    for l in fs:
        if l.op == 'eq0':
            for m, c in l.args[0].t:
                if m == (x,) and abs(c) == 1:
                    r = P(x) - l.args[0] * c
                    if x not in atoms_deep(r):
                        return r
    return None


def search(at, fs, cond, limit=400000):
    """depth-first over small values, checking every fact as soon as its atoms are assigned"""
    if len(at) > 7:
        return None
    dom = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 33]
    ext = set()
    for l in fs + [cond]:
        for p in l.args:
            if isinstance(p, Poly) and 12 < abs(p.c0()) < 2 ** 33:
                ext |= {abs(p.c0()) + d for d in (-1, 0, 1)}
    dom = dom[:17 if len(at) < 4 else 10] + sorted(ext)[:9]
    need = []
    for f in fs:
        need.append((f, wit.free_atoms([f])[0]))
    # order atoms so that facts become checkable early
    order, left = [], set(at)
    while left:
        best = max(sorted(left, key=lambda x: x.id), key=lambda x: sum(1 for f, a in need if x in a and a <= set(order) | {x}))
        order.append(best)
        left.discard(best)
    by = [[] for _ in order]
    for f, a in need:
        if not a:
            try:
                if not wit.evf(f, {}):
                    return None
            except wit.NoVal:
                return None
            continue
        by[max(order.index(x) for x in a)].append(f)
    n = [0]

    def go(k, env):
        n[0] += 1
        if n[0] > limit:
            return None
        if k == len(order):
            try:
                if not wit.evf(cond, dict(env)):
                    return {show(x): env[x] for x in order}
            except (wit.NoVal, KeyError):
                pass
            return None
        for v in dom:
            env[order[k]] = v
            try:
                good = all(wit.evf(f, dict(env)) for f in by[k])
            except (wit.NoVal, KeyError):
                good = False
            if good:
                r = go(k + 1, env)
                if r:
                    return r
        env.pop(order[k], None)
        return None
    return go(0, {})


class SegD(Cells):
    """op(Seg(a,b), Seg(b,c)) = Seg(a,c); the identity is the empty segment"""
    OPS = ('call',)

    def __init__(self, I, op=None, leaf=None, overlap=False, comm=False):
        Cells.__init__(self, I)
        self.comm = comm        # the operation commutes
        self.op = op            # predicate (term) -> (left, right) or None
        self.leaf = leaf        # (term, state) -> Seg or None
        self.overlap = overlap

    def value(self, t, s):
        if isinstance(t, Poly):
            t = t.atom()
        if not isinstance(t, T):
            raise Stop('value %s' % show(t))
        if t in self.scal:
            return self.scal[t]
        lr = self.op(t)
        if lr == ():
            return Seg(0, 0)
        if lr:
            return self.join(self.value(lr[0], s), self.value(lr[1], s), s)
        v = self.leaf(self, t, s)
        if v is not None:
            return v
        if t.op == 'sel':
            return self.lookup(t.args[0], t.args[1], s)
        raise Stop('value %s' % show(t, 5))

    def empty(self, x, s):
        return s.facts.entails(le(x.hi, x.lo))

    def join(self, x, y, s):
        F = s.facts
        if self.empty(x, s):
            return y
        if self.empty(y, s):
            return x
        if F.entails(eq(x.hi, y.lo)):
            return Seg(x.lo, y.hi)
        if self.comm:
            if F.entails(eq(y.hi, x.lo)):
                return Seg(y.lo, x.hi)
            raise Bad(s, b_or(le(x.hi, x.lo), le(y.hi, y.lo), eq(x.hi, y.lo), eq(y.hi, x.lo)), '%s combined with %s' % (x, y))
        if self.overlap:
            for a, b in ((x, y), (y, x)):
                if F.entails(b_and(le(a.lo, b.lo), le(b.lo, a.hi), le(a.hi, b.hi))):
                    return Seg(a.lo, b.hi)
            raise Bad(s, b_or(le(x.hi, x.lo), le(y.hi, y.lo), b_and(le(x.lo, y.hi), le(y.lo, x.hi))),
                      '%s combined with %s leaves a gap' % (x, y))
        raise Bad(s, b_or(le(x.hi, x.lo), le(y.hi, y.lo), eq(x.hi, y.lo)), '%s combined with %s' % (x, y))

    def eqf(self, a, b):
        return b_or(b_and(eq(a.lo, b.lo), eq(a.hi, b.hi)), b_and(le(a.hi, a.lo), le(b.hi, b.lo)))

    def same(self, a, b, s):
        F = s.facts
        if F.entails(eq(a.lo, b.lo)) and F.entails(eq(a.hi, b.hi)):
            return True
        return self.empty(a, s) and self.empty(b, s)

    def differ(self, a, b, s):
        return small(s.facts.lits, self.eqf(a, b))


class Out:
    def __init__(self, f, nm):
        self.f, self.nm, self.rows, self.hit = f, nm, [('an', 'functions')], set()

    def ok(self, rule):
        self.rows.append(('ok', rule, self.nm))

    def fail(self, rule, key, e, *infos):
        """e: Bad with a witness -> violation; otherwise undecided"""
        if isinstance(e, Bad):
            env = e.witness(*infos)
            if env:
                if key not in self.hit:
                    self.hit.add(key)
                    self.rows.append(('bad', key, '%s (%s): %s\nwith %s\ne.g. %s' % (self.f.path, self.f.span, e.text, e.s.facts, env), rule))
                return
            self.rows.append(('skip', rule, self.nm, '%s %s %s' % (e.text, e.s.unk, e.s.facts)))
            return
        self.rows.append(('skip', rule, self.nm, str(e)))


def val_phis(info):
    return [a for a, i in info.phis.items() if isinstance(i, T) and not is_bool(i) and not is_arr(i) and not (i.op == 'phi' and False)]


def int_phis(info):
    return [a for a, i in info.phis.items() if isinstance(i, Poly)]


def is_value(l):
    return l.op == 'bterm' or l.op == 'not' and l.args[0].op == 'bterm'


def panics(o, I, rule):
    for p in I.panics:
        s = p[3]
        env = None if s.unk or any(is_value(l) for l in s.facts.lits) else small(s.facts.lits, FALSE)
        if env:
            o.rows.append(('bad', o.f.name + ':panics', '%s (%s) panics (%s at %s) for arguments in range\nwith %s\ne.g. %s' % (o.f.path, o.f.span, p[0], p[1], s.facts, env), rule))
        else:
            pass       # C29 decides the absence of panics
