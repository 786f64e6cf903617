"""Hash-consed terms, integer polynomials over atoms, and boolean formulas.

T     an interned term  op(args...)
Poly  an interned integer polynomial; its monomials are tuples of T atoms
Booleans are T terms: true, false, ge0(P), eq0(P), not(b), and(..), or(..) or opaque
"""
from math import gcd

_tab = {}
_all = []


class T:
    __slots__ = ('op', 'args', 'id')

    def __hash__(self):         # not the address: results must not depend on memory layout
        return self.id

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_all)
        _all.append(t)
        _tab[k] = t
    return t


_ptab = {}


class Poly:
    __slots__ = ('t', 'id', '_s')

    def __hash__(self):
        return self.id

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            c2 = d.get(m, 0) + c
            if c2:
                d[m] = c2
            else:
                d.pop(m, None)
        return _mkp(d)

    __radd__ = __add__

    def __neg__(self):
        return _mkp({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not o.t or not self.t:
            return ZERO
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = _mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return _mkp({m: c for m, c in d.items() if c})

    __rmul__ = __mul__

    def const(self):
        """the integer value if constant, else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def c0(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def atom(self):
        """the atom if the polynomial is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def divc(self, k):
        """exact division by a constant, else None"""
        if all(c % k == 0 for _, c in self.t):
            return _mkp({m: c // k for m, c in self.t})
        return None

    def content(self):
        g = 0
        for m, c in self.t:
            g = gcd(g, c)
        return g

    def linear(self):
        return all(len(m) <= 1 for m, _ in self.t)

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b, key=lambda x: x.id))


def _mkey(mc):
    return (len(mc[0]), [a.id for a in mc[0]])


def _mkp(d):
    items = tuple(sorted(d.items(), key=_mkey))
    k = tuple((tuple(a.id for a in m), c) for m, c in items)
    p = _ptab.get(k)
    if p is None:
        p = Poly()
        p.t, p.id, p._s = items, len(_ptab), None
        _ptab[k] = p
    return p


ZERO = _mkp({})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return _mkp({(): int(x)}) if x else ZERO
    if isinstance(x, T):
        return _mkp({(x,): 1})
    raise TypeError(repr(x))


ONE = P(1)

# ---------------------------------------------------------------- booleans
TRUE = mk('true')
FALSE = mk('false')


def B(b):
    return TRUE if b else FALSE


def ge0(p):
    c = p.const()
    if c is not None:
        return B(c >= 0)
    g = 0
    for m, k in p.t:
        if m != ():
            g = gcd(g, k)
    if g > 1:
        c0 = p.c0()
        p = (p - c0).divc(g) + (c0 // g)
    return mk('ge0', p)


def eq0(p):
    c = p.const()
    if c is not None:
        return B(c == 0)
    g = 0
    for m, k in p.t:
        if m != ():
            g = gcd(g, k)
    if p.c0() % g:
        return FALSE
    if g > 1:
        p = p.divc(g)
    # sign normalisation
    if p.t[-1][1] < 0:
        p = -p
    return mk('eq0', p)


def le(a, b):
    return ge0(P(b) - P(a))


def lt(a, b):
    return ge0(P(b) - P(a) - 1)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return b_not(eq(a, b))


def b_not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.args[0]
    if f.op == 'ge0':
        return ge0(-f.args[0] - 1)
    if f.op == 'and':
        return b_or(*[b_not(x) for x in f.args])
    if f.op == 'or':
        return b_and(*[b_not(x) for x in f.args])
    if f.op == 'eq0':
        g = bit_flip(f.args[0])
        if g is not None:
            return g
    return mk('not', f)


def bit_flip(p):
    """p == 0 says that one binary digit is 0 (1): the statement that it is 1 (0)"""
    for mono, c in p.t:
        if len(mono) == 1 and mono[0].op == 'shr' and c in (2, -2):
            a = mono[0]
            k = a.args[1]
            s = -1 if c == 2 else 1
            whole = shr(a.args[0], k - 1)
            d = p - (whole - 2 * P(a)) * s      # p = d + s*bit
            if d is ZERO:
                return eq0(whole - 2 * P(a) - 1)
            if d.const() is not None and d.const() == -s:
                return eq0(whole - 2 * P(a))
    return None


def b_and(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == 'and':
            out.extend(x for x in f.args if x not in out)
        elif f not in out:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def b_or(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == 'or':
            out.extend(x for x in f.args if x not in out)
        elif f not in out:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def is_bool(t):
    return isinstance(t, T) and t.op in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'bterm')


# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    """replace atoms/terms (keys T) by values (T or Poly)"""
    if memo is None:
        memo = {}
    return _sub(x, m, memo)


def _sub(x, m, memo):
    if isinstance(x, T):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        na = tuple(_sub(a, m, memo) for a in x.args)
        r = x if na == x.args else rebuild(x.op, na)
        memo[x] = r
        return r
    if isinstance(x, Poly):
        if x in memo:
            return memo[x]
        ch = False
        acc = None
        for a in x.atoms():
            if _sub(a, m, memo) is not a:
                ch = True
                break
        if not ch:
            memo[x] = x
            return x
        acc = ZERO
        for mono, c in x.t:
            q = P(c)
            for a in mono:
                v = _sub(a, m, memo)
                q = q * P(v)
            acc = acc + q
        memo[x] = acc
        return acc
    if isinstance(x, tuple):
        return tuple(_sub(a, m, memo) for a in x)
    return x


def rebuild(op, args):
    if op == 'ge0':
        return ge0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'not':
        return b_not(args[0])
    if op == 'and':
        return b_and(*args)
    if op == 'or':
        return b_or(*args)
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


REBUILD = {}


def _bits(op, f):
    def go(a, b):
        x, y = [z.const() if isinstance(z, Poly) else None for z in (a, b)]
        if x is not None and y is not None:
            return P(f(x, y))
        return mk(op, a, b)
    REBUILD[op] = go


_bits('bitand', lambda a, b: a & b)
_bits('bitor', lambda a, b: a | b)
_bits('bitxor', lambda a, b: a ^ b)


def atoms_deep(x, acc=None):
    """every T occurring in x (recursively)"""
    if acc is None:
        acc = set()
    if isinstance(x, T):
        if x in acc:
            return acc
        acc.add(x)
        for a in x.args:
            atoms_deep(a, acc)
    elif isinstance(x, Poly):
        for m, _ in x.t:
            for a in m:
                atoms_deep(a, acc)
    elif isinstance(x, tuple):
        for a in x:
            atoms_deep(a, acc)
    return acc


# ---------------------------------------------------------------- integer operations
def sym(name, ty='usize'):
    return mk('sym', name, ty)


def shr(p, k):
    """floor(p / 2^k)"""
    p, k = P(p), P(k)
    kc = k.const()
    if kc == 0:
        return p
    pc = p.const()
    if pc is not None and kc is not None and kc >= 0:
        return P(pc >> kc)
    if pc == 0:
        return ZERO
    a = p.atom()
    if a is not None and a.op == 'shr':
        return shr(a.args[0], a.args[1] + k)
    if kc is not None and kc > 0:
        # split the part divisible by 2^kc
        m = 1 << kc
        hi, lo = {}, {}
        for mono, c in p.t:
            if mono == ():
                q, r = c // m, c % m
                if q:
                    hi[mono] = q
                if r:
                    lo[mono] = r
            elif c % m == 0:
                hi[mono] = c // m
            else:
                lo[mono] = c
        lo = _mkp(lo)
        hi = _mkp(hi)
        lc = lo.const()
        if lc is not None:
            return hi + (lc >> kc)
        if hi.t:
            return hi + shr(lo, k)
        # 2*Shr(x,1)+... patterns: floor((x - 2^j*shr)/..) left alone
    else:
        # p = q * 2^(k+j)
        a = p.atom()
        if len(p.t) == 1:
            mono, c = p.t[0]
            p2 = [x for x in mono if x.op == 'pow2']
            for x in p2:
                d = (x.args[0] - k).const()
                if d is not None and d >= 0:
                    rest = list(mono)
                    rest.remove(x)
                    return _mkp({tuple(rest): c}) * (1 << d)
    return P(mk('shr', p, k))


def pow2(k):
    k = P(k)
    c = k.const()
    if c is not None:
        return P(1 << c) if 0 <= c < 4096 else P(mk('pow2', k))
    c0 = k.c0()
    if 0 < c0 < 256:
        return P(mk('pow2', k - c0)) * (1 << c0)
    return P(mk('pow2', k))


def lowbit(p):
    c = p.const()
    if c is not None and c > 0:
        return P(c & -c)
    return P(mk('lowbit', p))


def rem(a, m):
    """euclidean remainder for m > 0 (mathematical)"""
    a, m = P(a), P(m)
    ac, mc = a.const(), m.const()
    if ac is not None and mc:
        return P(ac % mc)
    if mc == 1:
        return ZERO
    if mc is not None and mc > 0:
        lo = {mono: (c % mc) for mono, c in a.t if c % mc}
        a2 = _mkp(lo)
        if a2 is not a:
            return rem(a2, m)
        if mc & (mc - 1) == 0:
            return a - shr(a, mc.bit_length() - 1) * mc
    return P(mk('rem', a, m))


def quot(a, m):
    """floor division for m > 0 (mathematical)"""
    a, m = P(a), P(m)
    ac, mc = a.const(), m.const()
    if ac is not None and mc:
        return P(ac // mc)
    if mc == 1:
        return a
    if mc is not None and mc > 0:
        if mc & (mc - 1) == 0:
            return shr(a, mc.bit_length() - 1)
        d = a.divc(mc)
        if d is not None:
            return d
    return P(mk('quot', a, m))


def ilog2(a):
    a = P(a)
    c = a.const()
    if c is not None and c > 0:
        return P(c.bit_length() - 1)
    t = a.atom()
    if t is not None and t.op == 'pow2':
        return t.args[0]
    return P(mk('lg', a))


REBUILD.update(shr=shr, pow2=pow2, lowbit=lowbit, rem=rem, quot=quot, lg=ilog2)


# ---------------------------------------------------------------- printing
def show(x, depth=6):
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        out = []
        for m, c in x.t:
            s = '*'.join(show(a, depth) for a in m)
            if not m:
                s = str(abs(c))
            elif abs(c) != 1:
                s = '%d*%s' % (abs(c), s)
            out.append(('-' if c < 0 else '+', s))
        # constants last
        s = ''
        for sg, t in out:
            s += (' %s ' % sg if s else ('-' if sg == '-' else '')) + t
        return s
    if isinstance(x, T):
        if depth <= 0:
            return '…'
        if x.op == 'sym':
            return str(x.args[0])
        if x.op == 'ge0':
            return '(%s >= 0)' % show(x.args[0], depth - 1)
        if x.op == 'eq0':
            return '(%s == 0)' % show(x.args[0], depth - 1)
        if x.op == 'shr':
            return '(%s>>%s)' % (show(x.args[0], depth - 1), show(x.args[1], depth - 1))
        if x.op == 'sel':
            return '%s[%s]' % (show(x.args[0], depth - 1), show(x.args[1], depth - 1))
        if x.op == 'fld':
            return '%s.%s' % (show(x.args[0], depth - 1), x.args[1][1] if isinstance(x.args[1], tuple) else x.args[1])
        if x.op in ('true', 'false'):
            return x.op
        return '%s(%s)' % (x.op, ', '.join(show(a, depth - 1) for a in x.args))
    if isinstance(x, tuple):
        return '(' + ', '.join(show(a, depth - 1) for a in x) + ')'
    return str(x)
