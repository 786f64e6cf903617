"""Residue arithmetic: symbolic moduli, canonical operands, the reciprocal-reduction lemma.

A residue type is a local type implementing the library's `ModIntBase` trait.  Its modulus is whatever its `modulus()`
returns; for run-time moduli the shared cell is replaced by what its constructor builds for a symbolic modulus, so that
no representation is assumed.  Assumptions of every run: 1 <= m <= 2^31 and canonical operands (value < m).

Lemma (proved on paper, for 1 <= m <= 2^31, z = a*b with 0 <= a,b < m, im = ceil(2^64/m)): (z*im) >> 64 is either
quot(z, m) or quot(z, m)+1.  Both cases are explored.
"""
from drive import *
from crate import Body
import walk
import wit

MMAX = 1 << 31


def last(p):
    return (p or '').split('::')[-1]


class Residue:
    """one residue type: adt path, its type parameter, the index of the integer field"""

    def __init__(self, cr, im):
        self.cr = cr
        self.impl = im
        self.adt = im['args'][0][1]
        a = cr.adts[self.adt]
        self.gen = a['generics']
        self.ty = ('adt', self.adt, tuple(('param', g) for g in self.gen))
        self.name = last(self.adt)
        fs = [cr.ty(f['t']) for f in a['variants'][0]['fields']]
        ints = [i for i, t in enumerate(fs) if t[0] == 'int']
        self.fi = ints[0] if len(ints) == 1 else None
        self.nf = len(fs)
        self.fields = fs

    def mkres(self, I, v):
        vals = []
        for i, t in enumerate(self.fields):
            vals.append(P(v) if i == self.fi else mk('zst', ty_str(t)))
        return AGG(self.adt, 0, *vals)


def residues(cr):
    out = []
    for im in cr.impls:
        if last(im['trait']) == 'ModIntBase' and im['args'] and im['args'][0][0] == 'adt' and im['args'][0][1] in cr.adts:
            out.append(Residue(cr, im))
    return out


def is_im(p, m):
    """p is ceil(2^64/m) as written with the quotient of 2^64-1"""
    q = p - 1
    a = q.atom()
    return a is not None and a.op == 'quot' and a.args[0].const() == 2**64 - 1 and a.args[1] is m


_SL = {}


def is_scalar(t):
    return t[0] in ('int', 'bool', 'char') or (t[0] == 'tuple' and t[1] and all(is_scalar(x) for x in t[1]))


def scalar_loop(fn):
    """a function from integers to integers that loops, itself or in what it calls"""
    r = _SL.get(fn.path)
    if r is None:
        r = bool(fn.inputs) and all(is_scalar(t) for t in fn.inputs) and fn.output and is_scalar(fn.output) and fn.body and reaches_loop(fn)
        _SL[fn.path] = r
    return r


def reaches_loop(fn):
    seen, todo = set(), [fn.path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        f = fn.cr.fns.get(p)
        if f is None or not f.body:
            continue
        if Body(f.body).loops():
            return True
        todo.extend(walk.target(x) for x, _ in walk.fnrefs(f, f.body))
    return False


def scalar_value(I, t, ty, st):
    if ty[0] == 'int':
        TY[t] = ty[1]
        v = P(t)
        st.assume(I.in_range(v, ty))
        return v
    if ty[0] == 'tuple':
        return AGG('tuple', 0, *[scalar_value(I, mk('fld', t, (0, i)), x, st) for i, x in enumerate(ty[1])])
    if ty[0] == 'bool':
        return mk('bterm', 'val', t)
    return t


class RHooks(Hooks):
    def __init__(self, A):
        self.A = A

    uses = None

    def on_call(self, I, key, fref, args, st, fr, span):
        if self.uses is not None and not fref.f.get('local'):
            for a in args:
                x = I._pure(st, a)
                if isinstance(x, Poly):
                    self.uses.append((key, x))
        if key == 'RemEuclidU32::rem_euclid_u32' and fref.args:
            # the contract that C05 establishes for every implementation of the library
            m = I._pure(st, args[1])
            if not st.facts.entails(ge(m, 1)):
                return None
            x = I._pure(st, args[0])
            if fref.args[0][0] == 'int' and isinstance(x, Poly):
                return [(st, rem(x, m))]
            if fref.args[0][0] not in ('param', 'alias'):
                return None
            t = mk('app', 'residue of', x, m)
            TY[t] = 'u32'
            st.assume(ge(P(t), 0), lt(P(t), m))
            return [(st, P(t))]
        return None

    def candidates(self, I, info, st):
        return [lt(P(a), self.A.m) for a, i in info.phis.items() if isinstance(i, Poly) or TY.get(a) == 'u32']


class RAI(AI):
    """interpreter that knows about one residue type"""

    def __init__(self, crates, R, hooks=None, mode='inv', m=None, big=True):
        AI.__init__(self, crates, None, mode=mode)
        self.R = R
        self.hooks = hooks or RHooks(self)
        self.hooks.A = self
        self.m = m
        self.lemma = 0
        self.abstracted = set()

    def rdplace(self, fr, st, p):
        v = AI.rdplace(self, fr, st, p)
        if self.R is not None and p['p'] and isinstance(v, Poly) and isinstance(p['p'][-1], dict) and p['p'][-1].get('f') == self.R.fi:
            t = self.norm_ty(fr.fn.cr.ty(fr.body.b['locals'][p['l']]['t']), fr.env)
            for e in p['p'][:-1]:
                if e == '*' and t[0] == 'ref':
                    t = t[1]
                else:
                    t = ('?',)
            if t[0] == 'adt' and t[1] == self.R.adt:
                self.canon(v, st)
        return v

    def canon(self, v, st):
        """values read from a residue that was not built on this path are canonical"""
        if isinstance(v, Poly):
            a = v.atom()
            if a is not None and a.op == 'fld' and self.m is not None:
                f = lt(v, self.m)
                if not st.facts.entails(f):
                    st.assume(ge(v, 0), f)

    opaque_scalars = True
    specs = None

    def inline(self, fr, st, fn, args, env, span, dty):
        if self.specs:
            for pred, model in self.specs:
                if pred(fn):
                    r = model(self, fr, st, fn, args, env)
                    if r is not None:
                        return r
        if self.opaque_scalars and scalar_loop(fn):
            # a function of integers to integers is a function: equal arguments, equal results
            vals = tuple(self._pure(st, a) for a in args)
            t = mk('app', fn.path, *vals)
            self.abstracted.add(fn.path)
            return [(st, scalar_value(self, t, self.norm_ty(fn.output, env), st))]
        return AI.inline(self, fr, st, fn, args, env, span, dty)

    def binop(self, op, a, b, ty, st, rty=None):
        o = op[:-len('WithOverflow')] if op.endswith('WithOverflow') else op
        if o == 'Shr' and isinstance(a, Poly) and isinstance(b, Poly) and b.const() == 64 and self.m is not None:
            r = self.barrett(a, st)
            if r is not None:
                return AGG('tuple', 0, r, FALSE) if o is not op else r
        if o == 'Mul' and ty == ('int', 'u128') and self.m is not None and isinstance(a, Poly) and isinstance(b, Poly):
            if self.recip(a * b, st) is not None:
                # a*b*ceil(2^64/m) < m*2^64 + m^2 < 2^96
                return AGG('tuple', 0, a * b, FALSE) if o is not op else a * b
        return AI.binop(self, op, a, b, ty, st, rty)

    def recip(self, p, st):
        """z such that p = z * ceil(2^64/m), z a product of two canonical values"""
        m = self.m
        if m is ONE:
            return None
        qa = mk('quot', P(2**64 - 1), m)
        z = ZERO
        rest = ZERO
        for mono, c in p.t:
            q = P(c)
            for a in mono:
                if a is not qa or mono.count(qa) != 1:
                    q = q * P(a)
            if mono.count(qa) == 1:
                z = z + q
            else:
                rest = rest + q
        if z is ZERO or rest is not z or len(z.t) != 1:
            return None
        mono, c = z.t[0]
        F = st.facts
        if c != 1 or len(mono) != 2 or not all(F.entails(b_and(ge(P(x), 0), lt(P(x), m))) for x in mono):
            return None
        return z

    def barrett(self, p, st):
        """(a*b*ceil(2^64/m)) >> 64"""
        z = self.recip(p, st)
        if z is None:
            return None
        self.lemma += 1
        F = st.facts
        f = mk('bterm', 'reciprocal exact', z)
        c = quot(z, self.m)
        if F.entails(f):
            return c
        if F.entails(b_not(f)):
            return c + 1
        raise Split(f)


def modulus(crates, R):
    """[(modulus term, initial state)] of a residue type, reason if that cannot be established"""
    I = RAI(crates, R)
    st = State()
    fn = I.fns[R.impl['items']['modulus']['path']]
    env = {g: ('param', g) for g in fn.generics}
    out = []
    st0 = State()
    res, _ = call(I, fn.path, st0.copy())
    if len(res) != 1 or res[0][0].unk or not isinstance(res[0][1], Poly):
        return None, 'modulus() gives %s' % [show(v) for _, v in res]
    v = res[0][1]
    a = v.atom()
    if a is None:
        return None, show(v)
    if a.op == 'cst':
        st0.assume(ge(v, 1), le(v, MMAX))
        return [(v, st0)], None
    # a cell behind a user-supplied accessor: rebuild it from its constructor
    cell = a
    while cell.op == 'fld':
        cell = cell.args[0]
    if cell.op != 'app':
        return None, show(v)
    mk_ = [f for f in I.fns.values() if f.name == cell.args[0].split('::')[-1] and f.impl_trait and f.output and f.output[0] == 'ref']
    ct = {f.output[1] for f in mk_}
    ct = ct.pop() if len(ct) == 1 else None
    ctor = [f for f in I.fns.values() if ct and f.body and f.impl_self == ct and not f.impl_trait and f.exported
            and list(f.inputs) == [('int', 'u32')] and f.output == ct]
    if len(ctor) != 1:
        return None, 'no constructor of the modulus cell'
    m = P(sym('m', 'u32'))
    sts = []
    for case in (ONE, m):
        st = State()
        st.assume(ge(m, 2), le(m, MMAX))
        for s, v in call(I, ctor[0].path, st, [case])[0]:
            if s.unk:
                return None, s.unk
            s2 = State()
            s2.facts = s.facts
            s2.mem[('sref', cell)] = v
            sts.append((case, s2))
    return sts, None


def operand(I, R, st, name, ty):
    """canonical symbolic argument of the given type"""
    if ty[0] == 'ref':
        root = ('obj', name)
        v, t = operand(I, R, st, name, ty[1])
        st.mem[root] = v
        return ref(root), t
    if ty[0] == 'adt' and ty[1] == R.adt:
        x = P(sym(name, 'u32'))
        st.assume(ge(x, 0), lt(x, I.m))
        return R.mkres(I, x), x
    v = sym_value(I, st, name, ty)
    return v, v


def resval(R, v):
    """the value of a residue term"""
    if isinstance(v, T) and v.op == 'agg' and v.args[0] == R.adt:
        return v.args[2 + R.fi]
    return None


def rcall(crates, R, fn, m, st0, mode='inv', hooks=None, names=None, specs=None, given=None):
    """interpret fn on canonical operands; `given` replaces operand values by terms"""
    I = RAI(crates, R, hooks, mode, m)
    I.specs = specs
    st = st0.copy()
    env = {'Self': R.ty} if fn.in_trait else {}
    for t in fn.inputs + ([fn.output] if fn.output else []):
        rename(t, R, env)
    args, vals = [], []
    for i, (n, t) in enumerate(zip(names or arg_names(fn), fn.inputs)):
        a, x = operand(I, R, st, n, I.norm_ty(t, env))
        if t[0] == 'param' and n == 'iter':
            a = AGG('OpIter', 0, mk('sym', 'iter', '?'), ZERO)
        if given and i in given:
            st.assume(ge(given[i], 0), lt(given[i], m))
            a, x = R.mkres(I, given[i]), given[i]
        args.append(a)
        vals.append(x)
    res, _ = call(I, fn.path, st, args, env)
    return I, res, args, vals


def rename(t, R, env):
    """the function's own name for the type parameter of R"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'adt' and t[1] == R.adt:
            for g, a in zip(R.gen, t[2]):
                if a[0] == 'param' and a[1] != g and a[1] != 'Self':
                    env[a[1]] = ('param', g)
        for x in t:
            rename(x, R, env)


def defaults(cr, R):
    """provided methods of the residue trait that the type does not override"""
    own = set(R.impl['items'])
    return [f for f in cr.fns.values() if f.body and f.in_trait and last(f.in_trait) == 'ModIntBase' and f.name not in own]


# ---------------------------------------------------------------- shared pieces of the checks
def boolfn(I):
    """truth of the lemma's case split for concrete values"""
    def f(b, ev):
        if b.op == 'bterm' and b.args[0] == 'reciprocal exact':
            if ev is None:
                return True
            m, z = ev(I.m), ev(b.args[1])
            return ((z * -(-2**64 // m)) >> 64) == z // m
        return None
    return f


def refuted(I, s, goal):
    """values under which the path is feasible and the goal fails"""
    if s.unk:
        return None
    for l in s.facts.lits:
        # operands for which the quotient by the reciprocal is one too large
        if l.op == 'not' and l.args[0].op == 'bterm' and l.args[0].args[0] == 'reciprocal exact':
            z = l.args[0].args[1]
            xs = [a for a in z.t[0][0]] if len(z.t) == 1 else []
            ma = I.m.atom()
            if len(xs) == 2 and xs[0] is not xs[1] and ma is not None:
                env = {ma: 2**31 - 1, xs[0]: 2**30, xs[1]: 2**31 - 3}
                try:
                    if all(wit.evf(x, dict(env), boolfn(I)) for x in s.facts.lits) and not wit.evf(goal, dict(env), boolfn(I)):
                        return env
                except (wit.NoVal, KeyError):
                    pass
    return wit.witness(s.facts.lits, goal, boolfn(I))


def mentions(t, adt):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 'adt' and t[1] == adt:
            return True
        return any(mentions(x, adt) for x in t)
    return False


def producers(cr, R):
    """exported functions that hand out a residue of type R, by value or through &mut"""
    out = []
    for fn in cr.fns.values():
        if not fn.body or not fn.exported or fn.name == 'raw':
            continue
        if fn.kind not in ('Fn', 'AssocFn'):
            continue
        o = fn.output and mentions(fn.output, R.adt)
        mu = any(t[0] == 'ref' and t[2] and mentions(t, R.adt) for t in fn.inputs)
        if o or mu:
            out.append(fn)
    return out


def residues_in(R, v):
    """residue terms inside a value"""
    return [t for t in atoms_deep(v) if t.op == 'agg' and t.args[0] == R.adt] if isinstance(v, (T, Poly)) else []
