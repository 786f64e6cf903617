"""C09: residue operations are congruent to the integer operations on the operands' values; powers have the exponent asked for.

Congruence domain: a result is reduced modulo m by replacing remainders by their argument and dropping multiples of m; it
must then be the polynomial of the integer operation.  Power domain: pw(b, e) stands for the class of b^e; a product of
two powers of the same base is the power of the summed exponent, and the loop invariant
    exponent(result) + n * exponent(square) = n0
is a candidate that the invariant inference has to establish.
"""
from residue import *
from checks.c06 import sig
from checks.c07 import optable


def cong(p, m, F=None):
    """representative of p modulo m: remainders replaced, multiples of m dropped"""
    p = as_poly(p)
    ma = m.atom() if m.const() is None else None
    out = ZERO
    for mono, c in p.t:
        q = P(c)
        dead = False
        for a in mono:
            if a is ma:
                dead = True
                break
            if a.op in ('rem', 'trem') and a.args[1] is m:
                q = q * cong(a.args[0], m, F)
            elif a.op == 'wrap' and F is not None and F.entails(eq(P(a), a.args[0])):
                q = q * cong(a.args[0], m, F)
            else:
                q = q * P(a)
        if not dead:
            out = out + q
    return out


def core(crates, R, fn, op, m, st0):
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    I, res, args, vals = rcall(crates, R, fn, m, st0, names=['self', 'rhs'])
    a = vals[0]
    want = -a if op == 'Neg' else {'Add': a + vals[1], 'Sub': a - vals[1], 'Mul': a * vals[1]}[op]
    if not res:
        rows.append(('skip', 'congruent', inst, 'no path'))
    for s, v in res:
        rows.append(('an', 'paths'))
        x = resval(R, v)
        if not isinstance(x, Poly) or s.unk:
            rows.append(('skip', 'congruent', inst, '%s %s' % (s.unk, show(v))))
            continue
        d = cong(s.facts.simp(x) - want, m, s.facts)
        d2 = cong(x - want, m, s.facts)
        if d is ZERO or d2 is ZERO or s.facts.entails(eq(d, 0)):
            rows.append(('ok', 'congruent to the integer operation', inst))
            continue
        w = refuted(I, s, eq(rem(x - want, m), 0))
        if w:
            rows.append(('bad', 'congruent:%s:%s' % (R.name, op), '%s (%s) gives %s, which is not congruent to %s (for example %s)' % (fn.path, fn.span, show(x, 9), show(want), w), 'congruent'))
        else:
            rows.append(('skip', 'congruent', inst, '%s - %s' % (show(x), show(want))))
    return rows


def pw(base, e):
    t = mk('pw', base, P(e))
    TY[t] = 'u32'
    return P(t)


class PHooks(RHooks):
    struct_ops = {'pw'}

    def poly_struct(self, p):
        return self.A.cls(p)

    def candidates(self, I, info, st):
        out = [] if self.A.R is None else RHooks.candidates(self, I, info, st)
        n0 = self.A.n0
        exps, cnt = [], []
        for v in info.tmpl.values():
            if isinstance(v, Poly):
                cnt.append(v)
            for t in atoms_deep(v) if isinstance(v, (T, Poly)) else ():
                if t.op == 'pw':
                    exps.append(t.args[1])
        exps, cnt = list(dict.fromkeys(exps))[:4], list(dict.fromkeys(c for c in cnt if not any(t.op == 'pw' for t in c.atoms())))[:6]
        for r in exps:
            for x in exps:
                for c in cnt:
                    # exponent of the result, of the square, counter
                    out.append(eq(r + c * x, n0))
        return out


class PowAI(RAI):
    """powers of one base, by class"""

    def setup(self, base, n0):
        self.base = base
        self.n0 = n0
        return self

    def cls(self, p, F=None):
        if not isinstance(p, Poly):
            return None
        c = cong(p, self.m)
        if c is ONE or c == 1:
            return pw(self.base, ZERO).atom()
        if c is cong(P(self.base), self.m):
            return pw(self.base, ONE).atom()
        if len(c.t) == 1 and c.t[0][1] == 1:
            mono = c.t[0][0]
            e = ZERO
            for a in mono:
                if a.op == 'pw' and a.args[0] is self.base:
                    e = e + a.args[1]
                elif a is self.base:
                    e = e + 1
                else:
                    return None
            return pw(self.base, e).atom()
        return None

    def binop(self, op, a, b, ty, st, rty=None):
        o = op[:-len('WithOverflow')] if op.endswith('WithOverflow') else op
        if o in ('Mul', 'Rem') and isinstance(a, Poly) and isinstance(b, Poly):
            a, b = st.facts.simp(a), st.facts.simp(b)
            r = None
            if o == 'Rem' and b is self.m:
                ca = self.cls(a)
                if ca is not None and not (a.const() is None and self.base in set(a.atoms()) and not any(x.op == 'pw' for x in a.atoms())):
                    r = P(ca)
            elif o == 'Mul' and ty[0] == 'int' and ty[1] not in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32') and any(x.op == 'pw' for p in (a, b) for x in p.atoms()):
                ca, cb = self.cls(a), self.cls(b)
                if ca is not None and cb is not None:
                    r = P(ca) * P(cb) if a.const() != 1 and b.const() != 1 else a * b
            if r is not None:
                return AGG('tuple', 0, r, FALSE) if o is not op else r
        return RAI.binop(self, op, a, b, ty, st, rty)


def pspecs(R):
    """multiplication of residues, in every spelling (C07), on classes"""
    def pred(fn):
        if fn.impl_trait and last(fn.impl_trait) in ('Mul', 'MulAssign') and fn.impl_self:
            return all(core_ty(t) == R.adt for t in fn.inputs)
        return False

    def model(I, fr, st, fn, args, env):
        xs = []
        for a in args:
            v = I._pure(st, a)
            x = I.proj(v, ('f', R.fi), st)
            c = I.cls(st.facts.simp(x)) if isinstance(x, Poly) else None
            if c is None:
                return None
            xs.append(c)
        r = R.mkres(I, pw(I.base, xs[0].args[1] + xs[1].args[1]))
        if last(fn.impl_trait) == 'MulAssign':
            rt, p = I.deref(args[0])
            I.wr(st, rt, p, r, fr, None)
            return [(st, UNIT)]
        return [(st, r)]

    def pred_inv(fn):
        return fn.name == 'inv' and fn.impl_self and fn.impl_self[:2] == ('adt', R.adt)
    return [(pred, model)]


def core_ty(t):
    while t[0] == 'ref':
        t = t[1]
    return t[1] if t[0] == 'adt' else None


def verdict(rows, fn, inst, key, run, n0, getval):
    I, res = run('inv')
    todo = []
    for s, v in res:
        rows.append(('an', 'paths'))
        x = getval(s, v)
        c = I.cls(s.facts.simp(x)) if isinstance(x, Poly) else None
        if not s.unk and c is not None and s.facts.entails(eq(c.args[1], n0)):
            rows.append(('ok', 'power of exactly the exponent asked for', inst))
        elif not s.unk and isinstance(x, Poly) and s.facts.entails(le(I.m, 1)) and s.facts.entails(eq(x, 0)):
            rows.append(('ok', 'power under modulus one', inst))
        else:
            todo.append('%s %s' % (s.unk, show(c) if c is not None else show(v)))
    if not todo and res:
        return rows
    I, res = run('peel')
    for s, v in res:
        x = getval(s, v)
        c = I.cls(s.facts.simp(x)) if isinstance(x, Poly) else None
        if s.unk or not isinstance(x, Poly):
            continue
        w = None
        if c is not None:
            lits = [l for l in s.facts.lits if not any(a.op == 'pw' for a in atoms_deep(l))]
            w = wit.witness(lits, eq(c.args[1], n0), boolfn(I))
            text = 'gives the power with exponent %s' % show(c.args[1])
        elif x.const() is not None and s.facts.entails(ge(I.m, 2)):
            w = wit.witness(s.facts.lits, b_or(eq(n0, -1)), boolfn(I))
            text = 'gives the constant %s' % show(x)
        elif not any(a.op == 'pw' for a in atoms_deep(x)):
            for k in (1, 2):
                if s.facts.entails(eq(n0, k)):
                    b = P(I.base)
                    w = wit.witness(s.facts.lits, eq(rem(x - (b if k == 1 else b * b), I.m), 0), boolfn(I))
                    text = 'gives %s' % show(x)
        if w:
            rows.append(('bad', key, '%s (%s): %s where %s was asked for (for example %s)' % (fn.path, fn.span, text, show(n0), w), 'power'))
            return rows
    for t in todo or ['no path']:
        rows.append(('skip', 'power of exactly the exponent asked for', inst, t))
    return rows


def power(crates, R, fn, m, st0):
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    n0 = P(sym('n', 'u64'))

    def go(mode):
        H = PHooks(None)
        I = PowAI(crates, R, H, mode, m).setup(sym('base', 'u32'), n0)
        I.specs = pspecs(R)
        st = st0.copy()
        st.assume(ge(n0, 0), le(n0, 2**64 - 1))
        b = pw(I.base, ONE)
        st.assume(ge(b, 0), lt(b, m))
        env = {'Self': R.ty} if fn.in_trait else {}
        for t in fn.inputs + [fn.output]:
            rename(t, R, env)
        res, _ = call(I, fn.path, st, [R.mkres(I, b), n0], env)
        return I, res
    return verdict(rows, fn, inst, 'power:%s:%s' % (R.name, sig(fn)), go, n0, lambda s, v: resval(R, v))


def helper(crates, fn):
    """pow_mod(x, n, m) for plain integers"""
    rows = [('an', 'functions')]
    n0 = P(sym('n', 'i64'))
    m = P(sym('m', 'i32'))
    x = sym('x', 'i64')

    def go(mode):
        H = PHooks(None)
        I = PowAI(crates, None, H, mode, m).setup(x, n0)
        I.opaque_scalars = False
        st = State()
        st.assume(ge(n0, 0), ge(m, 1), le(m, 2**31 - 1))
        st.assume(ge(P(x), -2**63), le(P(x), 2**63 - 1), le(n0, 2**63 - 1))
        res, _ = call(I, fn.path, st, [P(x), n0, m])
        return I, res
    return verdict(rows, fn, fn.name, 'power:' + fn.name, go, n0, lambda s, v: v)


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    Rs = residues(cr)
    ctx.floor(len(Rs), 2, 'residue types')
    tasks = []
    for R in Rs:
        if R.fi is None:
            ctx.skip('representation', R.name, 'no single integer field')
            continue
        cases, why = modulus(crates, R)
        if why or not cases:
            ctx.skip('modulus', R.name, why)
            continue
        refs, _ = optable(cr, R)
        pows = [f for f in cr.fns.values() if f.body and f.name == 'pow' and f.impl_self and f.impl_self[:2] == ('adt', R.adt) and len(f.inputs) == 2]
        pows += [f for f in defaults(cr, R) if f.name == 'pow']
        ctx.need(pows, 'pow of ' + R.name)
        for m, st in cases:
            if m is ONE:
                continue        # one canonical value
            for o in ('Add', 'Sub', 'Mul', 'Neg'):
                if ctx.need(o in refs, '%s of %s' % (o, R.name)):
                    tasks.append((refs[o].path, core, crates, R, refs[o], o, m, st))
            for f in pows:
                tasks.append((f.path, power, crates, R, f, m, st))
    hs = [f for f in cr.fns.values() if f.body and f.name == 'pow_mod' and len(f.inputs) == 3]
    if ctx.need(hs, 'modular power helper'):
        tasks.append((hs[0].path, helper, crates, hs[0]))
    ctx.tasks(tasks, limit=60)
    ctx.assumptions.append('2 <= modulus <= 2^31 and canonical operands (C06); integer conversions as in C05; all multiplications of residues alike (C07); reciprocal-reduction lemma (sa/residue.py)')
