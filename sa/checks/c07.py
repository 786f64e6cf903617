"""C07: every spelling of a residue operator is the same operation; sums and products are left folds."""
from residue import *

OPS = ('Add', 'Sub', 'Mul', 'Div')


def inverse_spec(R):
    """the inverse is a function of the representative (its value is not this property's business)"""
    def pred(fn):
        return fn.name == 'inv' and fn.impl_self and fn.impl_self[:2] == ('adt', R.adt)

    def model(I, fr, st, fn, args, env):
        x = I.proj(args[0], ('f', R.fi), st)
        t = mk('app', 'inverse', x)
        TY[t] = 'u32'
        st.assume(ge(P(t), 0), lt(P(t), I.m))
        return [(st, R.mkres(I, P(t)))]
    return [(pred, model)]


def final(I, R, s, v, args, assign):
    if assign:
        v = s.mem.get(args[0].args[0])
    t = resval(R, v) if v is not None else None
    return t


def joint(s1, s2):
    f = s1.facts.add(*s2.facts.lits)
    return f


def same(I, s, x, refs, goal_fmt):
    """rows-style verdict: x equals the reference on every reference path consistent with s"""
    out = []
    for s2, y in refs:
        F = joint(s, s2)
        if F.contradictory():
            continue
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            out.append(('skip', show(x), F))
        elif F.entails(eq(x, y)):
            out.append(('ok', None, F))
        else:
            w = None if (s.unk or s2.unk) else wit.witness(F.lits, eq(x, y), boolfn(I))
            out.append(('bad', (y, w), F) if w else ('skip', '%s against %s' % (show(x), show(y)), F))
    return out


def variant(crates, R, ref, fn, op, m, st0, conv):
    from checks.c06 import sig
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    specs = inverse_spec(R)
    I, res, args, vals = rcall(crates, R, fn, m, st0, names=['self', 'rhs'], specs=specs)
    assign = fn.name.endswith('_assign')
    given = {}
    if conv:
        t = mk('app', 'residue of', vals[1], m)
        TY[t] = 'u32'
        given[1] = P(t)
    I2, res2, args2, vals2 = rcall(crates, R, ref, m, st0, names=['self', 'rhs'], specs=specs, given=given)
    refs = [(s, resval(R, v)) for s, v in res2]
    if not res:
        rows.append(('bad', 'same:%s' % inst, '%s (%s) never returns' % (fn.path, fn.span), 'same operation') if not I.panics and refs else ('skip', 'same operation', inst, 'no path'))
    for s, v in res:
        x = final(I, R, s, v, args, assign)
        if x is None:
            rows.append(('skip', 'same operation', inst, show(v)))
            continue
        if s.unk and not isinstance(x, Poly):
            rows.append(('skip', 'same operation', inst, s.unk))
            continue
        o = same(I, s, x, refs, None)
        if not o:
            rows.append(('skip', 'same operation', inst, 'no reference path'))
        for k, why, F in o:
            if k == 'ok' and not s.unk:
                rows.append(('ok', 'same operation as %s by value' % op, inst))
            elif k == 'bad':
                rows.append(('bad', 'same:%s' % inst, '%s (%s) gives %s where %s by value gives %s (for example %s)' % (fn.path, fn.span, show(x, 9), op, show(why[0], 9), why[1]), 'same operation'))
            else:
                rows.append(('skip', 'same operation', inst, s.unk or why))
    return rows


def neg_variant(crates, R, ref, fn, m, st0):
    return variant1(crates, R, ref, fn, m, st0)


def variant1(crates, R, ref, fn, m, st0):
    from checks.c06 import sig
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    I, res, args, vals = rcall(crates, R, fn, m, st0, names=['self'])
    I2, res2, args2, vals2 = rcall(crates, R, ref, m, st0, names=['self'])
    refs = [(s, resval(R, v)) for s, v in res2]
    for s, v in res:
        x = resval(R, v)
        for k, why, F in same(I, s, x, refs, None):
            if k == 'ok':
                rows.append(('ok', 'same operation as negation by value', inst))
            elif k == 'bad':
                rows.append(('bad', 'same:%s' % inst, '%s gives %s where negation by value gives %s (for example %s)' % (fn.path, show(x), show(why[0]), why[1]), 'same operation'))
            else:
                rows.append(('skip', 'same operation', inst, why))
    return rows


def optable(cr, R):
    """(trait, fn, conv) for every spelling; references by value"""
    refs, var = {}, []
    for fn in cr.fns.values():
        if not fn.body or not fn.impl_trait or not fn.impl_self:
            continue
        tr = last(fn.impl_trait)
        me = fn.impl_self[1] if fn.impl_self[0] == 'ref' else fn.impl_self
        if me[:2] != ('adt', R.adt):
            continue
        base = tr[:-6] if tr.endswith('Assign') else tr
        if base in OPS and fn.name in (base.lower(), base.lower() + '_assign'):
            r = fn.inputs[1]
            conv = r[0] in ('param', 'alias')
            byval = fn.inputs[0][:2] == ('adt', R.adt) and r[:2] == ('adt', R.adt)
            if byval:
                refs[base] = fn
            else:
                var.append((base, fn, conv))
        elif tr == 'Neg':
            if fn.inputs[0][0] == 'adt':
                refs['Neg'] = fn
            else:
                var.append(('Neg', fn, False))
    return refs, var


def fold(crates, R, cr, fn, ref, m, st0, unit):
    from checks.c06 import sig
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn)) + (' by reference' if fn.generics and any('\'' in g for g in fn.generics) else '')
    I, res, args, vals = rcall(crates, R, fn, m, st0, names=['iter'])
    done = False
    skips = []
    for s, v in res:
        x = resval(R, v)
        r = fold_ok(crates, I, R, fn, ref, m, st0, s, x, unit)
        if r is True:
            rows.append(('ok', 'left fold from the neutral element, every item once and in order', inst))
        else:
            skips.append(r)
    if not skips and res:
        return rows
    # unrolled: the first few lengths, compared item by item
    I, res, args, vals = rcall(crates, R, fn, m, st0, mode='peel', names=['iter'])
    src = None
    for s, v in res:
        x = resval(R, v)
        if s.unk or not isinstance(x, Poly):
            continue
        n = None
        for k in range(0, 4):
            if b_not(mk('bterm', 'has', args[0].args[2], P(k))) in s.facts.lits:
                n = k
        if n is None:
            continue
        acc = [(s, ZERO if unit == 0 else (ZERO if m is ONE else rem(ONE, m)))]
        for k in range(n):
            it = I.proj(I._pure(s, item(I, s, args[0], k, fn)), ('f', R.fi), s)
            it = P(it)
            nxt = []
            for s1, a in acc:
                s1 = s1.copy()
                s1.assume(ge(it, 0), lt(it, m))
                _, r2, _, _ = rcall(crates, R, ref, m, st0, names=['self', 'rhs'], given={0: a, 1: it})
                for s2, y in r2:
                    F = joint(s1, s2)
                    if not F.contradictory():
                        s3 = s1.copy()
                        s3.facts = F
                        nxt.append((s3, resval(R, y)))
            acc = nxt
        for s1, a in acc:
            w = wit.witness(s1.facts.lits, eq(x, a), boolfn(I))
            if w:
                rows.append(('bad', 'fold:%s' % inst, '%s (%s): over %d items the result is %s, the left fold is %s (for example %s)' % (fn.path, fn.span, n, show(x, 9), show(a, 9), w), 'left fold'))
                return rows
    for w in skips or ['no path']:
        rows.append(('skip', 'left fold', inst, w))
    return rows


def item(I, s, it, k, fn):
    return mk('item', it.args[2], P(k))


def fold_ok(crates, I, R, fn, ref, m, st0, s, x, unit):
    """True, or the reason it is not established"""
    if s.unk or not isinstance(x, Poly):
        return '%s %s' % (s.unk, show(x))
    u = ZERO if unit == 0 or m is ONE else None
    for info in I.loops_done:
        a = x.atom()
        if a is None or a not in info.phis:
            continue
        init = info.phis[a]
        if unit == 0:
            if not info.entry.facts.entails(eq(init, 0)):
                return 'starts from %s' % show(init)
        elif not (init is rem(ONE, m) or (m is ONE and init is ZERO)):
            return 'starts from %s' % show(init)
        pos = None
        for s2, b in info.backs:
            if a not in b:
                return 'accumulator'
            items = [t for t in atoms_deep(b[a]) if t.op == 'item']
            for l in s2.facts.lits:
                items += [t for t in atoms_deep(l) if t.op == 'item']
            items = list(dict.fromkeys(items))
            if len(items) != 1 or s2.unk:
                return 'items %s' % items
            it = items[0]
            if not s2.facts.entails(eq(it.args[1], info.it)):
                return 'position %s' % show(it.args[1])
            y = P(I.proj(it, ('f', R.fi), s2))
            s3 = s2.copy()
            s3.assume(ge(y, 0), lt(y, m), ge(P(a), 0), lt(P(a), m))
            _, r2, _, _ = rcall(crates, R, ref, m, st0, names=['self', 'rhs'], given={0: P(a), 1: y})
            for k, why, F in same(I, s3, b[a], [(q, resval(R, w)) for q, w in r2], None):
                if k != 'ok':
                    return 'step %s' % (why,)
        if not s.facts.entails(b_not(mk('bterm', 'has', src_of(info), info.it))):
            return 'stops at %s' % s.facts
        return True
    return 'no fold loop for %s' % show(x)


def src_of(info):
    for t in info.tmpl.values():
        for x in atoms_deep(t):
            if x.op == 'agg' and x.args[0] == 'OpIter':
                return x.args[2]
    return UNIT


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    Rs = residues(cr)
    ctx.floor(len(Rs), 2, 'residue types')
    tasks = []
    nvar = 0
    for R in Rs:
        if R.fi is None:
            ctx.skip('representation', R.name, 'no single integer field')
            continue
        cases, why = modulus(crates, R)
        if why or not cases:
            ctx.skip('modulus', R.name, why)
            continue
        refs, var = optable(cr, R)
        for o in OPS + ('Neg',):
            ctx.need(o in refs, '%s of %s by value' % (o, R.name))
        nvar += len(var)
        for m, st in cases:
            for o, fn, conv in var:
                if o not in refs:
                    continue
                if o == 'Neg':
                    tasks.append((fn.path, variant1, crates, R, refs[o], fn, m, st))
                else:
                    tasks.append((fn.path, variant, crates, R, refs[o], fn, o, m, st, conv))
            if m is ONE:
                continue    # a single canonical value: C06 decides
            for fn in cr.fns.values():
                if fn.body and fn.impl_trait and fn.impl_self and fn.impl_self[:2] == ('adt', R.adt) and last(fn.impl_trait) in ('Sum', 'Product') and fn.name in ('sum', 'product'):
                    u = 0 if fn.name == 'sum' else 1
                    tasks.append((fn.path, fold, crates, R, cr, fn, refs['Add' if u == 0 else 'Mul'], m, st, u))
    ctx.floor(nvar, 2 * (4 * 3 + 4 + 12 + 1), 'spellings')
    ctx.tasks(tasks, limit=45)
    ctx.assumptions.append('1 <= modulus <= 2^31; operands canonical; conversion of a generic integer is a function of it and the modulus (C05)')
