"""C05: converting any integer into a residue loses nothing."""
from residue import *
from checks.c06 import sig

INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']


def conversion(crates, fn, ity):
    """an implementation of the reduction: value mod modulus for every value of the type and 1 <= modulus <= 2^31"""
    rows = [('an', 'functions')]
    I = AI(crates)
    st = State()
    m = P(sym('modulus', 'u32'))
    x = P(sym('self', ity))
    st.assume(ge(m, 1), le(m, MMAX), I.in_range(x, ('int', ity)))
    res, args = call(I, fn.path, st, [x, m])
    rows.append(('an', 'paths', len(res)))
    want = rem(x, m)
    for s, v in res:
        if s.unk or not isinstance(v, Poly):
            rows.append(('skip', 'reduction', ity, s.unk or show(v)))
        elif s.facts.entails(eq(v, want)):
            rows.append(('ok', 'reduction is the mathematical remainder', ity))
        else:
            w = wit.witness(s.facts.lits, eq(v, want), None)
            if w:
                rows.append(('bad', 'reduce:' + ity, '%s (%s): the residue of %s values is computed as %s, which is not the remainder (for example %s)' % (fn.path, fn.span, ity, show(v, 9), w), 'reduction'))
            else:
                rows.append(('skip', 'reduction', ity, show(v)))
    for p in I.panics:
        st = p[3]
        if st.unk:
            rows.append(('skip', 'no panic', ity, st.unk))
            continue
        w = wit.witness(st.facts.lits, FALSE, None)
        if w:
            rows.append(('bad', 'panic:' + ity, '%s (%s): converting a %s value can stop with a panic (%s at %s; for example %s)' % (fn.path, fn.span, ity, p[0], p[1], w), 'reduction'))
        elif not st.facts.contradictory():
            rows.append(('skip', 'no panic', ity, '%s %s' % (p[0], st.facts)))
    if not res:
        rows.append(('bad', 'reduce:' + ity, '%s (%s) never returns' % (fn.path, fn.span), 'reduction'))
    return rows


def entry(crates, R, fn, m, st0, what):
    """constructors hand the whole integer and the current modulus to the reduction"""
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    I, res, args, vals = rcall(crates, R, fn, m, st0, names=['x'])
    t = mk('app', 'residue of', vals[0], m)
    TY[t] = 'u32'
    for s, v in res:
        x = resval(R, v)
        if s.unk or not isinstance(x, Poly):
            rows.append(('skip', 'conversion', inst, s.unk or show(v)))
        elif s.facts.entails(eq(x, P(t))):
            rows.append(('ok', 'conversion reduces the whole integer by the current modulus', inst))
        else:
            w = refuted(I, s, eq(x, P(t)))
            if w and not opaque_atoms(x):
                rows.append(('bad', 'convert:' + inst, '%s (%s) makes %s out of an integer, not its remainder by the modulus' % (fn.path, fn.span, show(x, 9)), 'conversion'))
            else:
                rows.append(('skip', 'conversion', inst, show(x)))
    return rows


def opaque_atoms(x):
    return any(t.op == 'opaque' or (t.op == 'app' and t.args[0] not in ('residue of',) and 'rem_euclid_u32' not in str(t.args[0])) for t in atoms_deep(x))


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    tasks = []
    seen = set()
    for im in cr.impls:
        if last(im['trait']) == 'RemEuclidU32' and im['args'][0][0] == 'int':
            ity = im['args'][0][1]
            seen.add(ity)
            for n, it in im['items'].items():
                fn = cr.fns.get(it.get('path'))
                if fn and fn.body:
                    tasks.append((fn.path, conversion, crates, fn, ity))
    for t in INTS:
        ctx.need(t in seen, 'conversion of ' + t)
    Rs = residues(cr)
    ctx.floor(len(Rs), 2, 'residue types')
    n = 0
    for R in Rs:
        if R.fi is None:
            ctx.skip('representation', R.name, 'no single integer field')
            continue
        cases, why = modulus(crates, R)
        if why or not cases:
            ctx.skip('modulus', R.name, why)
            continue
        fs = [f for f in cr.fns.values() if f.body and f.exported and f.impl_self and f.impl_self[:2] == ('adt', R.adt)
              and f.output and f.output[:2] == ('adt', R.adt) and len(f.inputs) == 1 and f.inputs[0][0] == 'param' and last(f.impl_trait or '') not in ('Sum', 'Product')]
        fs += [f for f in defaults(cr, R) if f.name == 'new']
        ctx.need(any(f.name == 'new' for f in fs), 'constructor of ' + R.name)
        ctx.need(any(f.name == 'from' for f in fs), 'From of ' + R.name)
        for m, st in cases:
            for f in fs:
                n += 1
                tasks.append((f.path, entry, crates, R, f, m, st, f.name))
        # mixing an integer into an operator goes through the same conversion: C07 decides that
    ctx.floor(len(seen), 12, 'integer types')
    ctx.tasks(tasks, limit=60)
    ctx.assumptions.append('1 <= modulus <= 2^31')
