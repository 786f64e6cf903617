"""C04: the ready-made monoids obey the monoid laws for every primitive integer type."""
from drive import *

INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']
KINDS = {'Max': 'the larger', 'Min': 'the smaller', 'Additive': 'the sum', 'Multiplicative': 'the product'}


def impls(cr, trait):
    """ADT name -> (impl record) for impls of the trait on local types"""
    out = {}
    for im in cr.impls:
        if im['trait'] == trait and im['args'] and im['args'][0][0] == 'adt' and im['args'][0][1].startswith('rust_cp'):
            out[im['args'][0][1].split('::')[-1]] = im
    return out


def run_one(crates, kind, im, ity):
    cr = crates[0]
    rows = []
    I = AI(crates)
    gens = im['generics']
    if len(gens) != 1:
        return [('skip', 'monoid', kind, 'generics %s' % (gens,))]
    env = {gens[0]: ('int', ity)}
    lo, hi = INT_RANGE[ity]
    inst = '%s<%s>' % (kind, ity)
    want = {'Max': lo, 'Min': hi, 'Additive': 0, 'Multiplicative': 1}[kind]
    f = cr.fns[im['items']['identity']['path']]
    if I.norm_ty(f.output, env) != ('int', ity):
        return [('skip', 'monoid', inst, 'element type %s' % (f.output,))]
    res, _ = call(I, f.path, env=env)
    rows.append(('an', 'functions', 2))
    if not res:
        rows.append(('bad', 'identity:%s' % kind, '%s: identity() never returns for %s' % (f.span, ity), 'identity element'))
    for s, v in res:
        if s.unk or not isinstance(v, Poly) or v.const() is None:
            rows.append(('skip', 'identity element', inst, s.unk or show(v)))
        elif v.const() == want:
            rows.append(('ok', 'identity element', inst))
        else:
            rows.append(('bad', 'identity:%s:%s' % (kind, ity), '%s (%s): the identity for %s is %s, not neutral (expected %s)' % (f.path, f.span, inst, v.const(), want), 'identity element'))
    g = cr.fns[im['items']['binary_operation']['path']]
    I = AI(crates)
    res, args = call(I, g.path, env=env)
    a, b = [P(sym('*' + n, ity)) for n in arg_names(g)]
    total = []
    for s, v in res:
        if s.unk or not isinstance(v, Poly):
            rows.append(('skip', 'operation', inst, s.unk or show(v)))
            continue
        F = s.facts
        if kind in ('Max', 'Min'):
            ok = F.entails(eq(v, a)) or F.entails(eq(v, b))
            ge_ = (le(a, v), le(b, v)) if kind == 'Max' else (le(v, a), le(v, b))
            good = ok and all(F.entails(x) for x in ge_)
        else:
            w = a + b if kind == 'Additive' else a * b
            good = F.entails(eq(v, w))
            ok = False
        if good:
            rows.append(('ok', 'operation returns %s' % KINDS[kind], inst))
        elif opaque_value(v):
            rows.append(('skip', 'operation', inst, show(v)))
        else:
            rows.append(('bad', 'op:%s' % kind, '%s (%s): for %s the operation returns %s under %s, which is not %s of its operands' % (g.path, g.span, inst, show(v), s.facts, KINDS[kind]), 'operation'))
    # panics: only where the mathematical result does not fit
    for p in I.panics:
        st = p[3]
        if kind in ('Max', 'Min'):
            fits = TRUE
        else:
            w = a + b if kind == 'Additive' else a * b
            fits = b_and(ge(w, lo), le(w, hi))
        if st.unk:
            rows.append(('skip', 'operation', inst, st.unk))
        elif fits is TRUE or st.facts.entails(fits):
            rows.append(('bad', 'panic:%s' % kind, '%s (%s): %s can panic (%s at %s) although the result is representable' % (g.path, g.span, inst, p[0], p[1]), 'operation'))
        elif st.facts.entails(b_not(fits)):
            rows.append(('ok', 'panics only when the result is not representable', inst))
        else:
            rows.append(('skip', 'panics only when the result is not representable', inst, str(st.facts)))
    if not res:
        rows.append(('bad', 'op:%s' % kind, '%s: operation never returns for %s' % (g.span, inst), 'operation'))
    return rows


def opaque_value(v):
    return any(t.op in ('opaque', 'phi', 'havoc') for t in atoms_deep(v))


def run(ctx):
    cr = ctx.crate('debug')
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        im = impls(crates[0], 'rust_cp::traits::monoid::Monoid')
        for k in KINDS:
            if not ctx.need(k in im, 'monoid %s' % k):
                continue
            for t in INTS:
                tasks.append(('%s<%s> %s' % (k, t, cfg), run_one, crates, k, im[k], t))
    ctx.floor(len(tasks), 96, 'monoid instances')
    ctx.tasks(tasks)
    ctx.assumptions.append('min, max and the arithmetic operators of the primitive integers are those of std')
