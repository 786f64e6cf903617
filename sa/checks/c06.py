"""C06: every residue that leaves the library (except through the unchecked constructor) is below the modulus."""
from residue import *


def outs(R, s, v, args):
    """residues handed out on a path: returned, or left in what a &mut argument refers to"""
    r = residues_in(R, v)
    for a in args:
        if is_ref(a):
            x = s.mem.get(a.args[0])
            if x is not None:
                r += residues_in(R, x)
    return r


def judge(I, R, s, val, m):
    if not isinstance(val, Poly):
        return 'skip', show(val)
    if s.unk:
        return 'skip', s.unk
    good = b_and(ge(val, 0), lt(val, m))
    if s.facts.entails(good):
        return 'ok', None
    w = refuted(I, s, good)
    if w:
        return 'bad', w
    return 'skip', '%s' % show(val)


def check(crates, R, fn, m, st0):
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    I, res, args, vals = rcall(crates, R, fn, m, st0)
    rows.append(('an', 'paths', len(res)))
    todo = []
    for s, v in res:
        for t in outs(R, s, v, args):
            k, why = judge(I, R, s, t.args[2 + R.fi], m)
            todo.append((k, why, s, t))
    if all(k == 'ok' for k, *_ in todo):
        for _ in todo:
            rows.append(('ok', 'produced residue is below the modulus', inst))
        if not todo and not I.panics:
            rows.append(('skip', 'produces a residue', inst, 'no residue found on any path'))
        return rows
    # not proved: look for a path that definitely breaks it, unrolling loops
    bads = [(why, s, t) for k, why, s, t in todo if k == 'bad']
    if not bads:
        I, res, args, vals = rcall(crates, R, fn, m, st0, mode='peel')
        for s, v in res:
            for t in outs(R, s, v, args):
                k, why = judge(I, R, s, t.args[2 + R.fi], m)
                if k == 'bad':
                    bads.append((why, s, t))
    if bads:
        w, s, t = bads[0]
        rows.append(('bad', 'canonical:%s:%s' % (R.name, sig(fn)), '%s (%s) hands out the residue %s, which need not be below the modulus (for example %s)\non the path with %s'
                     % (fn.path, fn.span, show(t.args[2 + R.fi], 9), w, s.facts), 'below the modulus'))
    for k, why, s, t in todo:
        if k == 'skip':
            rows.append(('skip', 'below the modulus', inst, why))
    return rows


def sig(fn):
    return '%s%s(%s)' % (last(fn.impl_trait or fn.in_trait or '') + '::' if (fn.impl_trait or fn.in_trait) else '', fn.name, ', '.join(short(t) for t in fn.inputs))


def short(t):
    s = ty_str(t)
    import re
    return re.sub(r'[A-Za-z_0-9]+::', '', s)


def uses(crates, R, fn, m, st0, what):
    """equality, hashing and printing look at the representative only"""
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    H = RHooks(None)
    H.uses = []
    I, res, args, vals = rcall(crates, R, fn, m, st0, hooks=H)
    if what == 'eq':
        a, b = [I.proj(I._pure(State_of(st0, args, R, I), x), ('f', R.fi), st0) for x in args]
        f = eq(a, b)
        for s, v in res:
            if s.unk:
                rows.append(('skip', 'equality', inst, s.unk))
            elif is_bool(v) and s.copy().assume(v).facts.entails(f) and s.copy().assume(b_not(v)).facts.entails(b_not(f)):
                rows.append(('ok', 'equality compares representatives', inst))
            elif is_bool(v):
                w = refuted(I, s, b_or(b_and(v, f), b_and(b_not(v), b_not(f))))
                rows.append(('bad', 'eq:' + R.name, '%s: equality is %s, not equality of representatives (%s)' % (fn.path, show(v), w), 'equality') if w
                            else ('skip', 'equality', inst, show(v)))
            else:
                rows.append(('skip', 'equality', inst, show(v)))
        return rows
    # the only thing passed on to the hasher or formatter is the representative
    x = I.proj(I._pure(State_of(st0, args, R, I), args[0]), ('f', R.fi), st0)
    pays = list(dict.fromkeys(x for _, x in I.hooks.uses))
    for s, v in res:
        if len(pays) == 1 and pays[0] is x:
            rows.append(('ok', '%s uses the representative' % what, inst))
        elif pays and all(p is not x and s.facts.entails(ne(p, x)) for p in pays):
            rows.append(('bad', '%s:%s' % (what, R.name), '%s (%s): %s is given %s instead of the representative' % (fn.path, fn.span, what, show(pays[0])), what))
        else:
            rows.append(('skip', what, inst, '%s' % (pays,)))
    return rows


def State_of(st0, args, R, I):
    st = st0.copy()
    for a in args:
        while is_ref(a):
            r = a.args[0]
            if r in st.mem:
                break
            v, _ = operand(I, R, st, r[1], R.ty)
            st.mem[r] = v
            break
    return st


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    Rs = residues(cr)
    ctx.floor(len(Rs), 2, 'residue types')
    tasks = []
    for R in Rs:
        if R.fi is None:
            ctx.skip('representation', R.name, 'no single integer field')
            continue
        cases, why = modulus(crates, R)
        if why or not cases:
            ctx.skip('modulus', R.name, why)
            continue
        ps = producers(cr, R) + [f for f in defaults(cr, R) if f.output and f.name != 'raw']
        ctx.floor(len(ps), 40, 'producers of ' + R.name)
        for m, st in cases:
            for fn in ps:
                tasks.append((R.name + ' ' + fn.path, check, crates, R, fn, m, st))
            for fn in cr.fns.values():
                if not fn.body or not fn.impl_self or fn.impl_self[:2] != ('adt', R.adt) or not fn.impl_trait:
                    continue
                k = {'PartialEq::eq': 'eq', 'Hash::hash': 'hash', 'Display::fmt': 'Display', 'Debug::fmt': 'Debug'}.get(last(fn.impl_trait) + '::' + fn.name)
                if k:
                    tasks.append((R.name + ' ' + fn.path, uses, crates, R, fn, m, st, k))
        # fields cannot be set from outside
        a = cr.adts[R.adt]
    ctx.tasks(tasks, limit=45)
    ctx.assumptions.append('1 <= modulus <= 2^31; operands come from the library (canonical); reciprocal-reduction lemma (see sa/residue.py)')
