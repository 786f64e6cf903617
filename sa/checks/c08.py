"""C08: after set_modulus the cell is exactly what a fresh cell of the new modulus is; refusals come before any change;
no other operation touches the cell; identities have their own cells."""
from residue import *
from checks.c06 import sig


def cell_of(st):
    for k, v in st.mem.items():
        if k[0] == 'sref':
            return k, v
    return None, None


def leaves(I, st, v, pre=()):
    """field values of a (nested) aggregate"""
    if isinstance(v, T) and v.op == 'agg':
        for i, x in enumerate(v.args[2:]):
            yield from leaves(I, st, x, pre + (i,))
    else:
        yield pre, v


def same_value(I, s, a, b):
    """every leaf equal on the path: None, or the pair that differs"""
    la, lb = list(leaves(I, s, a)), list(leaves(I, s, b))
    if [p for p, _ in la] != [p for p, _ in lb]:
        return (a, b)
    for (_, x), (_, y) in zip(la, lb):
        if x is y:
            continue
        if isinstance(x, (T, Poly)) and isinstance(y, (T, Poly)) and I.elem_eq(x, y, s):
            continue
        return (x, y)
    return None


def ctor_of(I, R, cell):
    mk_ = [f for f in I.fns.values() if f.name == cell.args[0].split('::')[-1] and f.impl_trait and f.output and f.output[0] == 'ref']
    ct = {f.output[1] for f in mk_}
    ct = ct.pop() if len(ct) == 1 else None
    ctor = [f for f in I.fns.values() if ct and f.body and f.impl_self == ct and not f.impl_trait and f.exported
            and list(f.inputs) == [('int', 'u32')] and f.output == ct]
    return ct, ctor, mk_


def setter(crates, R, fn, m, st0, accepted):
    rows = [('an', 'functions')]
    inst = '%s: %s, old modulus %s' % (R.name, sig(fn), show(m))
    n = P(sym('new modulus', 'u32'))
    st = st0.copy()
    key, old = cell_of(st)
    st.assume(ge(n, 0), le(n, 2**32 - 1))

    def go(mode):
        I = RAI(crates, R, mode=mode, m=m)
        res, _ = call(I, fn.path, st.copy(), [n], {g: ('param', g) for g in fn.generics})
        return I, res
    I, res = go('inv')
    if not res and not I.panics:
        return rows + [('skip', 'modulus is set', inst, 'no path')]
    okr = b_and(ge(n, 1), le(n, MMAX))
    for k, sp, fp, s, stk, ex in I.panics:
        rows.append(('an', 'refusing paths'))
        d = same_value(I, s, old, s.mem.get(key, old))
        if d is not None:
            w = refuted(I, s, eq(*d)) if all(isinstance(x, Poly) for x in d) else None
            if w is not None:
                rows.append(('bad', 'refuse-late:%s' % R.name, '%s (%s): the refusal at %s comes after the modulus cell was already changed (%s became %s, for example %s)'
                             % (fn.path, fn.span, sp, show(d[0]), show(d[1]), w), 'refused before any change'))
            else:
                rows.append(('skip', 'refused before any change', inst, '%s vs %s' % (show(d[0]), show(d[1]))))
        else:
            rows.append(('ok', 'refused before any change', inst))
        if s.facts.entails(b_not(okr)) or s.facts.entails(b_not(b_and(ge(n, 1), lt(n, MMAX)))):
            rows.append(('ok', 'only impossible moduli are refused', inst))
        else:
            w = refuted(I, s, b_not(b_and(ge(n, 1), lt(n, MMAX))))
            rows.append(('bad', 'refuse:%s' % R.name, '%s (%s): refuses the modulus %s' % (fn.path, sp, w), 'refusal') if w is not None
                        else ('skip', 'only impossible moduli are refused', inst, str(s.facts)))
    for s, v in res:
        rows.append(('an', 'accepting paths'))
        if s.unk:
            rows.append(('skip', 'modulus is set', inst, s.unk))
            continue
        if not s.facts.entails(okr):
            w = refuted(I, s, okr)
            rows.append(('bad', 'accept:%s' % R.name, '%s (%s): accepts the modulus %s' % (fn.path, fn.span, w), 'guard') if w is not None
                        else ('skip', 'zero and too large moduli are refused', inst, str(s.facts)))
            continue
        rows.append(('ok', 'zero and too large moduli are refused', inst))
        others = [k for k, x in s.mem.items() if k[0] in ('sref', 'static') and k != key]
        if others:
            rows.append(('bad', 'foreign:%s' % R.name, '%s (%s): writes %s, which is not the modulus cell of its own identity' % (fn.path, fn.span, others[0][1] if others[0][0] == 'static' else show(others[0][1])), 'own cell only'))
        else:
            rows.append(('ok', 'only the cell of the own identity is written', inst))
        # the cell a constructor builds for the new modulus
        J = RAI(crates, R, m=m)
        s1 = s.copy()
        rs = [(s2, c) for s2, c in call(J, accepted, s1, [n])[0] if not s2.facts.contradictory()]
        if not rs:
            rows.append(('skip', 'cell belongs to the new modulus', inst, 'constructor'))
        for s2, c in rs:
            d = same_value(I, s2, c, s2.mem[key])
            if d is None:
                rows.append(('ok', 'cell belongs to the new modulus', inst))
            else:
                w = refuted(I, s2, eq(*d)) if all(isinstance(x, Poly) for x in d) and not s.unk else None
                if w is not None:
                    rows.append(('bad', 'stale:%s' % R.name, '%s (%s): after the modulus is set a part of the cell is %s, the new modulus needs %s (for example %s)'
                                 % (fn.path, fn.span, show(d[1]), show(d[0]), w), 'cell belongs to the new modulus'))
                else:
                    rows.append(('skip', 'cell belongs to the new modulus', inst, '%s vs %s' % (show(d[1]), show(d[0]))))
    return rows


def getter(crates, R, fn, m, st0):
    I, res, args, vals = rcall(crates, R, fn, m, st0)
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    for s, v in res:
        if not s.unk and isinstance(v, Poly) and s.facts.entails(eq(v, m)):
            rows.append(('ok', 'the modulus reported is the one set', inst))
        else:
            w = refuted(I, s, eq(v, m)) if isinstance(v, Poly) else None
            rows.append(('bad', 'modulus:%s' % R.name, '%s (%s): reports %s for the modulus %s' % (fn.path, fn.span, show(v), show(m)), 'modulus') if w is not None
                        else ('skip', 'the modulus reported is the one set', inst, '%s %s' % (show(v), s.unk)))
    return rows


def keeps(crates, R, fn, m, st0):
    """any other operation leaves the cell alone"""
    rows = [('an', 'functions')]
    inst = '%s: %s' % (R.name, sig(fn))
    key, old = cell_of(st0)
    I, res, args, vals = rcall(crates, R, fn, m, st0)
    for s, v in res:
        new = s.mem.get(key, old)
        d = same_value(I, s, old, new)
        others = [k for k, x in s.mem.items() if k[0] in ('sref', 'static') and k != key]
        if others:
            rows.append(('skip', 'other operations leave the cell alone', inst, 'writes %s' % (others[0],)))
        elif d is None:
            rows.append(('ok', 'other operations leave the cell alone', inst))
        else:
            w = refuted(I, s, eq(*d)) if all(isinstance(x, Poly) for x in d) else None
            rows.append(('bad', 'touches:%s:%s' % (R.name, sig(fn)), '%s (%s) changes the modulus cell: %s becomes %s' % (fn.path, fn.span, show(d[0]), show(d[1])), 'cell') if w is not None
                        else ('skip', 'other operations leave the cell alone', inst, '%s -> %s' % (show(d[0]), show(d[1]))))
    return rows


def identities(crates, R, impls, ctor):
    rows = []
    used = {}
    for fn in impls:
        rows.append(('an', 'identities'))
        I = RAI(crates, R, m=P(sym('m', 'u32')))
        res, _ = call(I, fn.path)
        inst = fn.path
        roots = set()
        for s, v in res:
            if s.unk or not is_ref(v):
                rows.append(('skip', 'an identity has a cell of its own', inst, '%s %s' % (s.unk, show(v))))
                continue
            roots.add((v.args[0], v.args[1]))
        for r in roots:
            if r[0][0] != 'static' or r[1]:
                rows.append(('skip', 'an identity has a cell of its own', inst, repr(r)))
            elif r in used:
                rows.append(('bad', 'shared:' + fn.path, '%s (%s) hands out the same cell %s as %s' % (fn.path, fn.span, r[0][1], used[r]), 'own cell'))
            else:
                used[r] = fn.path
                rows.append(('ok', 'an identity has a cell of its own', inst))
            # the initial value of the cell
            f = I.fns.get(r[0][1])
            if f is None or not f.body:
                rows.append(('skip', 'initial cell is consistent', inst, 'no initialiser'))
                continue
            for s, v in call(I, f.path)[0]:
                lv = [x for _, x in leaves(I, s, v)]
                good = False
                for x in lv:
                    c = x.const() if isinstance(x, Poly) else None
                    if c is None or not 1 <= c <= MMAX:
                        continue
                    J = RAI(crates, R, m=P(c))
                    for s2, want in call(J, ctor, State(), [P(c)])[0]:
                        if same_value(J, s2, want, v) is None:
                            good = True
                if good:
                    rows.append(('ok', 'initial cell is consistent', inst))
                elif lv and all(isinstance(x, Poly) and x.const() is not None for x in lv) and not s.unk:
                    rows.append(('bad', 'initial:' + fn.path, '%s: the cell starts as %s, which belongs to no modulus' % (f.path, show(v)), 'initial cell'))
                else:
                    rows.append(('skip', 'initial cell is consistent', inst, show(v)))
    return rows


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    Rs = [R for R in residues(cr)]
    tasks = []
    dyn = 0
    for R in Rs:
        if R.fi is None:
            continue
        cases, why = modulus(crates, R)
        if why or not cases:
            ctx.skip('modulus', R.name, why)
            continue
        key, _ = cell_of(cases[0][1])
        if key is None:
            continue        # compile-time modulus
        dyn += 1
        I = RAI(crates, R)
        ct, ctor, impls = ctor_of(I, R, key[1])
        sets = [f for f in cr.fns.values() if f.body and f.impl_self and f.impl_self[:2] == ('adt', R.adt) and f.name == 'set_modulus' and list(f.inputs) == [('int', 'u32')]]
        if not ctx.need(len(sets) == 1 and sets[0].exported, 'set_modulus of ' + R.name):
            continue
        ctx.need(impls, 'identity implementation for ' + R.name)
        gets = [f for f in cr.fns.values() if f.body and f.name == 'modulus' and f.impl_self and f.impl_self[:2] == ('adt', R.adt) and not f.inputs]
        ctx.need(gets, 'modulus of ' + R.name)
        for m, st in cases:
            tasks.append((sets[0].path, setter, crates, R, sets[0], m, st, ctor[0].path))
            for f in gets:
                tasks.append((f.path, getter, crates, R, f, m, st))
            if m is ONE:
                continue
            ops = [f for f in cr.fns.values() if f.body and f.exported and f.impl_self and f.impl_self[:2] == ('adt', R.adt) and f is not sets[0]]
            ops += [f for f in defaults(cr, R)]
            ctx.floor(len(ops), 40, 'operations of ' + R.name)
            for f in ops:
                tasks.append((f.path, keeps, crates, R, f, m, st))
        tasks.append((R.name, identities, crates, R, impls, ctor[0].path))
    ctx.floor(dyn, 1, 'run-time modulus types')
    ctx.tasks(tasks, limit=45)
    ctx.assumptions.append('1 <= modulus <= 2^31 before the call; user-supplied identities return a cell of their own, as their contract says')
