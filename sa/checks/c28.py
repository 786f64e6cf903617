"""C28: the recursion helper forwards calls faithfully."""
from drive import *


def pairs(cr):
    """(constructor fn, call fn) for every type whose trait impl calls a stored function"""
    out = []
    for p, fn in cr.fns.items():
        if fn.name != 'call' or not fn.impl_trait or not fn.body or not fn.impl_self or fn.impl_self[0] != 'adt':
            continue
        if not fn.impl_trait.startswith('rust_cp'):
            continue
        new = [g for g in cr.fns.values() if g.impl_self and g.impl_self[0] == 'adt' and g.impl_self[1] == fn.impl_self[1]
               and not g.impl_trait and g.name == 'new' and g.body]
        if new:
            out.append((new[0], fn))
    return out


def check_pair(crates, new, fn):
    rows = [('an', 'functions', 2)]
    nm = fn.impl_self[1].split('::')[-1]
    I = AI(crates)
    res, args = call(I, new.path)
    if len(res) != 1:
        return rows + [('skip', 'constructor', nm, '%d paths' % len(res))]
    st, obj = res[0]
    F = args[0]
    if F not in atoms_deep(obj):
        rows.append(('bad', 'stored:' + nm, '%s does not store the closure it is given' % new.path))
        return rows
    rows.append(('ok', 'closure stored', nm))
    # the receiver is any object of the type, not only a fresh one
    res2, a = call(I, fn.path)
    rows.append(('an', 'paths', len(res2)))
    if not res2 and not I.panics:
        rows.append(('bad', 'returns:' + nm, '%s never returns' % fn.path))
    # where the constructor puts the closure
    path = find_path(obj, F)
    for s, v in res2:
        inst = '%s, %d arguments' % (nm, len(a) - 1)
        if s.unk or path is None:
            rows.append(('skip', 'forwarding', inst, s.unk or 'closure position'))
            continue
        evs = [e for e in s.events() if e[0] == 'callfn']
        n, inl = count_events(s.events(), lambda e: e[0] == 'callfn')
        if n != 1 or inl:
            rows.append(('bad', 'once:' + nm, '%s (%s) runs the stored closure %s times on a path' % (fn.path, fn.span, 'several' if inl else n), 'exactly one call'))
            continue
        rows.append(('ok', 'exactly one call', inst))
        init = State()
        obj0 = sym_value(I, init, arg_names(fn)[0], I.norm_ty(fn.inputs[0], {}))
        F0 = init.mem[obj0.args[0]]
        for e in path:
            F0 = I.proj(F0, ('f', e), init)
        me = lambda t: isinstance(t, T) and t.op in ('agg', 'upd') and F0 in atoms_deep(t)
        good = isinstance(v, T) and v.op == 'app' and v.args[0] == 'call' and v.args[1] is F0 and len(v.args) == 2 + len(a) \
            and me(v.args[2]) and all(x is y for x, y in zip(v.args[3:], a[1:]))
        if good:
            rows.append(('ok', 'object and arguments in order, result returned', inst))
        else:
            rows.append(('bad', 'forward:' + nm, '%s (%s) returns %s instead of closure(object, arguments in order)' % (fn.path, fn.span, show(v, 8)), 'forwarding'))
    for p in I.panics:
        if p[3].unk or p[0].startswith('overflow'):
            continue
        rows.append(('bad', 'panic:' + nm, '%s can stop with a panic (%s at %s) that the closure did not raise' % (fn.path, p[0], p[1]), 'forwarding'))
    return rows


def find_path(v, x):
    """field path of x inside the aggregate v"""
    if v is x:
        return ()
    if isinstance(v, T) and v.op == 'agg':
        for i, w in enumerate(v.args[2:]):
            r = find_path(w, x)
            if r is not None:
                return (i,) + r
    return None


def run(ctx):
    crates = ctx.crates('debug')
    ps = pairs(crates[0])
    ctx.floor(len(ps), 10, 'recursive-function types')
    arities = sorted(len(f.inputs) - 1 for _, f in ps)
    for k in range(10):
        ctx.need(k in arities, 'recursive function of arity %d' % k)
    ctx.tasks([(f.path, check_pair, crates, n, f) for n, f in ps])
