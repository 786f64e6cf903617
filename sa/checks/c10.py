"""C10: out-of-range positions and reversed ranges end in a panic that leaves the container as it was."""
from container import *
from wit import witness

N = P(sym('N', 'usize'))
M = P(sym('M', 'usize'))
# argument kinds: 'idx' position < N, 'end' boundary <= N, ('idx', X)/( 'end', X), 'lo' reversed against the next 'end'
SPECS = [
    ('Segtree', 'from', 'vec', {'set': [('idx', 1, N)], 'get': [('idx', 1, N)], 'prod': [('rng', 1, 2), ('end', 2, N)],
                                'max_right': [('end', 1, N)], 'min_left': [('end', 1, N)]}),
    ('LazySegtree', 'from', 'vec', {'set': [('idx', 1, N)], 'get': [('idx', 1, N)], 'prod': [('rng', 1, 2), ('end', 2, N)],
                                    'apply': [('idx', 1, N)], 'apply_range': [('rng', 1, 2), ('end', 2, N)],
                                    'max_right': [('end', 1, N)], 'min_left': [('end', 1, N)]}),
    ('FenwickTree', 'new', 'n', {'pref': [('end', 1, N)], 'add': [('idx', 1, N)], 'sum': [('rng', 1, 2), ('end', 2, N)]}),
    ('SparseTable', 'from', 'sparse', {'get': [('rng', 1, 2), ('end', 2, N)]}),
    ('UnionFind', 'new', 'n', {'find': [('idx', 1, N)], 'is_same': [('idx', 1, N), ('idx', 2, N)], 'join': [('idx', 1, N), ('idx', 2, N)],
                               'size': [('idx', 1, N)]}),
    ('Factorial', 'new', 'n', {'choose': [('rng', 2, 1), ('end', 1, N)], 'perm': [('rng', 2, 1), ('end', 1, N)]}),
    ('Dinic', 'new', 'n', {'add_edge': [('idx', 1, N), ('idx', 2, N)], 'get_max_flow': [('idx', 1, N), ('idx', 2, N)]}),
    ('AugmentedPath', 'new', 'nm', {'add_edge': [('idx', 1, N), ('idx', 2, M)]}),
    ('HLD', None, 'tree', {'get': [('idx', 1, N)], 'set': [('idx', 1, N)], 'apply_subtree': [('idx', 1, N)], 'subtree_prod': [('idx', 1, N)],
                           'apply_path': [('idx', 1, N), ('idx', 2, N)], 'path_prod': [('idx', 1, N), ('idx', 2, N)]}),
    ('BinaryLifting', None, 'tree', {'is_ancestor': [('idx', 1, N), ('idx', 2, N)], 'lca': [('idx', 1, N), ('idx', 2, N)],
                                     'dis': [('idx', 1, N), ('idx', 2, N)]}),
]


class H(NoResidues):
    def on_recursion(self, I, fn, args, st, fr, span):
        return None


def tree_shape(I, adt, cr):
    """per-vertex tables of one length"""
    a = cr.adts[adt]
    vals = []
    for f in a['variants'][0]['fields']:
        t = cr.ty(f['t'])
        nm = 'self.' + f['n']
        if t[0] == 'adt' and t[1].endswith('::Vec'):
            el = t[2][0]
            if el[0] == 'adt' and el[1].endswith('::Vec'):
                vals.append(mk('comp', mk('sel', mk('sym', nm + '[]', '?'), P(HOLE)), N))
            else:
                vals.append(mk('carr', nm, N))
        elif t[0] == 'int':
            vals.append(P(sym(nm, t[1])))
        else:
            vals.append(mk('sym', nm, '?'))
    st = State()
    st.assume(ge(N, 1), le(N, MAXN))
    return [Shape_(AGG(adt, 0, *vals), st, N)]


def ctor_args(kind):
    st = State()
    st.assume(ge(N, 0), le(N, MAXN), ge(M, 0), le(M, MAXN))
    if kind == 'vec':
        return st, [mk('carr', 'v', N)]
    if kind == 'n':
        return st, [N]
    if kind == 'nm':
        return st, [N, M]
    if kind == 'sparse':
        st.mem[('obj', 'v')] = mk('carr', 'v', N)
        return st, [ref(('obj', 'v')), mk('sym', 'init', '?'), mk('sym', 'op', '?')]


def conds(spec, args):
    for s in spec:
        if s[0] == 'idx':
            yield 'position outside', gt(args[s[1]], s[2] - 1)
        elif s[0] == 'end':
            yield 'position outside', gt(args[s[1]], s[2])
        else:
            yield 'reversed range', gt(args[s[1]], args[s[2]])


def changed(s, root, before):
    after = s.mem.get(root)
    return after is not None and after is not before and not (isinstance(after, T) and s.facts.simp(after) is s.facts.simp(before))


def analyse(crates, fn, shape, spec, ci, mode, nm):
    I = AI(crates, H(), mode=mode, peel=2)
    st = shape.state.copy()
    names = arg_names(fn)
    args = []
    root = ('obj', 'self')
    for i, t in enumerate(fn.inputs):
        if i == 0:
            if t[0] != 'ref':
                return None
            st.mem[root] = shape.value
            args.append(ref(root))
        else:
            v = sym_value(I, st, names[i], I.norm_ty(t, {}))
            args.append(v)
    for a in args:
        if isinstance(a, Poly):
            st.assume(ge(a, 0))
    what, c = list(conds(spec, args))[ci]
    st.assume(c)
    if st.facts.contradictory():
        return 'void', what, [], [], I, root
    before = st.mem[root]
    res, _ = call(I, fn.path, st, args)
    return c, what, res, list(I.panics), I, (root, before)


def pretty(s):
    return ', '.join(show(l) for l in s.facts.lits[-4:])


def check(crates, fn, shape, spec, ci, config, ty, k):
    nm = '%s::%s case %d (%s)' % (ty, fn.name, k, config)
    rows = [('an', 'operations')]
    r = None
    try:
        r = analyse(crates, fn, shape, spec, ci, 'inv', nm)
    except (Unknown, RuntimeError) as e:
        rows0 = [('skip', 'refused', nm, str(e))]
    if r is None:
        try:
            r = analyse(crates, fn, shape, spec, ci, 'peel', nm)
        except (Unknown, RuntimeError) as e:
            return rows + [('skip', 'refused', nm, str(e))]
        if r is None:
            return rows + [('skip', 'refused', nm, 'receiver is not a reference')]
    if r[0] == 'void':
        return rows
    c, what, res, panics, I, (root, before) = r
    rows.append(('an', 'paths', len(res) + len(panics)))
    inst = '%s: %s' % (nm, what)

    def confirm(states):
        for s in states:
            if s.unk:
                continue
            env = witness(list(s.facts.lits), FALSE)
            if env:
                return s, env
        return None
    bad = None
    if not res:
        rows.append(('ok', 'every path of a refused request panics', inst))
    else:
        bad = confirm([s for s, v in res])
        if bad is None:
            try:
                r2 = analyse(crates, fn, shape, spec, ci, 'peel', nm)
                bad = confirm([s for s, v in r2[2]])
            except (Unknown, RuntimeError):
                pass
        if bad:
            env = bad[1]
            rows.append(('bad', 'refused:%s:%s' % (ty, fn.name), '%s (%s) returns normally for a %s (%s build)\non the path with %s\ne.g. %s'
                         % (fn.path, fn.span, what, config, bad[0].facts, env), 'every path of a refused request panics'))
        else:
            s = res[0][0]
            rows.append(('skip', 'every path of a refused request panics', inst, '%s %s' % (s.unk, pretty(s))))
    good = True
    for p in panics:
        s = p[3]
        if not changed(s, root, before):
            continue
        good = False
        env = None if s.unk else witness(list(s.facts.lits), FALSE)
        if env and not bad:
            rows.append(('bad', 'unchanged:%s:%s' % (ty, fn.name), '%s (%s) changes the container before it refuses a %s (%s at %s, %s build)\non the path with %s\ne.g. %s'
                         % (fn.path, fn.span, what, p[0], p[1], config, s.facts, env), 'a refused request changes nothing'))
            break
        rows.append(('skip', 'a refused request changes nothing', inst, pretty(s)))
    if good and panics:
        rows.append(('ok', 'a refused request changes nothing', inst))
    return rows


def run(ctx):
    tasks = []
    nops = 0
    for config in ('debug', 'release'):
        crates = ctx.crates(config)
        cr = crates[0]
        for ty, ct, kind, ops in SPECS:
            adt = find_adt(cr, ty)
            if not ctx.need(adt, ty):
                continue
            shp = None
            try:
                if ct is None:
                    shp = tree_shape(AI(crates), adt, cr)
                else:
                    cs = [f for f in ctors(cr, adt) if f.name == ct]
                    if not ctx.need(len(cs) == 1, '%s::%s' % (ty, ct)):
                        continue
                    st, args = ctor_args(kind)
                    shp = shapes(crates, adt, cs[0], args, st, N, H())
            except (Unknown, RuntimeError) as e:
                ctx.skip('shape', ty, e)
            for op, spec in ops.items():
                f = method(cr, adt, op)
                if not ctx.need(f, '%s::%s' % (ty, op)):
                    continue
                nops += 1
                if shp is None:
                    continue
                k = 0
                for s in shp:
                    for ci in range(len(spec)):
                        k += 1
                        tasks.append((f.path, check, crates, f, s, spec, ci, config, ty, k))
    ctx.tasks(tasks, limit=45)
    ctx.floor(nops, 60, 'operations taking positions')
    ctx.assumptions.append('container length at most 2^30; fields keep the sizes the constructor gives them (reassigned or resized fields are found and kept arbitrary)')
