"""C15: every aggregate above a changed element is recomputed, bottom up, and construction computes all of them."""
from tree import *
from c12 import trees

UNIT_RULE = 'the refresh step sets a node to the combination of its two halves, and nothing else'
BUILD = 'construction places the elements on the leaves and refreshes every inner node after its halves'
POINT = 'a point update changes one leaf and refreshes all nodes above it, bottom up'
RANGE = 'a range update refreshes every node that is partly covered, bottom up, and no other'


def run_update(crates, adt, ctor, lazy):
    f = steps_fn(crates, adt, 'update')
    o = Out(f, '%s::update' % adt.split('::')[-1])
    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        s = start(t)
        k = P(sym('k', 'usize'))
        s.assume(ge(k, 1), lt(k, SIZE))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), k])
        o.rows.append(('an', 'paths', len(res)))
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            cells_are(I, field(t, s2, 'd'), t.D, [(k, ('op', mk('sel', t.D, k * 2), mk('sel', t.D, k * 2 + 1)))], s2, {t.D, t.L}, 'node')
            if lazy:
                cells_are(I, field(t, s2, 'lz'), t.L, [], s2, {t.D, t.L}, 'pending update of node')
            o.ok(UNIT_RULE)
        panics(o, I, UNIT_RULE)
    except Stop as e:
        o.fail(UNIT_RULE, 'update', e)
    return o.rows


def steps_fn(crates, adt, n):
    return method(crates[0], adt, n)


def run_build(crates, adt, ctor, lazy):
    nm = '%s::from' % adt.split('::')[-1]
    o = Out(ctor, nm)
    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        abstract_steps(I, t)
        st = State()
        st.assume(ge(N, 0), le(N, MAXN))
        V = mk('carr', 'v', N)
        res, _ = call(I, ctor.path, st, [V])
        o.rows.append(('an', 'paths', len(res)))
        for s, v in res:
            try:
                if s.unk:
                    raise Stop(str(s.unk))
                val = lambda r: v.args[2 + t.role.index(r)]
                S = val('size')
                d = val('d')
                C = Cells(I)
                j = P(mk('anyidx', (d.id, 'leaf'), 'nat'))
                for lo, hi, w in ((S, S + N, ('cell', V, j - S)), (S + N, S * 2, ('id',))):
                    s1 = s.copy().assume(le(lo, j), lt(j, hi))
                    if s1.facts.contradictory():
                        continue
                    for s2, x in C.elem(d, j, s1):
                        g = want(x, w, s2)
                        if s2.facts.entails(g):
                            continue
                        if not known(x, {V}):
                            raise Stop('leaf %s holds %s' % (show(j), show(x, 5)))
                        raise Bad(s2, g, 'leaf %s holds %s' % (show(j), show(x, 5)))
                if lazy:
                    z = val('lz')
                    s1 = s.copy().assume(ge(j, 0), lt(j, S))
                    for s2, x in C.elem(z, j, s1):
                        if term(x) != ('idmap',):
                            raise Stop('pending update of node %s is %s' % (show(j), show(x, 5)))
                o.ok(BUILD)
                ls = [find(I, e[1]) for e in sequence(s) if e[0] == 'loop' and has(e[1], 'update')]
                if any(e[0] == 'step' for e in sequence(s)):
                    raise Stop('single steps')
                if not ls:
                    g = le(S, 1)
                    if s.facts.entails(g):
                        o.ok(BUILD)
                        continue
                    if any(e[0] == 'loop' for e in sequence(s)):
                        raise Stop('other loops')
                    raise Bad(s, g, 'no inner node is computed')
                if len(ls) > 1:
                    raise Stop('several loops')
                try:
                    chain(o, BUILD, ls[0], 'update', lambda it: S - 1 - it, S - 1, s)
                except Stop as e:
                    o.fail(BUILD, 'build', e, ls[0])
            except Stop as e:
                o.fail(BUILD, 'build', e)
        panics(o, I, BUILD)
    except Stop as e:
        o.fail(BUILD, 'build:shape', e)
    return o.rows


def run_point(crates, adt, ctor, lazy, f):
    o = Out(f, '%s::%s' % (adt.split('::')[-1], f.name))
    infos = []
    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        s = start(t)
        abstract_steps(I, t)
        p, x = P(sym('p', 'usize')), mk('sym', 'x', '?')
        s.assume(ge(p, 0), lt(p, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), p, x])
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
        q = SIZE + p
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            seq = sequence(s2)
            leafstep = [e for e in seq if e[0] == 'step' and e[1] == 'all_apply']
            old = mk('sel', t.D, q)
            w = x if f.name == 'set' else ('map', x, old)
            if leafstep and f.name != 'set':
                e = leafstep[0]
                g = eq(e[2], q)
                if len(leafstep) > 1 or e[3] is not x:
                    raise Stop('steps')
                if not s2.facts.entails(g):
                    raise Bad(s2, g, 'the update goes to node %s' % show(e[2]))
                w = None
            cells_are(I, field(t, s2, 'd'), t.D, [(q, w)], s2, {t.D, t.L, x}, 'node')
            if lazy:
                cells_are(I, field(t, s2, 'lz'), t.L, [], s2, {t.D, t.L, x}, 'pending update of node')
            o.ok(POINT)
            ups = [i for i, e in enumerate(seq) if e[0] == 'loop' and has(e[1], 'update')]
            if any(e[0] == 'step' and e[1] == 'update' for e in seq):
                raise Stop('single refresh steps')
            if not ups:
                if s2.facts.entails(le(G, 0)):
                    o.ok(POINT)
                    continue
                if not no_values(s2):
                    raise Stop('depends on values')
                raise Bad(s2, le(G, 0), 'no node above the leaf is refreshed')
            if len(ups) > 1:
                raise Stop('several refresh loops')
            info = find(I, seq[ups[0]][1])
            infos = [info]
            # the leaf is already changed when the refreshing starts
            d0 = field(t, info.entry, 'd')
            if not leafstep and d0 is not field(t, s2, 'd'):
                if d0 is t.D:
                    raise Bad(info.entry, le(G, 0), 'nodes are refreshed before the leaf is changed')
                raise Stop('written during the refresh')
            if leafstep and seq.index(leafstep[0]) > ups[0]:
                raise Bad(info.entry, le(G, 0), 'nodes are refreshed before the leaf is changed')
            if any(e[0] == 'loop' and has(e[1], 'push') for e in seq[ups[0] + 1:]):
                raise Stop('pushes after the refresh')
            chain(o, POINT, info, 'update', lambda it: shr(q, it + 1), G, s2)
        panics(o, I, POINT)
    except Stop as e:
        o.fail(POINT, f.name, e, *infos)
    return o.rows


def cut(x, i):
    """the border x runs through the node of height i that contains it"""
    return ne(x, shr(x, i) * pow2(i))


def run_range(crates, adt, ctor, lazy, f):
    o = Out(f, '%s::%s' % (adt.split('::')[-1], f.name))
    infos = []
    try:
        t = roles(crates, adt, ctor, lazy)
        I = AI(crates)
        s = start(t)
        abstract_steps(I, t)
        l, r, x = P(sym('l', 'usize')), P(sym('r', 'usize')), mk('sym', 'f', '?')
        s.assume(ge(l, 0), le(l, r), le(r, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), l, r, x])
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
        a, b = SIZE + l, SIZE + r
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            seq = sequence(s2)
            if s2.facts.entails(eq(l, r)):
                o.ok(RANGE)
                continue
            if any(e[0] == 'step' and e[1] == 'update' for e in seq):
                raise Stop('single refresh steps')
            ups = [i for i, e in enumerate(seq) if e[0] == 'loop' and has(e[1], 'update')]
            app = [i for i, e in enumerate(seq) if e[0] == 'loop' and has(e[1], 'all_apply')]
            if field(t, s2, 'd') is not t.D:
                raise Stop('nodes are written directly')
            if not ups:
                if any(e[0] == 'step' for e in seq):
                    raise Stop('single steps')
                if not no_values(s2):
                    raise Stop('depends on values')
                raise Bad(s2, FALSE, 'no node is refreshed')
            if app and min(ups) < max(app):
                raise Bad(find(I, seq[min(ups)][1]).entry, FALSE, 'nodes are refreshed before the update is recorded')
            infos = [find(I, seq[i][1]) for i in ups]
            for side, border, node in (('left', a, lambda i: shr(a, i)), ('right', b, lambda i: shr(b - 1, i))):
                ok = None
                for info in infos:
                    try:
                        refresh_side(info, border, node, side, s2)
                        ok = True
                        break
                    except Stop as e:
                        if ok is None or isinstance(e, Bad):
                            ok = (e, info)
                if ok is not True:
                    if isinstance(ok[0], Bad) and len(infos) > 1:
                        raise Stop(str(ok[0]))
                    infos = [ok[1]]
                    raise ok[0]
                o.ok(RANGE)
            for info in infos:
                only(info, a, b)
                o.ok(RANGE)
        panics(o, I, RANGE)
    except Stop as e:
        o.fail(RANGE, f.name, e, *(infos + [i for i in I.loops_done if i.phis and i not in infos] if infos else []))
    return o.rows


def refresh_side(info, border, node, side, s_exit):
    it = info.it
    i = it + 1
    for s, b in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        ks = [e[2] for e in events(s, 'update')]
        F = s.facts
        if F.entails(b_not(cut(border, i))):
            continue
        s1 = s.copy().assume(cut(border, i))
        gs = [eq(k, node(i)) for k in ks]
        if not any(s1.facts.entails(g) for g in gs):
            if not no_values(s1):
                raise Stop('depends on values')
            raise Bad(s1, b_or(FALSE, *gs), 'at height %s the node through which the %s end of the range runs is not refreshed' % (show(i), side))
    g = ge(it, G)
    if not s_exit.facts.entails(g):
        raise Bad(s_exit, g, 'refreshing stops after %s of %s levels' % (show(it), show(G)))


def only(info, a, b):
    """a refreshed node is one the border of the range runs through: a node inside the range keeps its recorded update"""
    i = info.it + 1
    for s, bb in info.backs:
        for e in events(s, 'update'):
            k = e[2]
            g = b_or(b_and(eq(k, shr(a, i)), cut(a, i)), b_and(eq(k, shr(b - 1, i)), cut(b, i)))
            alt = [b_and(eq(k, shr(a, i)), cut(a, i)), b_and(eq(k, shr(b - 1, i)), cut(b, i))]
            if not any(s.facts.entails(x) for x in alt) and not s.facts.entails(g):
                raise Bad(s, g, 'node %s is refreshed although its own update is still recorded on it' % show(k))


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        ts = trees(ctx, cfg)
        if not ts:
            return
        for crates, adt, ctor, lazy in ts:
            cr = crates[0]
            if method(cr, adt, 'update'):
                tasks.append((method(cr, adt, 'update').path, run_update, crates, adt, ctor, lazy))
            tasks.append((ctor.path, run_build, crates, adt, ctor, lazy))
            for m in ('set', 'apply') if lazy else ('set',):
                f = method(cr, adt, m)
                if not ctx.need(f, '%s::%s' % (adt, m)):
                    return
                tasks.append((f.path, run_point, crates, adt, ctor, lazy, f))
            if lazy:
                f = method(cr, adt, 'apply_range')
                if not ctx.need(f, '%s::apply_range' % adt):
                    return
                tasks.append((f.path, run_range, crates, adt, ctor, lazy, f))
    ctx.tasks(tasks, limit=150)
    ctx.floor(len(tasks), 12, 'functions')
    ctx.assumptions += ['length at most 2^30']
