"""C13: pending range updates of the lazy segment tree are handed down in order, before anything below them is touched."""
from tree import *
from c12 import trees
from c15 import cut, steps_fn

APPLY = 'recording an update changes the aggregate of the node and is composed outside what is already recorded there'
PUSH = 'handing down gives the recorded update to both children and clears it, and nothing else'
POINT = 'everything recorded above an element is handed down, top first, before the element is read or written'
RANGE = 'everything recorded above a block of the range is handed down, top first, before the block is read or updated'
ONCE = 'a range update is recorded exactly once on every element of the range'
SEARCH = 'everything recorded above a node is handed down, top first, before a search reads the node'


def cell(a, i):
    return ('cell', a, i)


def run_all_apply(crates, adt, ctor):
    f = steps_fn(crates, adt, 'all_apply')
    o = Out(f, '%s::all_apply' % tail(adt))
    try:
        t = roles(crates, adt, ctor, True)
        I = AI(crates)
        s = start(t)
        k, g = P(sym('k', 'usize')), mk('sym', 'f', '?')
        s.assume(ge(k, 1), lt(k, LEN))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), k, g])
        o.rows.append(('an', 'paths', len(res)))
        L = {t.D, t.L, g}
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            cells_are(I, field(t, s2, 'd'), t.D, [(k, ('map', g, cell(t.D, k)))], s2, L, 'node')
            o.ok(APPLY)
            for c, ch in ((lt(k, SIZE), [(k, ('comp', g, cell(t.L, k)))]), (ge(k, SIZE), [])):
                s3 = s2.copy().assume(c)
                if s3.facts.contradictory():
                    continue
                cells_are(I, field(t, s3, 'lz'), t.L, ch, s3, L, 'pending update of node')
            o.ok(APPLY)
        panics(o, I, APPLY)
    except Stop as e:
        o.fail(APPLY, 'all_apply', e)
    return o.rows


def run_push(crates, adt, ctor):
    f = steps_fn(crates, adt, 'push')
    o = Out(f, '%s::push' % tail(adt))
    try:
        t = roles(crates, adt, ctor, True)
        I = AI(crates)
        s = start(t)
        k = P(sym('k', 'usize'))
        s.assume(ge(k, 1), lt(k, SIZE))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), k])
        o.rows.append(('an', 'paths', len(res)))
        L = {t.D, t.L}
        z = cell(t.L, k)
        kids = (k * 2, k * 2 + 1)
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            cells_are(I, field(t, s2, 'd'), t.D, [(c, ('map', z, cell(t.D, c))) for c in kids], s2, L, 'node')
            o.ok(PUSH)
            for c, low in ((lt(k * 2, SIZE), True), (ge(k * 2, SIZE), False)):
                s3 = s2.copy().assume(c)
                if low:
                    # the number of leaves is even when there is an inner node below another
                    s3.assume(ge(G, 1), eq(SIZE, pow2(G - 1) * 2), lt(k, pow2(G - 1)), lt(k * 2 + 1, SIZE))
                if s3.facts.contradictory():
                    continue
                ch = [(k, ('idmap',))]
                if low:
                    ch += [(c, ('comp', z, cell(t.L, c))) for c in kids]
                cells_are(I, field(t, s3, 'lz'), t.L, ch, s3, L, 'pending update of node')
            o.ok(PUSH)
        panics(o, I, PUSH)
    except Stop as e:
        o.fail(PUSH, 'push', e)
    return o.rows


def push_loops(I, seq):
    return [(i, find(I, e[1])) for i, e in enumerate(seq) if e[0] == 'loop' and has(e[1], 'push')]


def run_point(crates, adt, ctor, f):
    o = Out(f, '%s::%s' % (tail(adt), f.name))
    infos = []
    try:
        t = roles(crates, adt, ctor, True)
        I = AI(crates)
        s = start(t)
        D1 = mk('carr', 'self.d pushed', LEN)
        abstract_steps(I, t, after=D1)
        p, x = P(sym('p', 'usize')), mk('sym', 'x', '?')
        s.assume(ge(p, 0), lt(p, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), p, x][:len(f.inputs)])
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
        q = SIZE + p
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            seq = sequence(s2)
            ps = push_loops(I, seq)
            if any(e[0] == 'step' and e[1] == 'push' for e in seq):
                raise Stop('single steps')
            if not ps:
                if s2.facts.entails(le(G, 0)):
                    o.ok(POINT)
                    continue
                if not no_values(s2):
                    raise Stop('depends on values')
                raise Bad(s2, le(G, 0), 'what is recorded above the element is not handed down')
            if len(ps) > 1:
                raise Stop('several loops')
            at, info = ps[0]
            infos = [info]
            chain(o, POINT, info, 'push', lambda it: shr(q, G - it), G, s2)
            # nothing of the tree has been touched before
            d0 = field(t, info.entry, 'd')
            if d0 is not t.D:
                raise Bad(info.entry, le(G, 0), 'the element is written before updates above it are handed down')
            for e in seq[:at]:
                if e[0] == 'step':
                    raise Bad(info.entry, le(G, 0), '%s before updates above the element are handed down' % e[1])
                if any(events(b[0]) for b in e[1].backs):
                    raise Stop('steps before the handing down')
            if not info.phis and not any(field(t, b, 'd') is D1 for b, _ in info.backs):
                raise Stop('array')
            # values read for the result or for the update are read afterwards
            for y in [v, field(t, s2, 'd')]:
                for z in atoms_deep(y) if isinstance(y, (T, Poly)) else ():
                    if z.op == 'sel' and z.args[0] is t.D:
                        g = le(G, 0)
                        if not s2.facts.entails(g):
                            raise Bad(s2, g, 'node %s is read before updates above it are handed down' % show(z.args[1]))
            o.ok(POINT)
        panics(o, I, POINT)
    except Stop as e:
        o.fail(POINT, f.name, e, *infos)
    return o.rows


def reads(s, t):
    """nodes whose value is combined on a path"""
    out = []
    for e in s.events():
        if e[0] == 'op':
            for y in e[2]:
                for z in atoms_deep(y) if isinstance(y, (T, Poly)) else ():
                    if z.op == 'sel' and z.args[0] is t.D:
                        out.append(z.args[1])
    return out


def run_range(crates, adt, ctor, f):
    o = Out(f, '%s::%s' % (tail(adt), f.name))
    infos = []
    try:
        t = roles(crates, adt, ctor, True)
        I = AI(crates)
        s = start(t)
        abstract_steps(I, t)
        l, r, x = P(sym('l', 'usize')), P(sym('r', 'usize')), mk('sym', 'f', '?')
        s.assume(ge(l, 0), le(l, r), le(r, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), l, r, x][:len(f.inputs)])
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
        a, b = SIZE + l, SIZE + r
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            seq = sequence(s2)
            if any(e[0] == 'step' and e[1] == 'push' for e in seq):
                raise Stop('single steps')
            used = [i for i, e in enumerate(seq) if e[0] == 'loop' and (has(e[1], 'all_apply') or any(reads(bs, t) for bs, _ in e[1].backs))]
            app = [i for i in used if has(seq[i][1], 'all_apply')]
            empty = s2.facts.entails(eq(l, r))
            ps = push_loops(I, seq)
            if empty and not ps:
                o.ok(RANGE)
                continue
            if not ps:
                if not used:
                    raise Stop('no walk')
                g = b_or(eq(l, r), le(G, 0), b_and(eq(l, 0), eq(r, SIZE)))
                if not no_values(s2):
                    raise Stop('depends on values')
                raise Bad(s2, g, 'nothing is handed down')
            if used and min(used) < max(i for i, _ in ps):
                raise Bad(find(I, seq[min(used)][1]).entry, FALSE, 'nodes are used before updates above them are handed down')
            infos = [i for _, i in ps]
            for side, border, node in (('left', a, lambda i: shr(a, i)), ('right', b, lambda i: shr(b - 1, i))):
                best = None
                for info in infos:
                    try:
                        push_side(info, border, node, side, s2)
                        best = True
                        break
                    except Stop as e:
                        if best is None or isinstance(e, Bad):
                            best = (e, info)
                if best is not True:
                    if isinstance(best[0], Bad) and len(infos) > 1:
                        raise Stop(str(best[0]))
                    raise best[0]
                o.ok(RANGE)
            for i in app:
                info = find(I, seq[i][1])
                try:
                    once(o, info, a, b, x, s2)
                except Stop as e:
                    o.fail(ONCE, f.name + ':once', e, info)
            if len(f.inputs) == 4 and not app and not empty:
                if any(e[0] == 'step' for e in seq) or not no_values(s2):
                    raise Stop('single steps')
                raise Bad(s2, eq(l, r), 'the update is not recorded')
        panics(o, I, RANGE)
    except Stop as e:
        o.fail(RANGE, f.name, e, *infos)
    return o.rows


def push_side(info, border, node, side, s_exit):
    i = G - info.it
    for s, b in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        ks = [e[2] for e in events(s, 'push')]
        if s.facts.entails(b_not(cut(border, i))):
            continue
        s1 = s.copy().assume(cut(border, i))
        gs = [eq(k, node(i)) for k in ks]
        if not any(s1.facts.entails(g) for g in gs):
            if not no_values(s1):
                raise Stop('depends on values')
            raise Bad(s1, b_or(FALSE, *gs), 'at height %s the node through which the %s end of the range runs does not hand its update down' % (show(i), side))
    g = ge(info.it, G)
    if not s_exit.facts.entails(g):
        raise Bad(s_exit, g, 'handing down stops after %s of %s levels' % (show(info.it), show(G)))


def once(o, info, a, b, x, s_exit):
    """the nodes the update is recorded on are disjoint and cover the range"""
    ini = info.inits()
    m = pow2(info.it)
    ints = int_phis(info)
    ls = [c for c in ints if info.entry.facts.entails(eq(P(ini[c]), a))]
    rs = [c for c in ints if info.entry.facts.entails(eq(P(ini[c]), b))]
    if len(ls) != 1 or len(rs) != 1:
        raise Stop('walk')
    L, R = P(ls[0]), P(rs[0])
    for s, bb in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        s2 = products(halves(s, [y for y in bb.values() if isinstance(y, Poly)]), info, info.it)
        lo, hi = L * m, R * m
        for e in events(s, 'all_apply'):
            k = e[2]
            if e[3] is not x:
                raise Stop('records %s' % show(e[3]))
            c = Seg(k * m, (k + 1) * m)
            if s2.facts.entails(eq(c.lo, lo)):
                lo = c.hi
            elif s2.facts.entails(eq(c.hi, hi)):
                hi = c.lo
            else:
                raise Bad(s2, b_or(eq(c.lo, lo), eq(c.hi, hi)), 'the update is recorded on node %s, the part still to do being %s' % (show(k), Seg(lo, hi)))
        for w, v, c in ((P(bb[ls[0]]) * m * 2, lo, 'left'), (P(bb[rs[0]]) * m * 2, hi, 'right')):
            g = eq(w, v)
            if not s2.facts.entails(g):
                raise Bad(s2, g, 'the %s end of the walk goes on at %s where the update is recorded up to %s' % (c, show(w), show(v)))
        o.ok(ONCE)
    s3 = products(s_exit, info, info.it)
    g = eq(L * m, R * m)
    if not s3.facts.entails(g):
        raise Bad(s3, g, 'the walk ends with %s not covered' % Seg(L * m, R * m))
    o.ok(ONCE)


def run_search(crates, adt, ctor, f):
    o = Out(f, '%s::%s' % (tail(adt), f.name))
    infos, W = [], None
    try:
        t = roles(crates, adt, ctor, True)
        I = AI(crates)
        s = start(t)
        abstract_steps(I, t)
        p, g = P(sym('p', 'usize')), mk('sym', 'g', '?')
        s.assume(ge(p, 0), le(p, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), p, g])
        o.rows += [('an', 'paths', len(res)), ('an', 'loops', len(I.loops_done))]
        W = Wit(I.loops_done)
        right = f.name == 'max_right'
        q = SIZE + p if right else SIZE + p - 1
        edge = eq(p, N) if right else eq(p, 0)
        seen = set()
        for s2, v in res:
            if s2.unk:
                raise Stop(str(s2.unk))
            seq = sequence(s2)
            if any(e[0] == 'step' and e[1] == 'push' for e in seq):
                raise Stop('single steps')
            if s2.facts.entails(edge):
                o.ok(SEARCH)
                continue
            loops = [e for e in seq if e[0] == 'loop']
            ps = push_loops(I, seq)
            first = [i for i, info in ps if not any(reads(b, t) for b, _ in info.backs)]
            use = [i for i, e in enumerate(seq) if e[0] == 'loop' and any(reads(b, t) for b, _ in find(I, e[1]).backs)]
            if not use and not any(reads(s2, t)):
                raise Stop('no search')
            if not first:
                raise Bad(s2, b_or(edge, le(G, 0)), 'nothing is handed down before the search')
            if use and use[0] < first[0]:
                raise Stop('order')
            info = find(I, seq[first[0]][1])
            if info.id not in seen:
                seen.add(info.id)
                infos = [info]
                chain(o, SEARCH, info, 'push', lambda it: shr(q, G - it), G, s2)
        for info in I.loops_done:
            infos = [info]
            down(o, info, t)
        panics(o, I, SEARCH)
    except Stop as e:
        env = W.find(e) if W and isinstance(e, Bad) and not e.s.unk else None
        if env:
            o.rows.append(('bad', f.name, '%s (%s): %s\nwith %s\ne.g. %s' % (f.path, f.span, e.text, e.s.facts, env), SEARCH))
        else:
            o.rows.append(('skip', SEARCH, o.nm, str(e)))
    return o.rows


def down(o, info, t):
    """a pass that goes from a node to one of its children hands the node's update down before it reads a child"""
    for s, b in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        for c in int_phis(info):
            k = P(c)
            if not s.facts.entails(ge(P(b[c]), k * 2)):
                continue
            if not s.facts.entails(ge(k, 1)) or not s.facts.entails(le(P(b[c]), k * 2 + 2)):
                continue
            pushed = False
            for e in s.events():
                if e[0] == 'step' and e[1] == 'push':
                    g = eq(e[2], k)
                    if not s.facts.entails(g):
                        raise Bad(s, g, 'node %s hands its update down where the search leaves node %s' % (show(e[2]), show(k)))
                    pushed = True
                elif e[0] == 'loop':
                    raise Stop('nested')
                elif e[0] == 'op' and not pushed:
                    for y in e[2]:
                        for z in atoms_deep(y) if isinstance(y, (T, Poly)) else ():
                            if z.op == 'sel' and z.args[0] is t.D and s.facts.entails(ge(z.args[1], k * 2)):
                                raise Bad(s, FALSE, 'node %s is read before node %s hands its update down' % (show(z.args[1]), show(k)))
            if not pushed:
                raise Bad(s, FALSE, 'the search goes below node %s without handing its update down' % show(k))
            o.ok(SEARCH)


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        ts = trees(ctx, cfg)
        if not ts:
            return
        for crates, adt, ctor, lazy in ts:
            if not lazy:
                continue
            cr = crates[0]
            for n, r in (('all_apply', run_all_apply), ('push', run_push)):
                if method(cr, adt, n):
                    tasks.append((method(cr, adt, n).path, r, crates, adt, ctor))
            for ms, r in ((('set', 'get', 'apply'), run_point), (('prod', 'apply_range'), run_range), (('max_right', 'min_left'), run_search)):
                if cfg == 'release' and r is run_search:
                    continue
                for m in ms:
                    f = method(cr, adt, m)
                    if not ctx.need(f, '%s::%s' % (adt, m)):
                        return
                    tasks.append((f.path, r, crates, adt, ctor, f))
    ctx.tasks(tasks, limit=240)
    ctx.floor(len(tasks), 12, 'functions')
    ctx.assumptions += ['length at most 2^30']
