"""The implicit binary trees of the segment trees.

2^G leaves, node k has children 2k and 2k+1, the elements sit at 2^G .. 2^G + N - 1.  The constructor is checked to build
this shape for every length, the methods are then analysed for symbolic G and N.  The private steps push / all_apply /
update are replaced by an event in the methods and decided on their own."""
from segd import *

N = P(sym('N', 'usize'))
G = P(sym('G', 'usize'))
SIZE = pow2(G)
LEN = pow2(G + 1)


class Tree:
    """the roles of the fields"""
    def __init__(self, adt, cr, kind):
        self.adt, self.cr, self.kind = adt, cr, kind
        self.fields = cr.adts[adt]['variants'][0]['fields']
        self.d = self.lz = None


def roles(crates, adt, ctor, lazy):
    """(tree, self value) when every case of the constructor has the shape, else raises Stop / Bad"""
    cr = crates[0]
    st = State()
    st.assume(ge(N, 0), le(N, MAXN))
    v = mk('carr', 'v', N)
    cases = shapes(crates, adt, ctor, [v], st, N)
    nf = len(cases[0].value.args) - 2
    role = [None] * nf
    for i in range(nf):
        xs = [(c.value.args[2 + i], c.state) for c in cases]
        if all(isinstance(x, Poly) for x, s in xs):
            cand = {'n': lambda x, s: s.facts.entails(eq(x, N))}
            if all(cand['n'](x, s) for x, s in xs):
                role[i] = 'n'
    polys = [i for i in range(nf) if all(isinstance(c.value.args[2 + i], Poly) for c in cases) and role[i] is None]
    for g in polys:
        for z in polys:
            if g != z and all(c.state.facts.entails(eq(c.value.args[2 + z], pow2(c.value.args[2 + g]))) for c in cases):
                role[g], role[z] = 'log', 'size'
    if role.count('n') != 1 or role.count('log') != 1 or role.count('size') != 1:
        raise Stop('fields of the tree: %s' % [show(c.value, 3) for c in cases])
    gi = role.index('log')
    for c in cases:
        g = c.value.args[2 + gi]
        if not c.state.facts.entails(le(N, pow2(g))):
            raise Bad(c.state, le(N, pow2(g)), 'a tree for N elements has 2^(%s) leaves' % show(g))
        if not c.state.facts.entails(ge(g, 0)):
            raise Stop('height %s' % show(g))
    for i in range(nf):
        if role[i] is None:
            ls = [(known_len(c.value.args[2 + i], c.state.facts), c.value.args[2 + gi], c.state) for c in cases if isinstance(c.value.args[2 + i], T)]
            if len(ls) == len(cases):
                if all(s.facts.entails(eq(n, pow2(g + 1))) for n, g, s in ls) and 'd' not in role:
                    role[i] = 'd'
                elif all(s.facts.entails(eq(n, pow2(g))) for n, g, s in ls) and 'lz' not in role:
                    role[i] = 'lz'
    if 'd' not in role or lazy and 'lz' not in role:
        raise Stop('arrays of the tree: %s' % [show(c.value, 3) for c in cases])
    t = Tree(adt, cr, 'lazy' if lazy else 'plain')
    t.role = role
    t.D = mk('carr', 'self.d', LEN)
    t.L = mk('carr', 'self.lz', SIZE)
    val = {'n': N, 'log': G, 'size': SIZE, 'd': t.D, 'lz': t.L}
    t.value = AGG(adt, 0, *[val.get(r, mk('sym', 'self.' + f['n'], '?')) for r, f in zip(role, t.fields)])
    return t


def start(t):
    st = State()
    st.assume(ge(G, 0), le(G, 30), ge(SIZE, 1), le(SIZE, 2 ** 30), ge(N, 0), le(N, SIZE))
    st.mem[('obj', 'self')] = t.value
    return st


def field(t, s, role, root=('obj', 'self')):
    v = s.mem[root]
    return v.args[2 + t.role.index(role)] if isinstance(v, T) and v.op == 'agg' else None


STEPS = ('push', 'all_apply', 'update')


def steps(t):
    return {n: method(t.cr, t.adt, n) for n in STEPS}


def abstract_steps(I, t, only=STEPS, after=None):
    """the private steps become events (name, node, ...) without effect; with `after`, a push leaves that array of nodes"""
    for n, f in steps(t).items():
        if f is None or n not in only:
            continue
        names = arg_names(f)
        ok = len(f.inputs) in (2, 3) and f.inputs[0][0] == 'ref' and f.inputs[1][:2] == ('int', 'usize')
        if not ok:
            continue

        def spec(I, fr, st, args, span, dty, n=n):
            k = as_poly(args[1])
            root = None
            if is_ref(args[0]):
                root = args[0].args
            st.event('step', n, k, args[2] if len(args) > 2 else None, st.mem.get(('obj', 'self')))
            if after is not None and n == 'push':
                v = st.mem[('obj', 'self')]
                i = 2 + t.role.index('d')
                st.mem[('obj', 'self')] = mk('agg', *(v.args[:i] + (after,) + v.args[i + 1:]))
            return [(st, UNIT)]
        I.spec_fn[f.path] = spec


def opf(t):
    if t.op == 'app' and str(t.args[0]).split('::')[-1] in ('binary_operation', 'op') and len(t.args) >= 4:
        return t.args[-2], t.args[-1]
    if t.op == 'app' and str(t.args[0]).split('::')[-1] in ('identity', 'identity_element'):
        return ()
    return None


def events(s, name=None):
    return [e for e in s.events() if e[0] == 'step' and (name is None or e[1] == name)]


def loops_of(s):
    return [e[1] for e in s.events() if e[0] == 'loop']


def halves(s, ts):
    """2 * (x >> 1) is x or x - 1: made explicit where the facts say which"""
    s = s.copy()
    for t in ts:
        for y in atoms_deep(t):
            if y.op == 'shr' and y.args[1].const() == 1:
                for d in (0, 1):
                    if s.facts.entails(eq(P(y) * 2 + d, y.args[0])):
                        s.assume(eq(P(y) * 2 + d, y.args[0]))
                        break
    return s


def cover(k, s, hs):
    """the leaves below node k"""
    F = s.facts
    if F.entails(le(k, 0)):
        raise Bad(s, FALSE, 'node 0 is read, which stands for nothing')
    for h in hs:
        m = pow2(h)
        if F.entails(le(SIZE, k * m)) and F.entails(le((k + 1) * m, SIZE * 2)):
            return Seg(k * m, (k + 1) * m)
    m = pow2(G - ilog2(k))
    return Seg(k * m, (k + 1) * m)


class LevelD(SegD):
    """values of nodes as segments of leaf positions; loops that go up one level per pass"""
    def __init__(self, I, t):
        SegD.__init__(self, I, op=opf, leaf=LevelD.node)
        self.t = t
        self.hs = [ZERO, G] + [i.it for i in I.loops_done]

    def node(self, t, s):
        if t.op == 'sel' and t.args[0] is self.t.D:
            return cover(t.args[1], s, self.hs)
        return None

    def clip(self, a, b, s):
        return s.facts.entails(b_and(ge(a, SIZE + N), ge(b, SIZE + N)))

    def same(self, a, b, s):
        F = s.facts
        if F.entails(eq(a.lo, b.lo)) and (F.entails(eq(a.hi, b.hi)) or self.clip(a.hi, b.hi, s)):
            return True
        return self.empty(a, s) and self.empty(b, s)

    def eqf(self, a, b):
        e = SIZE + N
        return b_or(b_and(eq(a.lo, b.lo), b_or(eq(a.hi, b.hi), b_and(ge(a.hi, e), ge(b.hi, e)))), b_and(le(a.hi, a.lo), le(b.hi, b.lo)))

    def counters(self, info, ts):
        cs = [P(c) for c in int_phis(info)]
        for x in ts:
            for t in sorted(atoms_deep(x), key=lambda t: t.id):
                if t.op == 'sel' and t.args[0] is self.t.D and t.args[1] not in cs:
                    cs.append(t.args[1])
        return cs

    def climb(self, info, x):
        """hypothesis: x is the segment between the start position and (c + d) 2^it for a counter c; None when it holds"""
        ini = info.inits()
        m = pow2(info.it)
        best = None
        for c in self.counters(info, [b[x] for s, b in info.backs]):
            for d in (0, 1):
                for left in (True, False):
                    c0 = subst(c + d, ini)
                    h = Seg(c0, (c + d) * m) if left else Seg((c + d) * m, c0)
                    self.scal[x] = h
                    try:
                        v0 = self.value(info.phis[x], info.entry)
                        if not self.empty(v0, info.entry):
                            raise Bad(info.entry, le(v0.hi, v0.lo), 'the product starts with %s' % v0)
                        for s, b in info.backs:
                            s2 = products(halves(s, [y for y in b.values() if isinstance(y, Poly)]), info, info.it)
                            v = self.value(b[x], s2)
                            w = h.sub(b)
                            if not self.same(v, w, s2):
                                raise Bad(s2, self.eqf(v, w), 'the product is %s where the walk is at %s' % (v, show(subst(c, b))))
                        return None
                    except Stop as e:
                        # prefer the mismatch in the orientation that does combine something
                        if best is None or isinstance(e, Bad) and not isinstance(best, Bad):
                            best = e
        self.scal.pop(x, None)
        return best or Stop('no counter')


def products(s, info, h):
    """facts of this pass multiplied by 2^h (which is at least one)"""
    s = s.copy()
    m = pow2(h)
    new = []
    for l in s.facts.lits:
        if l.op in ('ge0', 'eq0'):
            p = l.args[0]
            if len(p.t) <= 6 and not any(x.op == 'pow2' for x in p.atoms()) and any(x.op in ('phi', 'shr') for x in p.atoms()):
                new.append(ge(p * m, 0) if l.op == 'ge0' else eq(p * m, 0))
    s.facts = s.facts.add(ge(m, 1), *new)
    return s


def tail(x):
    return str(x).split('::')[-1]


def term(t):
    """('op', a, b) / ('map', f, x) / ('comp', f, g) / ('id',) / ('idmap',) / ('cell', array, index) of an element term"""
    if isinstance(t, Poly):
        t = t.atom()
    if not isinstance(t, T):
        return None
    if t.op == 'sel':
        return ('cell', t.args[0], t.args[1])
    if t.op != 'app':
        return None
    n = tail(t.args[0])
    a = [x for x in t.args[1:] if isinstance(x, T)]
    if n in ('binary_operation', 'op') and len(a) >= 2:
        return ('op', a[-2], a[-1])
    if n == 'mapping' and len(a) >= 2:
        return ('map', a[-2], a[-1])
    if n == 'composition' and len(a) >= 2:
        return ('comp', a[-2], a[-1])
    if n in ('identity', 'identity_element'):
        return ('id',)
    if n == 'identity_map':
        return ('idmap',)
    return None


def known(t, leafs):
    """only tree operations, cells of `leafs` and the given terms occur in it"""
    if t in leafs:
        return True
    x = term(t)
    if x is None:
        return False
    if x[0] == 'cell':
        return x[1] in leafs
    return all(known(y, leafs) for y in x[1:])


def want(t, w, s):
    """a formula that holds exactly when t is the wanted term; None when the difference is not one of positions"""
    if isinstance(w, T) and t is w:
        return TRUE
    x = term(t)
    if isinstance(w, T):
        w = term(w) or w
    if x is None or isinstance(w, T):
        return FALSE
    if x[0] != w[0] or len(x) != len(w):
        return FALSE
    if x[0] == 'cell':
        return eq(x[2], w[2]) if x[1] is w[1] else FALSE
    return b_and(TRUE, *[want(a, b, s) for a, b in zip(x[1:], w[1:])])


def cells_are(I, arr, base, changes, s, leafs, what):
    """arr is base with exactly the cells `changes` [(index, wanted term or None for unchanged)]; raises Stop / Bad"""
    C = Cells(I)
    j = mk('anyidx', arr.id, 'nat')
    J = P(j)
    done = []
    for i, w in changes:
        for s2, v in C.elem(arr, i, s.copy()):
            old = mk('sel', base, i)
            g = want(v, old if w is None else w, s2)
            if s2.facts.entails(g):
                continue
            if not known(v, leafs):
                raise Stop('%s %s holds %s' % (what, show(i), show(v, 5)))
            raise Bad(s2, g, '%s %s is set to %s' % (what, show(i), show(v, 6)))
    s2 = s.copy().assume(ge(J, 0), lt(J, arr_len(base)), *[ne(J, i) for i, w in changes])
    if s2.facts.contradictory():
        return
    for s3, v in C.elem(arr, J, s2):
        g = want(v, ('cell', base, J), s3)
        if s3.facts.entails(g):
            continue
        if not known(v, leafs):
            raise Stop('%s %s holds %s' % (what, show(J), show(v, 5)))
        raise Bad(s3, g, '%s %s is also changed, to %s' % (what, show(J), show(v, 6)))


def no_values(s):
    return not any(l.op == 'bterm' or l.op == 'not' and l.args[0].op == 'bterm' for l in s.facts.lits)


def chain(o, rule, info, name, node, last, s_exit, cond=None):
    """every pass of the loop does step `name` at node(it), it runs up to `last`.  With cond the step is demanded only where
    cond(it) holds, and allowed nowhere else unless nothing is lost by it"""
    it = info.it
    k = node(it)
    for s, b in info.backs:
        if s.unk:
            raise Stop(str(s.unk))
        ev = events(s, name)
        if not ev:
            if not no_values(s):
                raise Stop('the step depends on values')
            raise Bad(s, FALSE, 'a pass of the loop leaves out node %s' % show(k))
        if len(ev) > 1:
            raise Stop('%d steps in a pass' % len(ev))
        g = eq(ev[0][2], k)
        if not s.facts.entails(g):
            raise Bad(s, g, '%s(%s) where node %s is due' % (name, show(ev[0][2]), show(k)))
        o.ok(rule)
    done(o, rule, info, last, s_exit)


def done(o, rule, info, last, s_exit):
    for s in [s_exit]:
        g = ge(info.it, last)
        if not s.facts.entails(g):
            # a loop that walks up until the root
            if any(s.facts.entails(le(P(x), 1)) for l in s.facts.lits for x in atoms_deep(l) if x.op == 'shr' and info.it_atom in atoms_deep(x)):
                continue
            raise Bad(s, g, 'the loop ends after %s passes of %s' % (show(info.it), show(last)))
    o.ok(rule)


def sequence(s):
    """the steps and loops of a path, in order"""
    return [e for e in s.events() if e[0] == 'loop' or e[0] == 'step']


def has(info, name):
    return any(events(s, name) for s, b in info.backs)


def find(I, info):
    """the completed analysis of a loop"""
    for i in I.loops_done:
        if i is info or i.id == info.id:
            return i
    return info


def ground(x):
    """firstleaf / endleaf in arithmetic terms, for the evaluation of a witness"""
    b = {}
    for a in atoms_deep(x):
        if a.op in ('firstleaf', 'endleaf'):
            k = a.args[0]
            j = ilog2(k)
            m = pow2(G - j)
            v = (k - pow2(j)) * m
            b[a] = v + m if a.op == 'endleaf' else v
    return subst(x, b) if b else x


class Wit:
    """small witnesses on the first or second pass of the enclosing loops, with the guards of the passes of climbs made explicit"""
    def __init__(self, infos):
        self.infos = infos

    def guards(self, lits):
        out = []
        at = set()
        for l in lits:
            at |= atoms_deep(l)
        for i in self.infos:
            if i.it_atom in at and not i.phis:
                out.append(le(i.it, 5))
                for j in range(1, 6):
                    alts = []
                    for s, b in i.backs:
                        g = [subst(l, {i.it_atom: i.it - j}) for l in s.facts.lits if i.it_atom in atoms_deep(l)]
                        alts.append(b_and(TRUE, *g))
                    out.append(b_or(lt(i.it, j), b_or(FALSE, *alts)))
        return out

    def find(self, bad):
        lits = [l for l in bad.s.facts.lits]
        lits = lits + self.guards(lits)
        cond = bad.cond
        for fs, b in self.starts():
            ls = [close(l, b) for l in lits] + [close(l, b) for l in fs]
            r = small([ground(l) for l in ls], ground(close(cond, b)))
            if r:
                return r
        return None

    def starts(self):
        outer = {}
        for i in self.infos:
            if i.phis:
                outer.update({k: v for k, v in i.inits().items() if isinstance(v, Poly)})
        yield [], outer
        # second pass of one loop
        for i in self.infos:
            if not i.phis:
                continue
            for n, (s, b) in enumerate(i.backs):
                if s.unk:
                    continue
                lits = list(s.facts.lits)
                lits = lits + self.guards(lits)
                ren = {j.it_atom: P(sym('%s%d' % (show(j.it), n), 'nat')) for j in self.infos if not j.phis}
                ini = {k: v for k, v in i.inits().items() if isinstance(v, Poly)}
                f = lambda y: subst(subst(y, ini), ren)
                env = dict(outer)
                env.update({k: f(v) for k, v in b.items() if isinstance(v, Poly) and k in i.phis})
                yield [f(l) for l in lits] + [ge(x, 0) for x in ren.values()], env


def close(x, b):
    for _ in range(4):
        y = subst(x, b)
        if y is x or y == x:
            break
        x = y
    return x
