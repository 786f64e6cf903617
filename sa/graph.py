"""Graph algorithms: symbolic adjacency lists, per-vertex tables, recursive searches under a contract."""
from tree import find
from interp import Split
from segd import *

N = P(sym('N', 'usize'))


class RecHook(NoResidues):
    """a recursive call is an event; everything behind its mutable references gets new contents of the same shape"""
    def __init__(self):
        self.n = 0

    def on_recursion(self, I, fn, args, st, fr, span):
        self.n += 1
        before = {}
        for i, (a, t) in enumerate(zip(args, fn.inputs)):
            if is_ref(a) and t[0] == 'ref':
                r, p = a.args[0], a.args[1]
                v = I.rd(st, r, p)
                before[i] = v
        after = []
        for s2, ret, upd in self.contract(I, fn, args, st, before, span):
            for i, v in upd.items():
                I.wr(s2, args[i].args[0], args[i].args[1], v)
            s2.event('rec', fn.path, tuple(args), before, upd, ret)
            after.append((s2, ret))
        return after

    def contract(self, I, fn, args, st, before, span):
        """[(state, result, {argument index: new contents})]"""
        raise NotImplementedError

    def array(self, v, what):
        return mk('carr', 'rec%d.%s' % (self.n, what), arr_len(v))


# ------------------------------------------------------------------ terms
def stores(arr, base):
    """[(index, value)] oldest first when arr is base with these cells written, else None"""
    out = []
    while isinstance(arr, T) and arr is not base:
        if arr.op != 'store':
            return None
        out.append((P(arr.args[1]), arr.args[2]))
        arr = arr.args[0]
    return out[::-1] if arr is base else None


def fld(v, k, variant=0):
    """field k of a struct-like value (of a variant of an enum)"""
    if isinstance(v, Poly):
        v = v.atom()
    if isinstance(v, T) and v.op == 'agg':
        return v.args[2 + k] if v.args[1] == variant else mk('undef')
    while isinstance(v, T) and v.op == 'upd':
        for k2, x in v.args[1]:
            if k2 == (variant, k):
                return x
        v = v.args[0]
    return mk('fld', v, (variant, k))


def payload(v):
    return fld(v, 0, 1)


def unwrap(v):
    """a value inside one-field wrappers"""
    while isinstance(v, T) and v.op == 'agg' and len(v.args) == 3 and v.args[0] != 'tuple' and not str(v.args[0]).endswith('Option'):
        v = v.args[2]
    return v


def option(v):
    """('none',) / ('some', x) / ('opt', term)"""
    if isinstance(v, T) and v.op == 'agg' and str(v.args[0]).endswith('Option'):
        return ('none',) if v.args[1] == 0 else ('some', v.args[2])
    return ('opt', v)


def is_some(I, v, s):
    return eq(I.discr(v, s), 1)


def is_none(I, v, s):
    return eq(I.discr(v, s), 0)


def at(I, arr, k, s, f):
    """f(element k of arr), split on the cells written last"""
    k = P(k)
    if isinstance(arr, T) and arr.op == 'store':
        i = P(arr.args[1])
        e = eq(i, k)
        if s.facts.entails(e):
            return f(arr.args[2])
        if s.facts.entails(b_not(e)):
            return at(I, arr.args[0], k, s, f)
        return b_or(b_and(e, f(arr.args[2])), b_and(b_not(e), at(I, arr.args[0], k, s, f)))
    try:
        return f(I.sel(arr, k, s))
    except Split as e:
        c, out = e.f, []
        for g in (c, b_not(c)):
            y = s.copy().assume(g)
            if not y.facts.contradictory():
                out.append(b_and(g, at(I, arr, k, y, f)))
        return b_or(*out)


def used_loops(states):
    """loops that occur on these paths, with those nested in them, outermost first"""
    out, seen = [], set()

    def go(s):
        for e in s.events():
            if e[0] == 'loop' and e[1].id not in seen:
                seen.add(e[1].id)
                out.append(e[1])
                for s2, b in e[1].backs:
                    go(s2)
    for s in states:
        go(s)
    return out


# ------------------------------------------------------------------ small assignments
def parts(x):
    """(skeleton, [index]) of an element term such as g[u][i].0; None when it is something else"""
    o = x.op
    if o in ('phi', 'carr', 'sym', 'hempty'):
        return x, []
    if o == 'sel':
        r = parts(x.args[0])
        return r and (('sel', r[0]), r[1] + [P(x.args[1])])
    if o == 'fld':
        r = parts(x.args[0])
        return r and (('fld', r[0], x.args[1]), r[1])
    if o in ('discr', 'len', 'hmax', 'hrest'):
        r = parts(x.args[0])
        return r and ((o, r[0]), r[1])
    return None


def root(x):
    while x.op in ('sel', 'fld', 'discr', 'len', 'hmax', 'hrest'):
        x = x.args[0]
    return x


def model(lits, goal, roots=(), extra=(), limit=300000, signed=()):
    """small values for everything these facts read, under which they hold and goal does not.  Elements of the tables in
    roots (and of the caller's tables) are free except that equal indices give equal elements."""
    flat = lambda l: [y for x in l.args for y in flat(x)] if l.op == 'and' else [l]
    fs = tighten([y for x in list(lits) + list(extra) for y in flat(x)])
    seen, chains = {}, {}
    todo = list(fs) + [goal]
    whole = {x for f in todo for x in atoms_deep(f)}
    while todo:
        at, bs = wit.free_atoms([todo.pop()])
        for b in bs:
            if b in seen:
                continue
            seen[b] = 1
            y = b.args[-1]
            r = isinstance(y, T) and parts(y)
            if not r:
                if b.args[0] == 'phi':
                    continue
                return None
            if b.args[0] in ('lt', 'eq') and any(isinstance(x, T) and (x.op == 'agg' or any(z.op == 'discr' and z.args[0] is x for z in whole)) for x in b.args[1:]):
                return None
            if root(y).op == 'phi' and root(y) not in roots:
                return None
            if r[1]:
                chains.setdefault(('bool', r[0]), []).append((b, r[1]))
                todo += [mk('ge0', q) for q in r[1]]
        for x in at:
            if x in seen:
                continue
            seen[x] = 1
            r = parts(x)
            if r is None:
                return None
            z = root(x)
            if z.op == 'phi' and not (z in roots or x is z and x.args[1:] == ('it', 'nat')):
                return None
            if r[1]:
                chains.setdefault(r[0], []).append((x, r[1]))
                todo += [mk('ge0', q) for q in r[1]]
    for x in seen:
        if x.op == 'discr':
            fs.append(le(P(x), 1))
    for sk, xs in chains.items():
        for i, (a, ia) in enumerate(xs):
            for b, ib in xs[:i]:
                same = b_and(b_or(a, b_not(b)), b_or(b, b_not(a))) if sk[0] == 'bool' else eq(P(a), P(b))
                fs.append(b_or(same, *[b_not(eq(p, q)) for p, q in zip(ia, ib)]))
    fs += flat(b_not(goal))
    fs = [f for f in fs if f != TRUE]
    # equalities that give one atom away
    sub = {}
    for _ in range(12):
        for f in fs:
            x = None
            if f.op == 'eq0':
                for m, c in f.args[0].t:
                    if len(m) == 1 and abs(c) == 1 and m[0] in seen and m[0] not in sub:
                        r = P(m[0]) - f.args[0] * c
                        if not (wit.free_atoms([ge0(r)])[0] & {m[0]}):
                            x = (m[0], r)
                            break
            if x:
                break
        else:
            break
        a, r = x
        sub[a] = r
        fs = [shallow(l, {a: r}) for l in fs] + ([] if root(a) in signed else [ge0(r)])
        fs = [f for f in fs if f != TRUE]
        if FALSE in fs:
            return None
    at, bs = wit.free_atoms(fs)
    at = sorted(at, key=lambda x: x.id)
    ext = set()
    for f in fs:
        for x in atoms_deep(f):
            for p in x.args if x.op in ('ge0', 'eq0') else ():
                if isinstance(p, Poly) and 6 < abs(p.c0()) < 2 ** 20:
                    ext |= {abs(p.c0()) + d for d in (-1, 0, 1)}
    dom = [0, 1, 2, 3, 4, 5, 7] + sorted(ext)[:6]
    need = [(f, wit.free_atoms([f])) for f in fs]
    need = [(f, a | b) for f, (a, b) in need]
    if any(not a and not wit.evf(f, {}) for f, a in need):
        return None
    # parts that share no atom are solved on their own
    groups = []
    for f, a in need:
        hit = [g for g in groups if g[0] & a]
        g = (set(a).union(*[h[0] for h in hit]), [f] + [x for h in hit for x in h[1]])
        groups = [h for h in groups if h not in hit] + ([g] if a else [])
    groups = [(g[0], [f for f, a in need if a and a <= g[0]]) for g in groups]
    rest = (set(at) | set(bs)) - set().union(*[g[0] for g in groups]) if groups else set(at) | set(bs)
    out = {}
    for g, ffs in sorted(groups, key=lambda g: -len(g[0])) + [({x}, []) for x in sorted(rest, key=lambda x: x.id)]:
        r = solve(g, ffs, bs, dom, signed, limit)
        if r is None:
            return None
        out.update(r)
    return ', '.join('%s = %s' % (show(x, 6), out[x]) for x in sorted(out, key=lambda x: x.id))


def solve(names, fs, bs, dom, signed, limit):
    order, left = [], set(names)
    need = [(f, set.union(*wit.free_atoms([f]))) for f in fs]
    while left:
        best = max(sorted(left, key=lambda x: x.id), key=lambda x: (sum(1 for f, a in need if x in a and a <= set(order) | {x}), sum(1 for f, a in need if x in a)))
        order.append(best)
        left.discard(best)
    by = [[] for _ in order]
    for f, a in need:
        by[max(order.index(x) for x in a)].append(f)
    n = [0]
    reads = {id(f): a for f, a in need}

    # depth first; a level that runs out of values goes back to the last one that had a part in it
    def go(k, env):
        if k == len(order):
            return dict(env), None
        why = set()
        for v in ((False, True) if order[k] in bs else dom + [-1] if root(order[k]) in signed else dom):
            n[0] += 1
            if n[0] > limit:
                return None, set()
            env[order[k]] = v
            bad = None
            for f in by[k]:
                try:
                    if not wit.evf(f, dict(env)):
                        bad = f
                except (wit.NoVal, KeyError):
                    bad = f
                if bad is not None:
                    break
            if bad is not None:
                why |= reads[id(bad)]
                continue
            r, below = go(k + 1, env)
            if r is not None:
                return r, None
            if order[k] not in below:
                env.pop(order[k], None)
                return None, below
            why |= below
        env.pop(order[k], None)
        return None, why - {order[k]}
    return go(0, {})[0]


def shallow(l, sub):
    """replace whole atoms of a formula, not occurrences inside element terms"""
    if isinstance(l, Poly):
        r = P(0)
        for m, c in l.t:
            p = P(c)
            for a in m:
                p = p * (sub[a] if a in sub else P(shallow_t(a, sub)))
            r = r + p
        return r
    if l.op in ('true', 'false', 'bterm'):
        return l
    if l.op == 'ge0':
        return ge0(shallow(l.args[0], sub))
    if l.op == 'eq0':
        return eq(shallow(l.args[0], sub), 0)
    a = [shallow(x, sub) for x in l.args]
    return b_not(a[0]) if l.op == 'not' else b_and(*a) if l.op == 'and' else b_or(*a)


def shallow_t(a, sub):
    if a.op in wit.INTERP:
        return mk(a.op, *[shallow(y, sub) if isinstance(y, Poly) else y for y in a.args])
    return a


class Rules(Out):
    """local rules: an alarm needs a small assignment to everything the path reads under which its facts hold and the rule fails"""
    roots = ()
    extra = ()
    signed = ()         # tables whose elements may be negative
    live = None         # loops of the finished analysis; facts left over from abandoned rounds say nothing

    def facts(self, s):
        if self.live is None:
            return list(s.facts.lits)
        return [l for l in s.facts.lits if all(x.op != 'phi' or x.args[0] in self.live for x in atoms_deep(l))]

    def local(self, rule, key, s, goal, text):
        if s.unk:
            self.rows.append(('skip', rule, self.nm, '%s %s' % (text, s.unk)))
            return False
        if s.facts.entails(goal):
            self.ok(rule)
            return True
        env = model(self.facts(s), goal, self.roots, self.extra, signed=self.signed)
        if env is not None:
            if key not in self.hit:
                self.hit.add(key)
                self.rows.append(('bad', key, '%s (%s): %s\nunder %s\nneeds %s\ne.g. %s' % (self.f.path, self.f.span, text, s.facts, show(goal), env), rule))
        else:
            self.rows.append(('skip', rule, self.nm, '%s: %s under %s' % (text, show(goal), s.facts)))
        return False

    def wrong(self, rule, key, s, text):
        """the path itself is the violation"""
        return self.local(rule, key, s, FALSE, text)

    def skip(self, rule, text):
        self.rows.append(('skip', rule, self.nm, text))
