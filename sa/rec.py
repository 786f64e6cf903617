"""Recursive searches, analysed under their own contract.

The first call is captured in the function that starts the search; the search itself is then interpreted from arbitrary
contents of everything it can reach (same lengths), with every call of itself replaced by: anything reachable through its
mutable references gets new contents, except what no path changes.  What is kept is found by elimination: everything is
assumed kept (and integers not to fall), and what some path changes is dropped until nothing more is."""
from graph import *


def sccs(g):
    """sets of functions that can call each other"""
    reach = {}
    for f in g:
        seen, todo = set(), list(g.get(f, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        reach[f] = seen
    out = []
    done = set()
    for f in g:
        if f in reach[f] and f not in done:
            c = {x for x in reach[f] if f in reach.get(x, ())} | {f}
            done |= c
            out.append(c)
    return out


def recursive(cr, under):
    """functions that are the way into a recursion reached from `under`"""
    g = getattr(cr, '_cgraph', None)
    if g is None:
        g = cr._cgraph = walk.callgraph(cr)
    live = walk.reach(g, [under])
    out = []
    for c in sccs({f: g.get(f, ()) for f in live}):
        ways = {y for x in live - c for y in g.get(x, ()) if y in c}
        if under in c:
            ways.add(under)
        out += sorted(ways)
    return out


class Leaf:
    """one thing a search can reach: argument, path below it, type, field name"""
    def __init__(self, arg, path, ty, name, mut):
        self.arg, self.path, self.ty, self.name, self.mut = arg, path, ty, name, mut

    @property
    def key(self):
        return (self.arg, self.path)

    def __repr__(self):
        return self.name


def leaves(I, fn, names, env=None):
    out = []
    for i, t in enumerate(fn.inputs):
        t = I.norm_ty(ty_subst(t, env or {}), env or {})
        if t[0] == 'ref':
            mut = is_mut(t)
            expand(I, i, (), t[1], names[i], mut, out)
    return out


def is_mut(t):
    return len(t) > 2 and bool(t[2])


def expand(I, i, path, ty, name, mut, out):
    if ty[0] == 'adt':
        for c in I.crates:
            a = c.adts.get(ty[1])
            if a and not a['enum'] and a.get('local', ty[1].startswith('rust_cp')):
                env = dict(zip(a.get('generics', []), ty[2]))
                for k, f in enumerate(a['variants'][0]['fields']):
                    ft = I.norm_ty(ty_subst(c.ty(f['t']), env), {})
                    expand(I, i, path + (('f', k),), ft, f['n'] if name == 'self' else name + '.' + f['n'], mut, out)
                return
    out.append(Leaf(i, path, ty, name, mut))


def fresh(ty, name, n, st):
    """arbitrary value of the type; n is its length when that is fixed"""
    if ty[0] == 'int':
        v = P(sym(name, ty[1]))
        return v
    if ty[0] == 'bool':
        return mk('bterm', 'val', mk('sym', name, 'bool'))
    if ty[0] == 'adt' and ty[1].endswith('::Vec'):
        if n is None:
            n = P(sym('len(%s)' % name, 'usize'))
            st.assume(ge(n, 0), le(n, 1 << 62))
        return mk('carr', name, n)
    return mk('sym', name, '?')


class Search:
    """one recursive function"""
    def __init__(self, crates, fn, env=None, hooks=None):
        self.crates, self.fn, self.env, self.hooks = crates, fn, env or {}, hooks
        self.names = arg_names(fn)
        self.captured = None

    # ---------------------------------------------------------------- the first call
    def outer(self, path, st, args, env=None):
        """interpret the function that starts the search; calls of the search are events 'enter'"""
        I = AI(self.crates, self.hooks or NoResidues())
        self.oI = I
        self.count = 0
        self.caps = []
        L = leaves(I, self.fn, self.names, self.env)

        def spec(I, fr, s, a, span, dty):
            self.count += 1
            before = {l.key: I.rd(s, a[l.arg].args[0], a[l.arg].args[1] + l.path) for l in L}
            self.caps.append((s.copy(), tuple(a), before))
            out = []
            for s2, ret, after in self.contract(I, s, a, before, L, 'o%d' % self.count):
                s2.event('rec', self.fn.path, tuple(a), before, after, ret, span)
                out.append((s2, ret))
            return out
        I.spec_fn[self.fn.path] = spec
        res, args = call(I, path, st, args, env)
        self.outer_res = res
        return I, res

    # ---------------------------------------------------------------- one call
    kept = None          # {return value key: set of leaf keys}
    lens = None          # {leaf key: length} of arrays whose length never changes

    def rets(self, I):
        t = self.fn.output
        if t and t[0] == 'bool':
            return [('T', TRUE), ('F', FALSE)]
        return [('', None)]

    def contract(self, I, st, a, before, L, tag):
        out = []
        for rk, rv in self.rets(I):
            s = st.copy()
            after = {}
            for l in L:
                v = before[l.key]
                if l.mut and not (self.kept is not None and l.key in self.kept[rk]):
                    n = arr_len(v) if l.ty[0] == 'adt' and l.ty[1].endswith('::Vec') and (self.lens is None or l.key in self.lens) else None
                    w = fresh(l.ty, '%s.%s%s' % (tag, l.name, rk), n, s)
                    if l.ty[0] == 'int' and (self.mono is None or l.key in self.mono):
                        s.assume(ge(w, v), I.in_range(w, l.ty))
                    elif l.ty[0] == 'int':
                        s.assume(I.in_range(w, l.ty))
                    I.wr(s, a[l.arg].args[0], a[l.arg].args[1] + l.path, w)
                    v = w
                after[l.key] = v
            if rv is None:
                rv = self.result(I, s, a, tag)
            out.append((s, rv, after))
        return out

    def result(self, I, s, a, tag):
        t = I.norm_ty(ty_subst(self.fn.output, self.env), self.env)
        if t == ('tuple', ()):
            return AGG('tuple', 0)
        if t[0] == 'int':
            v = P(sym(tag + '.ret', t[1]))
            s.assume(I.in_range(v, t))
            return v
        return mk('sym', tag + '.ret', '?')

    mono = None

    def run(self, lens, facts, limit=12, hypo=()):
        """lens: {leaf name: length} known at the first call; facts: of the sizes; hypo: {(return value, leaf)} that are kept by
        the statement under induction (the caller checks it on every path)"""
        fn = self.fn
        self.mono, self.kept, self.lens = None, None, None
        I0 = AI(self.crates, NoResidues())
        L = leaves(I0, fn, self.names, self.env)
        self.L = L
        self.kept = {rk: {l.key for l in L} for rk, _ in self.rets(I0)}
        self.lens = {l.key for l in L if l.name in lens}
        self.mono = {l.key for l in L if l.ty[0] == 'int'}
        for _ in range(limit):
            I = AI(self.crates, self.hooks or NoResidues())
            n = [0]

            def spec(I, fr, s, a, span, dty):
                n[0] += 1
                before = {l.key: I.rd(s, a[l.arg].args[0], a[l.arg].args[1] + l.path) for l in L}
                out = []
                for s2, ret, after in self.contract(I, s, a, before, L, 'r%d' % n[0]):
                    s2.event('rec', fn.path, tuple(a), before, after, ret, span)
                    out.append((s2, ret))
                return out
            I.spec_fn[fn.path] = spec
            st = State()
            st.assume(*facts)
            args, start = self.start(I, st, L, lens)
            I.hooks_rec = spec
            res, _ = call(I, fn.path, st, args, self.env)
            drop = False
            for s, v in res:
                rk = 'T' if v is TRUE else 'F' if v is FALSE else ''
                rks = [rk] if rk in self.kept else list(self.kept)
                for l in L:
                    end = I.rd(s, args[l.arg].args[0], args[l.arg].args[1] + l.path)
                    same = end is start[l.key] or isinstance(end, Poly) and end == start[l.key]
                    for k in rks:
                        if not same and l.key in self.kept[k] and (k, l.key) not in hypo:
                            self.kept[k].discard(l.key)
                            drop = True
                    if l.key in self.mono and not s.facts.entails(ge(end, start[l.key])):
                        self.mono.discard(l.key)
                        drop = True
                    if l.key in self.lens and not (known_len(end, s.facts) == arr_len(start[l.key]) or s.facts.entails(eq(arr_len(end), arr_len(start[l.key])))):
                        self.lens.discard(l.key)
                        drop = True
            if not drop:
                break
        else:
            raise Unknown('no stable contract for ' + fn.path)
        self.I, self.res, self.args, self.first = I, res, args, start
        return I, res

    def start(self, I, st, L, lens):
        args, first = [], {}
        for i, t in enumerate(self.fn.inputs):
            t = I.norm_ty(ty_subst(t, self.env), self.env)
            nm = self.names[i]
            if t[0] != 'ref':
                v = sym_value(I, st, nm, t)
                if t[0] == 'int':
                    st.assume(I.in_range(v, t))
                args.append(v)
                continue
            root = ('obj', nm)
            mine = [l for l in L if l.arg == i]
            if len(mine) == 1 and mine[0].path == ():
                l = mine[0]
                v = fresh(l.ty, l.name, lens.get(l.name), st)
                if l.ty[0] == 'int':
                    st.assume(I.in_range(v, l.ty))
                st.mem[root] = v
                first[l.key] = v
            else:
                st.mem[root] = self.build(I, st, t[1], i, (), mine, lens, first)
            args.append(ref(root))
        return args, first

    def build(self, I, st, ty, i, path, mine, lens, first):
        for l in mine:
            if l.path == path:
                v = fresh(l.ty, l.name, lens.get(l.name), st)
                if l.ty[0] == 'int':
                    st.assume(I.in_range(v, l.ty))
                first[l.key] = v
                return v
        for c in I.crates:
            a = c.adts.get(ty[1])
            if a:
                env = dict(zip(a.get('generics', []), ty[2]))
                return AGG(ty[1], 0, *[self.build(I, st, I.norm_ty(ty_subst(c.ty(f['t']), env), {}), i, path + (('f', k),), mine, lens, first)
                                       for k, f in enumerate(a['variants'][0]['fields'])])
        raise Unknown('argument of type %s' % (ty,))

    # ---------------------------------------------------------------- reading results
    def leaf(self, name):
        l = [x for x in self.L if x.name == name]
        return l[0] if len(l) == 1 else None

    def end(self, s, l):
        return self.I.rd(s, self.args[l.arg].args[0], self.args[l.arg].args[1] + l.path)


def recs(s):
    return [e for e in s.events() if e[0] == 'rec']


def paths(I, res):
    """end states of the function and of every pass of the loops on its paths, with the loop they belong to (None: returns)"""
    out = [(s, None, v) for s, v in res]
    for i in used_loops([s for s, v in res]):
        i = find(I, i)
        out += [(s, i, b) for s, b in i.backs]
    return out


def origin(a, I, made):
    """one step back along the history of an array: [(array, index written, value written)], None at its beginning.
    made: new contents after a call -> contents before it"""
    if a.op == 'store':
        return [(a.args[0], P(a.args[1]), a.args[2])]
    if a in made:
        return [(made[a], None, None)]
    if a.op == 'phi':
        for i in I.loops_done:
            if a in i.phis:
                return [(x, None, None) for x in [i.phis[a]] + [b[a] for s, b in i.backs if b.get(a, a) is not a]]
    return None


def calls_made(I, res, key=None):
    made = {}
    for s, i, b in paths(I, res):
        for e in recs(s):
            for k in e[3]:
                if e[4][k] is not e[3][k] and isinstance(e[4][k], T):
                    made[e[4][k]] = e[3][k]
    return made


def history(a, I, made):
    """(beginnings, [(index, value)] written on the way) of everything an array may have been; None when unknown steps occur"""
    seen, todo, starts, writes = set(), [a], [], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        o = origin(x, I, made) if isinstance(x, T) else None
        if o is None:
            starts.append(x)
            continue
        for y, i, v in o:
            if i is not None:
                writes.append((i, v))
            todo.append(y)
    return starts, writes
