"""Loop summarisation: shapes of the modified cells by anti-unification of entry and back-edge
values, closed forms for simple recurrences, inductive linear facts by Houdini."""
from term import *
from lin import *
from crate import *
from interp import *


class Phi:
    __slots__ = ('atom', 'init', 'n')


def is_phi(a, info):
    return isinstance(a, T) and a in info.phis


class LoopInfo:
    def __init__(self, id, fr, h):
        self.id, self.fr, self.h = id, fr, h
        self.phis = {}       # atom -> init value
        self.tmpl = {}       # root -> value at the loop head
        self.n = 0
        self.it_atom = mk('phi', id, 'it', 'nat')
        self.it = P(self.it_atom)
        self.invs = []
        self.backs = []
        self.exits = []
        self.entry = None
        self.dropped = []
        self.dead = False

    def new(self, init, kind):
        self.n += 1
        if kind == 'int':
            a = mk('phi', self.id, self.n, '?')
            v = P(a)
        elif kind == 'bool':
            a = mk('bterm', 'phi', self.id, self.n)
            v = a
        else:
            a = mk('phi', self.id, self.n, '?')
            v = a
        self.phis[a] = init
        return v

    def inits(self):
        m = dict(self.phis)
        m[self.it_atom] = ZERO
        return m


REG = {}        # completed loops by id

STRUCT = {'agg', 'upd', 'ref'}


class Shape(Exception):
    pass


class Loops:
    STRUCT = STRUCT

    def step_it(self, info, v):
        return subst(v, {info.it_atom: info.it + 1})

    def phi_of(self, info, t):
        if isinstance(t, Poly):
            a = t.atom()
            return a if a is not None and a in info.phis else None
        if isinstance(t, T) and t in info.phis:
            return t
        return None

    def same_next(self, info, t, e, facts):
        """does e equal the closed form t one iteration later?"""
        if t is e and not self.mentions_it(info, t):
            return True
        t2 = self.step_it(info, t)
        if t2 is e:
            return True
        if isinstance(t2, Poly) or isinstance(e, Poly):
            try:
                a, b = as_poly(t2), as_poly(e)
            except Unknown:
                return False
            if a is b:
                return True
            if facts is not None and self.mentions_it(info, t):
                return facts.entails(eq(a, b))
            return facts is not None and facts.simp(a - b).const() == 0
        if facts is not None and isinstance(e, T):
            if facts.simp(e) is facts.simp(t2):
                return True
            if isinstance(t2, T) and t2.op == e.op and e.op in ('fillr', 'comp', 'cat', 'seg'):
                return self.struct_eq(t2, e, facts)
        return False

    def struct_eq(self, a, b, facts):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return facts.entails(eq(a, b))
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
            return all(self.struct_eq(x, y, facts) for x, y in zip(a.args, b.args))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.struct_eq(x, y, facts) for x, y in zip(a, b))
        return a == b

    def mentions_it(self, info, t):
        if t in (None,):
            return False
        c = info.__dict__.setdefault('_men', {})
        r = c.get(t)
        if r is None:
            r = c[t] = info.it_atom in atoms_deep(t)
        return r

    def au(self, info, t, e, facts):
        """least common shape of the head value t and the back-edge value e"""
        if self.phi_of(info, t) is not None:
            a = self.phi_of(info, t)
            if isinstance(t, T) and isinstance(e, Poly):
                # an untyped cell turns out to be an integer
                if a.op == 'bterm':
                    return t
                info.phis.pop(a)
                i = info_init(info, a, t)
                return info.new(self._aspoly_init(info, a), 'int')
            return t
        if isinstance(t, T) and t.op in getattr(self.hooks, 'vary', ()):
            return info.new(subst(t, info.inits()), 'T')
        if self.same_next(info, t, e, facts):
            return t
        if isinstance(t, Poly) or isinstance(e, Poly):
            x, y = self.poly_structs(t, e)
            if x is not None and y is not None and x.op == y.op and x.args[0] is y.args[0]:
                a = mk(x.op, x.args[0], self.au(info, x.args[1], y.args[1], facts))
                TY[a] = TY.get(x)
                return P(a)
            return info.new(subst(as_poly(t), info.inits()), 'int')
        if isinstance(t, tuple) and isinstance(e, tuple):
            if len(t) == len(e):
                return tuple(self.au(info, a, b, facts) for a, b in zip(t, e))
            raise Shape()
        if not isinstance(t, T) or not isinstance(e, T):
            if t == e:
                return t
            raise Shape()
        if is_bool(t) or is_bool(e):
            return info.new(subst(t, info.inits()), 'bool')
        if t.op == 'upd' or e.op == 'upd':
            b1 = t.args[0] if t.op == 'upd' else t
            b2 = e.args[0] if e.op == 'upd' else e
            if b1 is b2:
                keys = set()
                for x in (t, e):
                    if x.op == 'upd':
                        keys |= {k for k, _ in x.args[1]}
                out = b1
                for k in sorted(keys):
                    a, b = self._getfld(t, k), self._getfld(e, k)
                    if isinstance(b, Poly) and isinstance(a, T):
                        a = P(a)
                    if isinstance(a, Poly) and isinstance(b, T):
                        b = P(b)
                    out = self._setfld(out, k, self.au(info, a, b, facts))
                return out
        n0 = info.n
        if t.op == e.op and len(t.args) == len(e.args) and t.op in self.STRUCT | self.hooks_struct():
            if t.op != 'agg' or (t.args[0] == e.args[0] and t.args[1] == e.args[1]):
                if t.op != 'ref' or t.args[0] == e.args[0]:
                    saved = dict(info.phis)
                    try:
                        args = tuple(self.au(info, a, b, facts) for a, b in zip(t.args, e.args))
                        return rebuild(t.op, args)
                    except Shape:
                        info.phis = saved
        for t2 in self.hooks.reshape(self, info, t, e) or []:
            if t2 is not None and t2 is not t:
                return self.au(info, t2, e, facts)
        return info.new(subst(t, info.inits()), 'T')

    def hooks_struct(self):
        return getattr(self.hooks, 'struct_ops', set())

    def _aspoly_init(self, info, a):
        raise Shape()

    def poly_structs(self, t, e):
        f = getattr(self.hooks, 'poly_struct', None)
        if f is None or not isinstance(t, Poly) or not isinstance(e, Poly):
            return None, None
        return f(t), f(e)

    def bind(self, info, t, e, facts, out):
        a = self.phi_of(info, t)
        if a is not None:
            if isinstance(t, Poly):
                e = as_poly(e)
            out[a] = e
            return
        if self.same_next(info, t, e, facts):
            return
        x, y = self.poly_structs(t, e)
        if x is not None and y is not None and x.op == y.op and x.args[0] is y.args[0]:
            return self.bind(info, x.args[1], y.args[1], facts, out)
        if isinstance(t, T) and isinstance(e, T):
            if t.op == 'upd' or e.op == 'upd':
                b1 = t.args[0] if t.op == 'upd' else t
                b2 = e.args[0] if e.op == 'upd' else e
                if b1 is b2:
                    keys = set()
                    for x in (t, e):
                        if x.op == 'upd':
                            keys |= {k for k, _ in x.args[1]}
                    for k in keys:
                        x, y = self._getfld(t, k), self._getfld(e, k)
                        if isinstance(x, Poly) and isinstance(y, T):
                            y = P(y)
                        self.bind(info, x, y, facts, out)
                    return
            if t.op == e.op and len(t.args) == len(e.args):
                for x, y in zip(t.args, e.args):
                    self.bind(info, x, y, facts, out)
                return
            for e2 in self.hooks.reshape_end(self, info, t, e) if hasattr(self.hooks, 'reshape_end') else []:
                self.bind(info, t, e2, facts, out)
                return
        elif isinstance(t, tuple) and isinstance(e, tuple) and len(t) == len(e):
            for x, y in zip(t, e):
                self.bind(info, x, y, facts, out)
            return
        elif t == e:
            return
        raise Shape()

    # ------------------------------------------------------------ main
    def loop(self, fr, h, st):
        st = st.copy()
        live = fr.body.live_in()[h]
        self.prune(fr, st, live)
        blocks = fr.body.loops()[h]
        if self.mode == 'peel':
            return self.loop_peel(fr, h, st, blocks)
        # deterministic loops are simply followed
        self.quiet += 1
        try:
            r0 = self.region(fr, h, st.copy(), h, blocks)
        finally:
            self.quiet -= 1
        if not any(k == 'back' for k, _, _ in r0):
            if self.quiet:
                return r0
            return self.region(fr, h, st.copy(), h, blocks)
        if getattr(self.hooks, 'unroll', True) and all(k == 'back' for k, _, _ in r0) and len(r0) == 1:
            r = self.unroll(fr, h, st, blocks)
            if r is not None:
                return r
        return self.loop_inv(fr, h, st, blocks, r0, live)

    def prune(self, fr, st, live):
        """forget dead locals of the frame"""
        need = set()
        todo = []
        for r in st.mem:
            if not (r[0] == 'l' and r[1] == fr.fid and isinstance(r[2], int) and r[2] not in live and r[2] != 0):
                todo.append(r)
        need.update(todo)
        seen = set()
        while todo:
            r = todo.pop()
            v = st.mem.get(r)
            if v is None:
                continue
            for t in self.refs_in(v):
                if t not in need and t in st.mem:
                    need.add(t)
                    todo.append(t)
        for r in list(st.mem):
            if r not in need:
                del st.mem[r]

    _refs = {}

    def refs_in(self, v):
        r = self._refs.get(v)
        if r is None:
            r = self._refs[v] = frozenset(t.args[0] for t in atoms_deep(v) if t.op == 'ref')
        return r

    def unroll(self, fr, h, st, blocks):
        cur = st
        for _ in range(12):
            self.quiet += 1
            try:
                r = self.region(fr, h, cur.copy(), h, blocks)
            finally:
                self.quiet -= 1
            if len(r) != 1 and any(k == 'back' for k, _, _ in r):
                return None
            if not self.quiet:
                np = len(self.panics)
                r = self.region(fr, h, cur.copy(), h, blocks)
                if r and r[0][0] == 'back' and len(r) == 1:
                    pass
            if not r or r[0][0] != 'back':
                return r
            cur = r[0][2]
            self.prune(fr, cur, fr.body.live_in()[h])
        return None

    def loop_peel(self, fr, h, st, blocks):
        out = []
        cur = [st]
        for k in range(self.peel):
            nxt = []
            for s in cur:
                for kind, x, s2 in self.region(fr, h, s.copy(), h, blocks):
                    if kind == 'back':
                        self.prune(fr, s2, fr.body.live_in()[h])
                        nxt.append(s2)
                    else:
                        out.append((kind, x, s2))
            cur = nxt
            if not cur:
                break
        if cur:
            self.cut += len(cur)
        return out

    def build(self, info, extra=()):
        s = info.entry.copy()
        for r, t in info.tmpl.items():
            s.mem[r] = t
        s.facts = s.facts.add(ge(info.it, 0), *extra)
        s.ev = None
        for w in info.unk:
            s.unknown(w)
        return s

    def loop_inv(self, fr, h, st, blocks, r0, live):
        self.nloop += 1
        info = LoopInfo((fr.fn.path, h, self.nloop), fr, h)
        info.entry = st
        info.blocks = blocks
        info.unk = ()
        info.depth = len([1 for x in fr.stack])
        self.quiet += 1
        try:
            r = self._infer(fr, h, st, blocks, r0, live, info)
            if r is not None:
                self.quiet -= 1
                try:
                    return r
                finally:
                    self.quiet += 1
        finally:
            self.quiet -= 1
        if getattr(info, 'split', None) is not None:
            out = []
            f = info.split
            for g in (f, b_not(f)):
                s2 = st.copy().assume(g)
                if not s2.facts.contradictory():
                    out.extend(self.loop(fr, h, s2))
            return out
        res = info.res
        if not self.quiet:
            head = self.build(info, info.invs)
            head.ev = None
            self.hooks.on_loop_head(self, info, head) if hasattr(self.hooks, 'on_loop_head') else None
            res = self.region(fr, h, head, h, blocks)
            self.finish_backs(info, res)
            self.loops_done.append(info)
            REG[info.id] = info
        out = []
        prev = st.ev
        info.exits = []
        for kind, x, s in res:
            if kind == 'back':
                continue
            tail = s.events()
            info.exits.append(s)
            s = s.copy()
            s.ev = (prev, ('loop', info))
            for e in tail:
                s.ev = (s.ev, e)
            for w in info.unk:
                s.unknown(w)
            out.append((kind, x, s))
        self.hooks.on_loop(self, info)
        return out

    def finish_backs(self, info, res):
        info.backs = []
        for kind, x, s in res:
            if kind == 'back':
                b = {}
                for r, t in info.headmem.items():
                    e = s.mem.get(r)
                    if e is None:
                        continue
                    self.bind(info, t, e, s.facts, b)
                b[info.it_atom] = info.it + 1
                info.backs.append((s, b))
        info.res = res

    def run_head(self, info, extra):
        head = self.build(info, extra)
        info.headmem = dict(head.mem)
        if hasattr(self.hooks, 'on_loop_head'):
            self.hooks.on_loop_head(self, info, head)
        return self.region(info.fr, info.h, head, info.h, info.blocks)

    def _shape(self, info, res0=None, extra=()):
        """templates that cover entry and every back edge"""
        res = res0
        for rnd in range(14):
            info.unk = ()
            if res is None:
                res = self.run_head(info, extra)
                head = info.headmem
            else:
                head = info.entry.mem
            changed = False
            for kind, x, s in res:
                if kind != 'back':
                    continue
                for w in s.unk:
                    if w not in info.unk:
                        info.unk = info.unk + (w,)
                self.prune(info.fr, s, info.fr.body.live_in()[info.h])
                for r in head:
                    e = s.mem.get(r)
                    if e is None:
                        continue
                    t = info.tmpl.get(r, head[r])
                    t2 = self.au(info, t, e, s.facts)
                    if t2 is not t or r not in info.tmpl and t2 is not info.entry.mem.get(r):
                        if t2 is not t:
                            changed = True
                        info.tmpl[r] = t2
            if not changed and res0 is None:
                # drop phis no longer used
                used = set()
                for t in info.tmpl.values():
                    used |= atoms_deep(t)
                info.phis = {a: v for a, v in info.phis.items() if a in used}
                return res
            res0 = None
            res = None
        raise Unknown('loop shape did not converge in %s' % info.fr.fn.path)

    def _infer(self, fr, h, st, blocks, r0, live, info):
        res = self._shape(info, r0)
        self.finish_backs(info, res)
        # closed forms
        for _ in range(4):
            if not self.solve(info):
                break
            res = self._shape(info)
            self.finish_backs(info, res)
        cands = self.candidates(info)
        init = info.inits()
        good = []
        for c in cands:
            c0 = subst(c, init)
            if st.facts.entails(c0):
                good.append(c)
            else:
                info.dropped.append(('init', c))
                if c in info.split_on and not st.facts.entails(b_not(c0)):
                    info.split = c0
                    return None
        ncl = 0
        for _ in range(10):
            info.unk = ()        # what was not understood before the invariants were known may be now
            res = self.run_head(info, good)
            try:
                self.finish_backs(info, res)
            except Shape:
                raise Unknown('loop shape')
            for s, b in info.backs:
                info.unk += tuple(w for w in s.unk if w not in info.unk)
            keep = []
            for c in good:
                ok = True
                for s, b in info.backs:
                    if not s.facts.entails(subst(c, b)):
                        ok = False
                        break
                if ok:
                    keep.append(c)
                else:
                    info.dropped.append(('step', c))
            if len(keep) == len(good):
                # with the invariants known, recurrences may now have closed forms
                if ncl < 3 and self.solve(info, final=True):
                    ncl += 1
                    res = self._shape(info, None, ())
                    self.finish_backs(info, res)
                    used = set(info.phis)
                    good = [c for c in good if not ({a for a in atoms_deep(c) if a.op == 'phi' and a.args[0] == info.id} - used - {info.it_atom})]
                    cs2 = self.candidates(info)
                    init = info.inits()
                    for c in cs2:
                        if c not in good and st.facts.entails(subst(c, init)):
                            good.append(c)
                    continue
                break
            good = keep
        info.invs = good
        return None

    # ------------------------------------------------------------ closed forms
    def solve(self, info, final=False):
        ch = False
        it = info.it
        for a in list(info.phis):
            init = info.phis[a]
            ends = [(b.get(a), s) for s, b in info.backs]
            if any(e is None for e, _ in ends) or not ends:
                continue
            v = None
            if isinstance(init, Poly):
                pa = P(a)
                ds = {s.facts.simp(e - pa) if isinstance(e, Poly) else None for e, s in ends}
                if len(ds) == 1:
                    d = next(iter(ds))
                    if d is not None:
                        dc = d.const()
                        if dc is not None:
                            v = init + it * dc
                        elif not (atoms_deep(d) & (set(info.phis) | {info.it_atom})) and self.old_atoms(info, d):
                            v = init + it * d
                if v is None:
                    es = {e for e, _ in ends}
                    if len(es) == 1:
                        e = next(iter(es))
                        if e is shr(pa, 1):
                            v = shr(init, it)
                        elif isinstance(e, Poly) and len(e.t) == 1 and e is pa * 2:
                            v = init * pow2(it)
            elif isinstance(init, T) and not is_bool(init):
                v = self.solve_array(info, a, init, ends)
            if v is None:
                v = self.hooks.closed_form(self, info, a, init, ends) if hasattr(self.hooks, 'closed_form') else None
            if v is not None:
                m = {a: v}
                if a in atoms_deep(v):
                    continue
                for r in list(info.tmpl):
                    info.tmpl[r] = subst(info.tmpl[r], m)
                del info.phis[a]
                ch = True
        return ch

    def old_atoms(self, info, x):
        """x only mentions things that exist before the loop"""
        for t in atoms_deep(x):
            if t.op == 'phi' and t.args[0] == info.id:
                return False
            if t.op in ('opaque',):
                return False
        return True

    def free_of(self, info, x):
        for t in atoms_deep(x):
            if t is not info.it_atom and (t.op == 'phi' and t.args[0] == info.id or t.op == 'bterm' and len(t.args) > 1 and t.args[0] == 'phi' and t.args[1] == info.id):
                return False
        return True

    def solve_array(self, info, a, init, ends):
        it = info.it
        pushes = []
        for e, s in ends:
            if not isinstance(e, T):
                return None
            if e.op == 'push' and e.args[0] is a:
                x = e.args[1]
                if not self.free_of(info, x):
                    x = s.facts.simp(x)
                pushes.append(('push', None, x, s))
            elif e.op == 'store' and e.args[0] is a:
                pushes.append(('store', e.args[1], e.args[2], s))
            elif e.op in ('popf', 'popb') and e.args[0] is a:
                pushes.append((e.op, None, None, s))
            else:
                return None
        kinds = {p[0] for p in pushes}
        if len(kinds) != 1:
            return None
        k = kinds.pop()
        if k == 'popf' or k == 'popb':
            n = arr_len(init)
            return mk('slice', init, it, n) if k == 'popf' else mk('slice', init, ZERO, n - it)
        body = None
        if k == 'push':
            xs = {p[2] for p in pushes}
            x = xs.pop() if len(xs) == 1 else None
            if x is not None and self.free_of(info, x):
                body = subst(x, {info.it_atom: P(HOLE)})
            else:
                body = self.array_body(info, a, init, k, pushes)
            if body is None:
                return None
            c = mk('comp', body, it)
            if init.op == 'arr' and not init.args:
                return c
            return mk('cat', init, c)
        idx = {p[1] for p in pushes}
        if len(idx) != 1:
            return None
        i = idx.pop()
        c0 = subst(i, {info.it_atom: ZERO})
        d = i - c0
        if not self.free_of(info, i):
            return None
        if d is it:
            sg = 1
        elif d is -it:
            sg = -1
        else:
            return None
        xs = {p[2] for p in pushes}
        x = xs.pop() if len(xs) == 1 else None
        if x is not None and self.free_of(info, x):
            # absolute index p = c0 + sg*it
            body = subst(x, {info.it_atom: (P(HOLE) - c0) * sg})
        else:
            body = self.array_body(info, a, init, k, pushes)
        if body is None:
            return None
        if sg == 1:
            return mk('fillr', init, c0, c0 + it, body)
        return mk('fillr', init, c0 - it + 1, c0 + 1, body)

    def array_body(self, info, a, init, kind, pushes):
        f = getattr(self.hooks, 'array_body', None)
        return f(self, info, a, init, kind, pushes) if f else None

    # ------------------------------------------------------------ candidate invariants
    def candidates(self, info):
        out = []
        info.split_on = set()
        ints = [a for a, v in info.phis.items() if isinstance(v, Poly)]
        init = info.inits()
        it = info.it

        def add(f):
            if f is TRUE or f is FALSE or f in out:
                return
            out.append(f)

        for t in info.tmpl.values():
            for x in atoms_deep(t):
                if x.op == 'agg' and x.args[0] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive') \
                        and len(x.args) == 4 and isinstance(x.args[2], Poly) and isinstance(x.args[3], Poly):
                    f = le(x.args[2], x.args[3])
                    add(f)
                    info.split_on.add(f)
                elif x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].split('::')[-1] in ('SliceIter', 'SliceIterMut', 'VecIntoIter') and len(x.args) == 5:
                    add(le(x.args[3], x.args[4]))
        for a in ints:
            pa = P(a)
            i0 = info.phis[a]
            add(ge(pa, 0))
            add(ge(pa, i0))
            add(le(pa, i0))
            add(ge(pa, 1))
            es = [b[a] for _, b in info.backs if a in b]
            sh = [e for e in es if isinstance(e, Poly) and any(t.op == 'shr' for t in e.atoms())]
            if sh:
                w = pow2(it)
                add(le(pa * w, i0))
                add(lt(i0, (pa + 1) * w))
                add(le(i0, pa * w))
                add(lt((pa - 1) * w, i0))
            ds = []
            for s, b in info.backs:
                if a in b and isinstance(b[a], Poly):
                    ds.append((b[a] - pa).const())
            if ds and all(d is not None for d in ds):
                add(le(pa, i0 + it * max(ds)))
                add(ge(pa, i0 + it * min(ds)))
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                x, y = P(a), P(b)
                x0, y0 = info.phis[a], info.phis[b]
                add(eq(x - y, x0 - y0))
                add(eq(x + y, x0 + y0))
                add(ge(x - y, x0 - y0))
                add(le(x - y, x0 - y0))
                add(le(x, y))
                add(le(y, x))
        # guards met on the way round
        ok = set(info.phis) | {info.it_atom}
        hf = set(info.entry.facts.key)
        seen = set()
        for s, b in info.backs:
            for l in s.facts.lits:
                if l.id in hf or l.op != 'ge0' or l in seen:
                    continue
                seen.add(l)
                p = l.args[0]
                at = atoms_deep(p)
                if not (at & ok):
                    continue
                if any(t.op in ('phi',) and t.args[0] == info.id and t not in ok for t in at):
                    continue
                for s2, b2 in info.backs:
                    d = (subst(p, b2) - p).const()
                    if d is not None and d < 0:
                        add(ge0(p - d))
                    elif d is None:
                        add(ge0(p + 1))
                add(ge0(p))
        # lengths of arrays that stay the same or grow
        for a, v in info.phis.items():
            if isinstance(v, T) and not is_bool(v):
                l0 = self.safe_len(v)
                if l0 is not None:
                    la = P(mk('len', a))
                    add(eq(la, l0))
                    add(ge(la, l0))
                    gr = set()
                    for _, b in info.backs:
                        e = b.get(a)
                        n = self.safe_len(e) if isinstance(e, T) else None
                        gr.add((n - la).const() if n is not None else None)
                    if len(gr) == 1:
                        g = gr.pop()
                        if g:
                            add(eq(la, l0 + it * g))
            elif isinstance(v, T):
                add(a if v is TRUE else b_not(a)) if v in (TRUE, FALSE) else None
        for f in self.hooks.candidates(self, info, None) or []:
            add(f)
        return out

    def safe_len(self, v):
        if v.op in ('rep', 'store', 'push', 'popb', 'popf', 'comp', 'slice', 'splice', 'cat', 'arr', 'carr', 'samelen', 'fillr', 'sym', 'fld', 'sel', 'phi', 'upd', 'app'):
            try:
                return arr_len(v)
            except Exception:
                return None
        return None


def info_init(info, a, t):
    return None
