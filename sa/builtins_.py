"""Models of the std operations that the interpreter does not look through."""
from term import *
from lin import *
from crate import *
from interp import *

R_ = 'core::ops::range::'
ORD = 'core::cmp::Ordering'
LESS, EQUAL, GREATER = AGG(ORD, 0), AGG(ORD, 1), AGG(ORD, 2)
EMPTY_ARR = mk('arr')
ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem',
         'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
ARITH_TRAITS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'}
ITERS = ('SliceIter', 'VecIntoIter')


def strip_ref(t):
    while t[0] == 'ref':
        t = t[1]
    return t


def arr_push(a, v):
    if a.op == 'arr' and len(a.args) < 12:
        return mk('arr', *(a.args + (v,)))
    return mk('push', a, v)


def arr_popb(a):
    if a.op == 'arr' and a.args:
        return mk('arr', *a.args[:-1])
    if a.op == 'push':
        return a.args[0]
    return mk('popb', a)


def arr_popf(a):
    if a.op == 'arr' and a.args:
        return mk('arr', *a.args[1:])
    if a.op == 'push' and a.args[0].op in ('push', 'arr') and (a.args[0].op == 'push' or a.args[0].args):
        return mk('push', arr_popf(a.args[0]), a.args[1])
    return mk('popf', a)


class Builtins:
    # ------------------------------------------------------------ helpers
    def one(self, st, v=UNIT):
        return [(st, v)]

    def fork(self, st, f, a, b):
        """results for f / not f ; a,b are values or callables(st)"""
        out = []
        for g, v in ((f, a), (b_not(f), b)):
            if g is FALSE:
                continue
            s = st.copy().assume(g)
            if g is not TRUE and s.facts.contradictory():
                continue
            if callable(v):
                r = v(s)
                out.extend(r if isinstance(r, list) else [(s, r)])
            else:
                out.append((s, v))
        return out

    def require(self, fr, st, c, kind, span, extra=None):
        """panic unless c; returns the continuing state or None"""
        if c is TRUE or st.facts.entails(c):
            return st
        bad = st.copy().assume(b_not(c))
        if not bad.facts.contradictory():
            self.panic(kind, span, fr, bad, (c, extra))
        st = st.copy().assume(c)
        return None if st.facts.contradictory() else st

    def tmpref(self, st, v):
        self.nframe += 1
        r = ('l', self.nframe, 'tmp')
        st.mem[r] = v
        return ref(r)

    def val(self, st, v):
        n = 0
        while is_ref(v) and n < 6:
            v = self.ld(st, v)
            n += 1
        return v

    def vty(self, t):
        return strip_ref(t) if t else t

    def is_int(self, t):
        return t is not None and t[0] in ('int', 'char')

    def val_eq(self, a, b, st):
        if a is b:
            return TRUE
        if isinstance(a, Poly) or isinstance(b, Poly):
            return eq(as_poly(a), as_poly(b))
        if is_bool(a) or is_bool(b):
            return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
        if is_ref(a) or is_ref(b):
            return self.val_eq(self.val(st, a), self.val(st, b), st)
        if a.op == 'agg' and b.op == 'agg':
            if a.args[0] == b.args[0] and len(a.args) == len(b.args) and a.args[1] == b.args[1]:
                return b_and(*[self.val_eq(x, y, st) for x, y in zip(a.args[2:], b.args[2:])])
            if a.args[0] == b.args[0] and a.args[1] != b.args[1]:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'agg' and y.op != 'agg' and x.args[0] in (OPT,):
                c = [eq(self.discr(y, st), x.args[1])]
                for i, w in enumerate(x.args[2:]):
                    z = self.proj(self.proj(y, ('v', x.args[1]), st), ('f', i), st)
                    if isinstance(w, Poly) and isinstance(z, T):
                        z = P(z)
                    c.append(self.val_eq(w, z, st))
                return b_and(*c)
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk('bterm', 'eq', x, y)

    def val_lt(self, a, b, st):
        if isinstance(a, Poly) or isinstance(b, Poly):
            return lt(as_poly(a), as_poly(b))
        if is_bool(a) or is_bool(b):
            return b_and(b_not(a), b)
        if is_ref(a) or is_ref(b):
            return self.val_lt(self.val(st, a), self.val(st, b), st)
        if a is b:
            return FALSE
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
            if a.args[0] == 'core::cmp::Reverse':
                return self.val_lt(b.args[2], a.args[2], st)
            if a.args[1] != b.args[1]:
                return B(a.args[1] < b.args[1])
            if a.args[0] == 'tuple' or a.args[0] == OPT:
                r = FALSE
                for x, y in reversed(list(zip(a.args[2:], b.args[2:]))):
                    r = b_or(self.val_lt(x, y, st), b_and(self.val_eq(x, y, st), r))
                return r
        if OPT in [x.args[0] for x in (a, b) if x.op == 'agg']:
            # None is below everything, two that are there compare by what they hold
            da, db = self.discr(a, st), self.discr(b, st)
            if any(x.op == 'agg' and x.args[1] == 0 for x in (a, b)):
                return lt(da, db)
            x, y = [v.args[2] if v.op == 'agg' else self.proj(self.proj(v, ('v', 1), st), ('f', 0), st) for v in (a, b)]
            if isinstance(x, Poly) != isinstance(y, Poly):
                x, y = [P(z) if isinstance(z, T) else z for z in (x, y)]
            return b_or(lt(da, db), b_and(eq(da, db), self.val_lt(x, y, st)))
        return mk('bterm', 'lt', a, b)

    def cmp3(self, fr, st, a, b):
        out = []
        l, e = self.val_lt(a, b, st), self.val_eq(a, b, st)
        if isinstance(a, Poly):
            alts = ((l, LESS), (e, EQUAL), (lt(b, a), GREATER))
        else:
            g = self.val_lt(b, a, st)
            alts = ((b_and(l, b_not(e), b_not(g)), LESS), (b_and(e, b_not(l), b_not(g)), EQUAL),
                    (b_and(g, b_not(l), b_not(e)), GREATER))
        for f, v in alts:
            s = st.copy().assume(f)
            if not s.facts.contradictory():
                out.append((s, v))
        return out

    def int_arith(self, fr, st, op, a, b, ty, span):
        """checked arithmetic on integers (panics on overflow, as `a op b` does)"""
        a, b = as_poly(a), as_poly(b)
        if op in ('Div', 'Rem'):
            st = self.require(fr, st, ne(b, 0), 'div0', span)
            if st is None:
                return []
            return self.one(st, self.binop(op, a, b, ty, st))
        if op in ('Add', 'Sub', 'Mul') and ty[1] != 'int':
            v = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
            st = self.require(fr, st, self.in_range(v, ty), 'overflow', span, (op, a, b))
            if st is None:
                return []
            return self.one(st, v)
        return self.one(st, self.binop(op, a, b, ty, st))

    # ------------------------------------------------------------ traits
    def trait_builtin(self, fr, st, key, fref, args, span, dty):
        f, targs = fref.f, fref.args
        tr, _, name = key.rpartition('::')
        T0 = targs[0] if targs else None
        V0 = self.vty(T0) if T0 else None
        if tr == 'Clone':
            if name == 'clone':
                return self.one(st, self.ld(st, args[0]) if T0 and T0[0] != 'ref' or is_ref(args[0]) else args[0])
            if name == 'clone_from':
                r, p = self.deref(args[0])
                self.wr(st, r, p, self.ld(st, args[1]), fr, span)
                return self.one(st)
        if tr in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut'):
            v = args[0]
            if is_ref(v):
                try:
                    inner = self.ld(st, v)
                except Unknown:
                    inner = None
                if isinstance(inner, T) and inner.op == 'agg' and inner.args[0] == 'box':
                    r, p = self.deref(v)
                    return self.one(st, ref(r, p + (('f', 0),)))
            return self.one(st, v)
        if tr in ('Index', 'IndexMut'):
            return self.index(fr, st, args[0], args[1], span, tr == 'IndexMut')
        if tr in ('PartialEq',):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            r = self.val_eq(a, b, st)
            return self.one(st, r if name == 'eq' else b_not(r))
        if tr in ('PartialOrd', 'Ord') and name in ('lt', 'le', 'gt', 'ge'):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            if name == 'lt':
                r = self.val_lt(a, b, st)
            elif name == 'gt':
                r = self.val_lt(b, a, st)
            elif name == 'le':
                r = b_not(self.val_lt(b, a, st))
            else:
                r = b_not(self.val_lt(a, b, st))
            return self.one(st, r)
        if name in ('cmp', 'partial_cmp') and tr in ('PartialOrd', 'Ord'):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            res = self.cmp3(fr, st, a, b)
            if name == 'partial_cmp':
                res = [(s, some(v)) for s, v in res]
            return res
        if tr in ARITH_TRAITS:
            if self.is_int(V0):
                return self.int_arith(fr, st, tr, self.val(st, args[0]), self.val(st, args[1]), V0, span)
            if V0 and V0[0] == 'bool':
                return self.one(st, self.binop(tr, self.val(st, args[0]), self.val(st, args[1]), V0, st))
        if tr.endswith('Assign') and tr[:-6] in ARITH_TRAITS:
            if self.is_int(T0):
                out = []
                for s, v in self.int_arith(fr, st, tr[:-6], self.ld(st, args[0]), self.val(st, args[1]), T0, span):
                    r, p = self.deref(args[0])
                    self.wr(s, r, p, v, fr, span)
                    out.append((s, UNIT))
                return out
            if T0 and T0[0] in ('param', 'alias') or (T0 and T0[0] == 'adt' and not f.get('res')):
                # x op= y on a caller type: the same uninterpreted operation as x op y
                r, p = self.deref(args[0])
                old, y = self.rd(st, r, p), self.val(st, args[1])
                k2 = '%s::%s' % (tr[:-6], name[:-7])
                st.event('op', k2, (old, y), span)
                self.wr(st, r, p, mk('app', k2, ty_str(T0), old, y), fr, span)
                return self.one(st)
        if tr == 'Neg' and self.is_int(V0):
            v = -as_poly(self.val(st, args[0]))
            st = self.require(fr, st, self.in_range(v, V0), 'overflow', span)
            return self.one(st, v) if st else []
        if tr == 'Not':
            v = self.val(st, args[0])
            if V0[0] == 'bool':
                return self.one(st, b_not(v))
            if self.is_int(V0):
                lo, hi = self.range_of(V0)
                return self.one(st, P(hi) - as_poly(v) if lo == 0 else -as_poly(v) - 1)
        if tr == 'Default':
            v = self.default_of(fr, st, T0)
            if v is not None:
                return self.one(st, v)
        if tr == 'Zero' and self.is_int(T0):
            return self.one(st, ZERO)
        if tr == 'One' and self.is_int(T0):
            return self.one(st, ONE)
        if tr in ('From', 'Into', 'TryFrom', 'TryInto'):
            if tr in ('From', 'TryFrom'):
                to, frm = targs[0], targs[1]
            else:
                frm, to = targs[0], targs[1]
            return self.convert(fr, st, tr, frm, to, args, span, dty, fref)
        if tr == 'Iterator' or tr == 'DoubleEndedIterator' or tr == 'ExactSizeIterator' or tr == 'IntoIterator':
            return self.iterator(fr, st, tr, name, fref, args, span, dty)
        if tr == 'Extend' and name == 'extend':
            fn = self.prelude_fn('Extend::extend')
            r = self.into_iter(fr, st, targs[2] if len(targs) > 2 else None, args[1], span)
            out = []
            for s, it in r:
                for s2, v in self.call_prelude(fr, s, 'Iterator::collect_vec', [it], span, dty):
                    rr, p = self.deref(args[0])
                    old = self.rd(s2, rr, p)
                    self.wr(s2, rr, p, mk('cat', old, v), fr, span)
                    out.append((s2, UNIT))
            return out
        if tr == 'Try' and name == 'branch':
            h = head(T0)
            return self.call_prelude(fr, st, 'Try::branch_' + h.lower(), args, span, dty)
        if tr == 'FromResidual' and name == 'from_residual':
            h = head(T0)
            return self.call_prelude(fr, st, 'FromResidual::from_residual_' + h.lower(), args, span, dty)
        if tr in ('RangeBounds',):
            if name == 'contains':
                r = self.val(st, args[0])
                b = self.range_bounds(r, None)
                x = as_poly(self.val(st, args[1]))
                if b:
                    c = []
                    if b[0] is not None:
                        c.append(le(b[0], x))
                    if b[1] is not None:
                        c.append(lt(x, b[1]))
                    return self.one(st, b_and(*c))
        if tr == 'ToString' or tr == 'ToOwned':
            return self.one(st, self.val(st, args[0]))
        if tr == 'Drop':
            return self.one(st)
        if tr in ('Debug', 'Display', 'Write', 'Hash', 'Hasher', 'Binary', 'Octal'):
            st.event('ext', key, tuple(args), span)
            return self.one(st, mk('app', key, '?', *[self._pure(st, a) for a in args]))
        return None

    def default_of(self, fr, st, t):
        k = t[0]
        if k == 'int':
            return ZERO
        if k == 'bool':
            return FALSE
        if k == 'tuple':
            vs = [self.default_of(fr, st, x) for x in t[1]]
            return None if any(v is None for v in vs) else AGG('tuple', 0, *vs)
        if k == 'adt':
            h = head(t)
            if h == 'Option':
                return NONE
            if h in ('Vec', 'VecDeque'):
                return EMPTY_ARR
            if h == 'PhantomData':
                return mk('zst', ty_str(t))
            if h == 'BinaryHeap':
                return mk('hempty')
            if h == 'String':
                return mk('strlit', '')
            if h in ('Box', 'UnsafeCell', 'Cell', 'RefCell'):
                v = self.default_of(fr, st, t[2][0])
                return v if v is None or h != 'Box' else AGG('box', 0, v)
        return None

    def convert(self, fr, st, tr, frm, to, args, span, dty, fref):
        v = args[0]
        if tr in ('Into', 'TryInto'):
            want = 'core::convert::From' if tr == 'Into' else 'core::convert::TryFrom'
            c = self.find_impl(want, (to, frm))
            if c:
                it = c[1]['items'].get('from' if tr == 'Into' else 'try_from')
                fn = self.fns.get(it['path'])
                if fn and fn.body:
                    return self.inline(fr, st, fn, args, dict(c[2]), span, dty)
        if frm == to and tr in ('From', 'Into'):
            return self.one(st, v)
        if to[0] == 'int' and frm[0] in ('int', 'char', 'bool'):
            if frm[0] == 'bool':
                return self.one(st, self.cast(v, frm, to, '', st))
            if tr in ('TryFrom', 'TryInto'):
                p = as_poly(v)
                return self.fork(st, self.in_range(p, to), AGG('core::result::Result', 0, p),
                                 AGG('core::result::Result', 1, mk('zst', 'TryFromIntError')))
            return self.one(st, v)
        if head(to) in ('Vec', 'VecDeque', 'Box') and tr in ('From', 'Into'):
            x = self.val(st, v)
            return self.one(st, x)
        if head(to) == 'Option' and tr in ('From', 'Into'):
            return self.one(st, some(v))
        if frm[0] == 'int' and tr in ('From', 'Into') and to[0] == 'param':
            return None
        return None

    # ------------------------------------------------------------ indexing
    def range_bounds(self, r, n):
        """(lo, hi) of a range value, hi None = to the end"""
        if not (isinstance(r, T) and r.op == 'agg'):
            return None
        nm = r.args[0]
        a = r.args[2:]
        if nm == R_ + 'Range' or nm == R_ + 'RangeInclusive':
            return as_poly(a[0]), as_poly(a[1])
        if nm == R_ + 'RangeFrom':
            return as_poly(a[0]), n
        if nm == R_ + 'RangeTo':
            return ZERO, as_poly(a[0])
        if nm == R_ + 'RangeToInclusive':
            return ZERO, as_poly(a[0]) + 1
        if nm == R_ + 'RangeFull':
            return ZERO, n
        return None

    def index(self, fr, st, base, idx, span, mut):
        root, path = self.deref(base)
        n = self.len_at(st, root, path)
        if is_ref(idx):
            idx = self.val(st, idx)
        if isinstance(idx, T) and idx.op == 'zst' and 'RangeFull' in idx.args[0]:
            return self.one(st, base if is_ref(base) else ref(root, path))
        if isinstance(idx, Poly):
            st = self.require(fr, st, b_and(ge(idx, 0), lt(idx, n)), 'bounds', span, (idx, n, root, path))
            if st is None:
                return []
            return self.one(st, ref(root, self.path_add(st, root, path, ('i', idx))))
        b = self.range_bounds(idx, n)
        if b is None:
            raise Unknown('index with %s' % show(idx))
        lo, hi = b
        st = self.require(fr, st, b_and(le(lo, hi), le(hi, n), ge(lo, 0)), 'slice-bounds', span, (lo, hi, n, root, path))
        if st is None:
            return []
        return self.one(st, ref(root, self.path_add(st, root, path, ('s', lo, hi))))

    # ------------------------------------------------------------ iterators
    def call_prelude(self, fr, st, key, args, span, dty, env=None):
        fn = self.prelude_fn(key)
        if fn is None:
            raise Unknown('no model ' + key)
        return self.inline(fr, st, fn, args, env or {}, span, dty)

    def into_iter(self, fr, st, ty, v, span):
        x = v
        if is_ref(v):
            t = strip_ref(ty) if ty else None
            mut = ty is not None and ty[0] == 'ref' and ty[2]
            inner = None
            if ty is not None and ty[0] == 'ref' and t[0] == 'adt' and head(t) in ('Vec', 'VecDeque') or (t and t[0] in ('slice', 'array')):
                k = 'slice::iter_mut_model' if mut else 'slice::iter_model'
                return self.call_prelude(fr, st, k, [v], span, None)
            inner = self.val(st, v)
            if t and t[0] == 'adt' and head(t) == 'Option':
                k = 'Option::as_mut' if mut else 'Option::as_ref'
                out = []
                for s, o in self.call_prelude(fr, st, k, [v], span, None):
                    out += self.call_prelude(fr, s, 'Option::into_iter', [o], span, None)
                return out
            return self.one(st, v)
        if ty is not None and ty[0] == 'ref' and isinstance(v, T):
            # symbolic reference
            t = strip_ref(ty)
            if t[0] in ('slice', 'array') or (t[0] == 'adt' and head(t) in ('Vec', 'VecDeque')):
                return self.call_prelude(fr, st, 'slice::iter_model', [v], span, None)
        if ty is not None and ty[0] == 'adt' and head(ty) in ('Vec', 'VecDeque') or (ty and ty[0] == 'array'):
            return self.call_prelude(fr, st, 'slice::vec_into_iter', [v], span, None)
        if ty is not None and ty[0] == 'adt' and head(ty) == 'Option':
            return self.call_prelude(fr, st, 'Option::into_iter', [v], span, None)
        return self.one(st, v)

    def iterator(self, fr, st, tr, name, fref, args, span, dty):
        targs = fref.args
        if tr == 'IntoIterator' and name == 'into_iter':
            t = targs[0]
            if t[0] in ('param', 'alias') and isinstance(args[0], T) and args[0].op in ('arr', 'push', 'store', 'rep', 'cat', 'comp'):
                t = ('adt', 'alloc::vec::Vec', ())
            return self.into_iter(fr, st, t, args[0], span)
        if name in ('next', 'next_back'):
            r, p = self.deref(args[0])
            v = self.rd(st, r, p)
            n = 0
            while is_ref(v) and n < 4:      # &mut I
                r, p = v.args
                v = self.rd(st, r, p)
                n += 1
            if isinstance(v, T) and v.op == 'agg':
                nm = v.args[0]
                if nm in (R_ + 'Range', R_ + 'RangeInclusive', R_ + 'RangeFrom'):
                    lo = as_poly(v.args[2])
                    if nm == R_ + 'RangeFrom':
                        self.wr(st, r, p + (('f', 0),), lo + 1, fr, span)
                        return self.one(st, some(lo))
                    hi = as_poly(v.args[3])
                    out = []
                    s = st.copy().assume(lt(lo, hi))
                    if not s.facts.contradictory():
                        if name == 'next':
                            self.wr(s, r, p + (('f', 0),), lo + 1, fr, span)
                            out.append((s, some(lo)))
                        else:
                            self.wr(s, r, p + (('f', 1),), hi - 1, fr, span)
                            out.append((s, some(hi - 1)))
                    s = st.copy().assume(le(hi, lo))
                    if not s.facts.contradictory():
                        out.append((s, NONE))
                    return out
                h = self.find_impl_head('core::iter::traits::iterator::Iterator' if name == 'next' else
                                        'core::iter::traits::double_ended::DoubleEndedIterator', nm)
                if h:
                    fn = self.fns.get(h[1]['items'][name]['path'])
                    return self.inline(fr, st, fn, [ref(r, p)], {}, span, dty)
                if nm == 'OpIter':
                    return self.opiter_next(fr, st, r, p, v.args[2], v.args[3], name, span)
            if isinstance(v, T):
                return self.opiter_next(fr, st, r, p, v, ZERO, name, span)
            return None
        if name == 'collect':
            if dty is not None and dty[0] == 'adt' and head(dty) in ('Vec', 'VecDeque'):
                v = args[0]
                if isinstance(v, T) and v.op == 'agg' and v.args[0] == 'OpIter' and v.args[3].const() == 0:
                    st.event('drain', v.args[2], span)
                    return self.one(st, mk('app', 'collect', '?', v.args[2]))
                if isinstance(v, T) and v.op != 'agg' and not is_ref(v):
                    st.event('drain', v, span)
                    return self.one(st, mk('app', 'collect', '?', v))
                if isinstance(v, T) and v.op == 'agg' and v.args[0].endswith('ad::VecIntoIter') and v.args[3].const() == 0 \
                        and st.facts.simp(v.args[4] - arr_len(v.args[2])).const() == 0:
                    return self.one(st, v.args[2])
                return self.call_prelude(fr, st, 'Iterator::collect_vec', args, span, dty)
            if dty is not None and dty[0] == 'adt' and head(dty) == 'BinaryHeap':
                out = []
                for s, v in self.call_prelude(fr, st, 'Iterator::collect_vec', args, span, dty):
                    out.append((s, mk('hfrom', v)))
                return out
            return None
        if name in ('sum', 'product'):
            rt = dty
            if self.is_int(rt):
                return self.call_prelude(fr, st, 'Iterator::%s_model' % name,
                                         [args[0], ZERO if name == 'sum' else ONE], span, dty, {'X': rt, 'S': targs[0]})
            c = self.find_impl('core::iter::traits::accum::' + name.capitalize(), (rt, rt))
            return None
        if name in ('min', 'max') and tr == 'Iterator':
            return self.call_prelude(fr, st, 'Iterator::%s_model' % name, args, span, dty)
        if name in ('max_by_key', 'min_by_key', 'max_by', 'min_by', 'flat_map', 'flatten', 'scan', 'peekable', 'unzip',
                    'partition', 'skip_while', 'map_while', 'cycle', 'inspect', 'size_hint'):
            return None
        if name == 'len' and tr == 'ExactSizeIterator':
            v = self.val(st, args[0])
            if isinstance(v, T) and v.op == 'agg':
                if v.args[0] in (R_ + 'Range', R_ + 'RangeInclusive'):
                    lo, hi = as_poly(v.args[2]), as_poly(v.args[3])
                    return self.fork(st, le(lo, hi), hi - lo, ZERO)
                if v.args[0].split('::')[-1] in ITERS:
                    return self.one(st, v.args[4] - v.args[3])
        if name == 'rev' and isinstance(args[0], T) and args[0].op == 'agg' and args[0].args[0].endswith('ad::Rev'):
            return self.one(st, args[0].args[2])
        return None

    def opiter_next(self, fr, st, r, p, base, k, name, span):
        """iterator that is not looked through: a sequence of tokens item(base, k)"""
        if name != 'next':
            return None
        st.event('next', base, k, span)
        has = mk('bterm', 'has', base, k)
        self.wr(st, r, p, AGG('OpIter', 0, base, k + 1), fr, span)
        return self.fork(st, has, some(mk('item', base, k)), NONE)

    # ------------------------------------------------------------ inherent methods and functions
    def builtin(self, fr, st, key, fref, args, span, dty):
        f = fref.f
        tr, _, name = key.rpartition('::')
        m = getattr(self, 'b_' + tr, None)
        if m:
            return m(fr, st, name, args, span, dty, fref)
        if tr in ('Arguments', 'Argument', 'rt', 'Formatter', 'fmt', 'io', 'stdio'):
            if f.get('never'):
                return None
            st.event('ext', key, tuple(args), span)
            return self.one(st, mk('app', key, '?', *[a for a in args]))
        return None

    def b_sa_prelude(self, fr, st, name, args, span, dty, fref):
        if name == 'sa_read':
            return self.one(st, self.ld(st, args[0]))
        return None

    def b_mem(self, fr, st, name, args, span, dty, fref):
        if name == 'swap':
            (r1, p1), (r2, p2) = self.deref(args[0]), self.deref(args[1])
            a, b = self.rd(st, r1, p1), self.rd(st, r2, p2)
            self.wr(st, r1, p1, b, fr, span)
            self.wr(st, r2, p2, a, fr, span)
            return self.one(st)
        if name in ('replace', 'take'):
            r, p = self.deref(args[0])
            old = self.rd(st, r, p)
            if name == 'replace':
                new = args[1]
            else:
                new = self.default_of(fr, st, fref.args[0])
                if new is None:
                    return None
            self.wr(st, r, p, new, fr, span)
            return self.one(st, old)
        if name in ('drop', 'forget'):
            return self.one(st)
        if name == 'size_of':
            t = fref.args[0]
            if t[0] == 'int' and t[1] in INT_RANGE:
                lo, hi = INT_RANGE[t[1]]
                return self.one(st, P(((hi - lo + 1).bit_length() - 1) // 8))
        return None

    def b_int(self, fr, st, name, args, span, dty, fref):
        f = fref.f
        ty = fref.cr.ty(f['impl_self'])
        lo, hi = self.range_of(ty)
        bits = (hi - lo + 1).bit_length() - 1
        A = [as_poly(self.val(st, a)) for a in args if not (isinstance(a, T) and not is_ref(a) and False)]
        a = A[0]
        b = A[1] if len(A) > 1 else None
        F = st.facts
        lgb = lambda s: P(bits - 1) - ilog2(s.assume(le(ilog2(a), bits - 1)) and a)
        if name in ('leading_zeros', 'trailing_zeros', 'count_ones', 'ilog2', 'is_power_of_two', 'next_power_of_two',
                    'trailing_ones', 'checked_ilog2'):
            if name == 'is_power_of_two':
                if a.atom() is not None and a.atom().op == 'pow2':
                    return self.one(st, TRUE)
                return self.one(st, mk('bterm', 'ispow2', a))
            if name == 'ilog2':
                st = self.require(fr, st, ge(a, 1), 'ilog2', span)
                return self.one(st, ilog2(a)) if st else []
            if name == 'leading_zeros':
                if lo < 0:
                    return self.fork(st, ge(a, 1), lgb, lambda s: self.fork(s, eq(a, 0), P(bits), ZERO))
                return self.fork(st, ge(a, 1), lgb, P(bits))
            if name == 'next_power_of_two':
                return self.fork(st, ge(a, 2), lambda s: pow2(ilog2(a - 1) + 1), ONE)
            if name == 'trailing_zeros':
                t = mk('ctz', a)
                return self.fork(st, ne(a, 0), lambda s: (s.assume(ge(P(t), 0), le(P(t), bits - 1), eq(pow2(P(t)), lowbit(a))), P(t))[1], P(bits))
            t = mk('app', 'int::' + name, 'u32', a)
            TY[t] = 'u32'
            return self.one(st, P(t))
        base = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'neg': lambda: -a}
        for pre in ('wrapping_', 'checked_', 'saturating_', 'overflowing_'):
            if name.startswith(pre) and name[len(pre):] in base:
                v = base[name[len(pre):]]()
                if pre == 'wrapping_':
                    return self.one(st, self.wrap(v, ty, st))
                if pre == 'checked_':
                    return self.fork(st, self.in_range(v, ty), some(v), NONE)
                if pre == 'overflowing_':
                    c = self.in_range(v, ty)
                    return self.fork(st, c, AGG('tuple', 0, v, FALSE), lambda s: AGG('tuple', 0, self.wrap(v, ty, s), TRUE))
                return self.fork(st, le(v, hi), lambda s: self.fork(s, ge(v, lo), v, P(lo)), P(hi))
        if name in ('checked_div', 'checked_rem', 'checked_rem_euclid', 'checked_div_euclid'):
            op = 'Div' if 'div' in name else 'Rem'
            return self.fork(st, ne(b, 0), lambda s: some(self.binop(op, a, b, ty, s)), NONE)
        if name in ('rem_euclid', 'div_euclid'):
            st = self.require(fr, st, ne(b, 0), 'div0', span)
            if st is None:
                return []
            if st.facts.entails(ge(b, 1)):
                return self.one(st, rem(a, b) if name == 'rem_euclid' else quot(a, b))
            return self.fork(st, ge(b, 1), lambda s: rem(a, b) if name == 'rem_euclid' else quot(a, b),
                             lambda s: rem(a, -b) if name == 'rem_euclid' else -quot(a, -b))
        if name in ('abs', 'unsigned_abs', 'wrapping_abs'):
            return self.fork(st, ge(a, 0), a, -a)
        if name == 'abs_diff':
            return self.fork(st, ge(a, b), a - b, b - a)
        if name == 'signum':
            return self.fork(st, ge(a, 1), ONE, lambda s: self.fork(s, eq(a, 0), ZERO, P(-1)))
        if name == 'is_negative':
            return self.one(st, lt(a, 0))
        if name == 'is_positive':
            return self.one(st, gt(a, 0))
        if name == 'pow':
            bc = b.const()
            if bc is not None and bc <= 8:
                v = ONE
                for _ in range(bc):
                    v = v * a
                st = self.require(fr, st, self.in_range(v, ty), 'overflow', span, ('Pow', a, b))
                return self.one(st, v) if st else []
            if a.const() == 2:
                v = pow2(b)
                st = self.require(fr, st, self.in_range(v, ty), 'overflow', span, ('Pow', a, b))
                return self.one(st, v) if st else []
            t = mk('app', 'int::pow', ty[1], a, b)
            TY[t] = ty[1]
            return self.one(st, P(t))
        if name in ('wrapping_shl', 'wrapping_shr', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'):
            op = {'wrapping_shl': 'Shl', 'wrapping_shr': 'Shr', 'unchecked_add': 'AddUnchecked',
                  'unchecked_sub': 'SubUnchecked', 'unchecked_mul': 'MulUnchecked'}[name]
            if name.startswith('unchecked') and not self.quiet:
                v = {'unchecked_add': lambda: a + b, 'unchecked_sub': lambda: a - b, 'unchecked_mul': lambda: a * b}[name]()
                c = self.in_range(v, ty)
                self.hooks.on_unsafe(self, 'overflow', st.facts.entails(c), c, span, fr, st)
            return self.one(st, self.binop(op, a, b, ty, st))
        if name == 'div_ceil':
            st = self.require(fr, st, ge(b, 1), 'div0', span)
            return self.one(st, quot(a + b - 1, b)) if st else []
        return None

    # -- Vec, slices, deques share the functional array
    def b_Vec(self, fr, st, name, args, span, dty, fref):
        return self.seq(fr, st, name, args, span, dty, fref)

    def b_VecDeque(self, fr, st, name, args, span, dty, fref):
        return self.seq(fr, st, name, args, span, dty, fref)

    def b_slice(self, fr, st, name, args, span, dty, fref):
        return self.seq(fr, st, name, args, span, dty, fref)

    def b_vec(self, fr, st, name, args, span, dty, fref):
        if name == 'from_elem':
            n = as_poly(args[1])
            return self.one(st, mk('rep', args[0], n))
        return None

    def b_boxed(self, fr, st, name, args, span, dty, fref):
        if name in ('box_new', 'box_assume_init_into_vec_unsafe'):
            return self.one(st, AGG('box', 0, args[0]))
        return None

    def seq(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'with_capacity'):
            return self.one(st, EMPTY_ARR)
        if not args:
            return None
        if name in ('into_vec', 'into_boxed_slice'):
            v = args[0]
            if isinstance(v, T) and v.op == 'agg' and v.args[0] == 'box':
                v = v.args[2]
            return self.one(st, v)
        r, p = self.deref(args[0])
        if name in ('as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'make_contiguous'):
            return self.one(st, args[0])
        if name in ('reserve', 'shrink_to_fit', 'reserve_exact'):
            return self.one(st)
        n = self.len_at(st, r, p)
        if name == 'len':
            return self.one(st, n)
        if name == 'is_empty':
            return self.one(st, eq(n, 0))
        if name == 'capacity':
            return None
        if name == 'iter':
            return self.call_prelude(fr, st, 'slice::iter_model', args, span, dty)
        if name == 'iter_mut':
            return self.call_prelude(fr, st, 'slice::iter_mut_model', args, span, dty)
        if name in ('push', 'push_back'):
            old = self.rd(st, r, p)
            self.wr(st, r, p, self.push_val(old, args[1], st), fr, span)
            return self.one(st)
        if name == 'push_front':
            old = self.rd(st, r, p)
            self.wr(st, r, p, mk('cat', mk('arr', args[1]), old), fr, span)
            return self.one(st)
        if name in ('pop', 'pop_back', 'pop_front'):
            old = self.rd(st, r, p)
            out = []
            s = st.copy().assume(ge(n, 1))
            if not s.facts.contradictory():
                if name == 'pop_front':
                    v, new = self.sel(old, ZERO, s), arr_popf(old)
                else:
                    v, new = self.sel(old, n - 1, s), arr_popb(old)
                if isinstance(v, T) and dty is not None and dty[0] == 'adt' and dty[2]:
                    v = self.typed(v, dty[2][0])
                self.wr(s, r, p, new, fr, span)
                out.append((s, some(v)))
            s = st.copy().assume(eq(n, 0))
            if not s.facts.contradictory():
                out.append((s, NONE))
            return out
        if name in ('front', 'back', 'get', 'get_mut', 'front_mut', 'back_mut'):
            if name.startswith('get'):
                i = args[1]
                if not isinstance(i, Poly):
                    b = self.range_bounds(i, n)
                    if b is None:
                        return None
                    return self.fork(st, b_and(le(b[0], b[1]), le(b[1], n)),
                                     lambda s: some(ref(r, self.path_add(s, r, p, ('s', b[0], b[1])))), NONE)
            else:
                i = ZERO if name.startswith('front') else n - 1
            return self.fork(st, b_and(lt(i, n), ge(i, 0)), lambda s: some(ref(r, self.path_add(s, r, p, ('i', i)))), NONE)
        if name in ('get_unchecked', 'get_unchecked_mut'):
            i = args[1]
            if not isinstance(i, Poly):
                return None
            ok = b_and(ge(i, 0), lt(i, n))
            st.event('unsafe', 'bounds', st.facts.entails(ok), ok, span)
            if not self.quiet:
                self.hooks.on_unsafe(self, 'bounds', st.facts.entails(ok), ok, span, fr, st)
            st = st.copy().assume(ok)
            return self.one(st, ref(r, self.path_add(st, r, p, ('i', i))))
        if name == 'clear':
            self.wr(st, r, p, EMPTY_ARR, fr, span)
            return self.one(st)
        if name == 'truncate':
            m = as_poly(args[1])
            old = self.rd(st, r, p)

            def tr(s):
                self.wr(s, r, p, mk('slice', old, ZERO, m), fr, span)
                return UNIT
            return self.fork(st, lt(m, n), tr, UNIT)
        if name == 'resize':
            m = as_poly(args[1])
            old = self.rd(st, r, p)

            def grow(s):
                self.wr(s, r, p, mk('cat', old, mk('rep', args[2], m - n)), fr, span)
                return UNIT

            def shrink(s):
                self.wr(s, r, p, mk('slice', old, ZERO, m), fr, span)
                return UNIT
            return self.fork(st, ge(m, n), grow, shrink)
        if name == 'fill':
            self.wr(st, r, p, mk('rep', args[1], n), fr, span)
            return self.one(st)
        if name in ('clone_from_slice', 'copy_from_slice'):
            r2, p2 = self.deref(args[1])
            n2 = self.len_at(st, r2, p2)
            st = self.require(fr, st, eq(n, n2), 'slice-len', span, (n, n2))
            if st is None:
                return []
            self.wr(st, r, p, self.rd(st, r2, p2), fr, span)
            return self.one(st)
        if name in ('extend_from_slice', 'append'):
            r2, p2 = self.deref(args[1])
            src = self.rd(st, r2, p2)
            old = self.rd(st, r, p)
            if src.op == 'arr' and old.op == 'arr':
                new = mk('arr', *(old.args + src.args))
            elif old.op == 'arr' and not old.args:
                new = src
            else:
                new = mk('cat', old, src)
            self.wr(st, r, p, new, fr, span)
            if name == 'append':
                self.wr(st, r2, p2, EMPTY_ARR, fr, span)
            return self.one(st)
        if name in ('to_vec', 'into_boxed_slice', 'to_owned'):
            return self.one(st, self.rd(st, r, p))
        if name == 'swap':
            i, j = as_poly(args[1]), as_poly(args[2])
            st = self.require(fr, st, b_and(lt(i, n), lt(j, n), ge(i, 0), ge(j, 0)), 'bounds', span, (i, n, r, p))
            if st is None:
                return []
            pi, pj = self.path_add(st, r, p, ('i', i)), self.path_add(st, r, p, ('i', j))
            a, b = self.rd(st, r, pi), self.rd(st, r, pj)
            self.wr(st, r, pi, b, fr, span)
            self.wr(st, r, pj, a, fr, span)
            return self.one(st)
        if name in ('split_at', 'split_at_mut'):
            m = as_poly(args[1])
            st = self.require(fr, st, b_and(ge(m, 0), le(m, n)), 'slice-bounds', span, (m, n, r, p))
            if st is None:
                return []
            return self.one(st, AGG('tuple', 0, ref(r, self.path_add(st, r, p, ('s', ZERO, m))),
                                    ref(r, self.path_add(st, r, p, ('s', m, n)))))
        if name in ('reverse', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key',
                    'rotate_left', 'rotate_right', 'dedup', 'retain', 'insert', 'remove', 'swap_remove', 'drain', 'split_off',
                    'fill_with', 'copy_within'):
            st.unknown('seq ' + name)
            self.nframe += 1
            old = self.rd(st, r, p)
            if name in ('reverse', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key',
                        'rotate_left', 'rotate_right', 'copy_within', 'fill_with'):
                self.wr(st, r, p, mk('samelen', old, mk('perm', name, self.nframe)), fr, span)
                return self.one(st)
            self.wr(st, r, p, mk('opaque', name, self.nframe), fr, span)
            return self.one(st, mk('opaque', name + '.ret', self.nframe))
        return None

    def push_val(self, a, v, st):
        if a.op == 'comp' and self.elem_eq(subst(a.args[0], {HOLE: a.args[1]}), v, st):
            return mk('comp', a.args[0], a.args[1] + 1)
        if a.op == 'cat' and a.args[1].op == 'comp':
            c = a.args[1]
            if self.elem_eq(subst(c.args[0], {HOLE: c.args[1]}), v, st):
                return mk('cat', a.args[0], mk('comp', c.args[0], c.args[1] + 1))
        return arr_push(a, v)

    def b_Box(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'pin'):
            return self.one(st, AGG('box', 0, args[0]))
        return None

    def b_UnsafeCell(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'into_inner', 'get', 'get_mut', 'raw_get'):
            return self.one(st, args[0])
        return None

    def b_Cell(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'into_inner', 'get_mut', 'as_ptr'):
            return self.one(st, args[0])
        if name == 'get':
            return self.one(st, self.ld(st, args[0]))
        if name in ('set', 'replace'):
            r, p = self.deref(args[0])
            old = self.rd(st, r, p)
            self.wr(st, r, p, args[1], fr, span)
            return self.one(st, UNIT if name == 'set' else old)
        return None

    def b_Atomic(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'into_inner'):
            return self.one(st, args[0])
        r, p = self.deref(args[0])
        if name == 'load':
            v = self.typed(self.rd(st, r, p), dty)
            st.event('aload', r, p, v, span)
            return self.one(st, v)
        if name == 'store':
            st.event('astore', r, p, args[1], span)
            self.wr(st, r, p, args[1], fr, span)
            return self.one(st)
        if name == 'get_mut':
            return self.one(st, args[0])
        if name in ('swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min'):
            v = self.typed(self.rd(st, r, p), dty)
            st.event('aload', r, p, v, span)
            out = []
            x = as_poly(args[1]) if name != 'swap' else args[1]
            if name == 'swap':
                new = [(st, x)]
            elif name in ('fetch_add', 'fetch_sub'):
                n = v + x if name == 'fetch_add' else v - x
                new = [(st, n if st.facts.entails(self.in_range(n, dty)) else P(mk('wrap', n, dty[1])))]
            else:
                f = lt(v, x) if name == 'fetch_max' else lt(x, v)
                new = self.fork(st, f, x, v)
            for s, n in new:
                s.event('astore', r, p, n, span)
                self.wr(s, r, p, n, fr, span)
                out.append((s, v))
            return out
        return None

    def b_NonZero(self, fr, st, name, args, span, dty, fref):
        if name == 'get':
            return self.one(st, self.val(st, args[0]))
        if name == 'new':
            return self.fork(st, ne(as_poly(args[0]), 0), some(args[0]), NONE)
        return None

    def b_RangeInclusive(self, fr, st, name, args, span, dty, fref):
        if name == 'new':
            return self.one(st, AGG(R_ + 'RangeInclusive', 0, as_poly(args[0]), as_poly(args[1]) + 1))
        if name in ('start', 'end'):
            v = self.val(st, args[0])
            x = as_poly(v.args[2]) if name == 'start' else as_poly(v.args[3]) - 1
            return self.one(st, self.tmpref(st, x))
        if name == 'contains':
            return self.trait_range_contains(st, args)
        if name == 'is_empty':
            v = self.val(st, args[0])
            return self.one(st, le(as_poly(v.args[3]), as_poly(v.args[2])))
        return None

    def b_Range(self, fr, st, name, args, span, dty, fref):
        if name == 'contains':
            return self.trait_range_contains(st, args)
        if name == 'is_empty':
            v = self.val(st, args[0])
            return self.one(st, le(as_poly(v.args[3]), as_poly(v.args[2])))
        return None

    b_RangeFrom = b_RangeTo = b_RangeToInclusive = b_Range

    def trait_range_contains(self, st, args):
        r = self.val(st, args[0])
        b = self.range_bounds(r, None)
        x = as_poly(self.val(st, args[1]))
        c = []
        if b is None:
            return None
        if b[0] is not None:
            c.append(le(b[0], x))
        if b[1] is not None:
            c.append(lt(x, b[1]))
        return self.one(st, b_and(*c))

    def b_Option(self, fr, st, name, args, span, dty, fref):
        if name == 'unwrap_unchecked':
            v = args[0]
            if isinstance(v, T) and v.op == 'agg':
                ok = B(v.args[1] == 1)
            else:
                ok = eq(self.discr(v, st), 1)
            good = st.facts.entails(ok)
            st.event('unsafe', 'unwrap', good, ok, span)
            if not self.quiet:
                self.hooks.on_unsafe(self, 'unwrap', good, ok, span, fr, st)
            if ok is FALSE:
                return []
            st = st.copy().assume(ok)
            return self.one(st, self.typed(self.proj(self.proj(v, ('v', 1), st), ('f', 0), st), dty))
        return None

    def b_BinaryHeap(self, fr, st, name, args, span, dty, fref):
        if name in ('new', 'with_capacity'):
            return self.one(st, mk('hempty'))
        if name in ('into_sorted_vec', 'into_vec'):
            return self.one(st, mk('app', 'heap.' + name, '?', args[0]))
        r, p = self.deref(args[0])
        h = self.rd(st, r, p)
        hl = lambda x: self.hlen(x)
        if name == 'push':
            st.event('hpush', (r, p), args[1], span)
            self.wr(st, r, p, mk('hpush', h, args[1]), fr, span)
            return self.one(st)
        if name == 'pop':
            def go(s):
                if h.op == 'hpush' and h.args[0].op == 'hempty':
                    v = h.args[1]
                    new = mk('hempty')
                else:
                    v, new = mk('hmax', h), mk('hrest', h)
                s.event('hpop', (r, p), v, span)
                self.wr(s, r, p, new, fr, span)
                return some(v)
            return self.fork(st, ge(hl(h), 1), go, NONE)
        if name == 'peek':
            def pk(s):
                v = h.args[1] if h.op == 'hpush' and h.args[0].op == 'hempty' else mk('hmax', h)
                return some(self.tmpref(s, v))
            return self.fork(st, ge(hl(h), 1), pk, NONE)
        if name == 'len':
            return self.one(st, hl(h))
        if name == 'is_empty':
            return self.one(st, eq(hl(h), 0))
        if name == 'clear':
            self.wr(st, r, p, mk('hempty'), fr, span)
            return self.one(st)
        if name == 'append':
            r2, p2 = self.deref(args[1])
            h2 = self.rd(st, r2, p2)
            self.wr(st, r, p, mk('hjoin', h, h2), fr, span)
            self.wr(st, r2, p2, mk('hempty'), fr, span)
            return self.one(st)
        return None

    def hlen(self, h):
        if h.op == 'hempty':
            return ZERO
        if h.op == 'hpush':
            return self.hlen(h.args[0]) + 1
        if h.op == 'hrest':
            return self.hlen(h.args[0]) - 1
        if h.op == 'hjoin':
            return self.hlen(h.args[0]) + self.hlen(h.args[1])
        return P(mk('len', h))

    def b_str(self, fr, st, name, args, span, dty, fref):
        v = self.val(st, args[0])
        if name in ('split_whitespace', 'split_ascii_whitespace', 'bytes', 'chars', 'as_bytes', 'trim', 'lines', 'trim_end', 'trim_start'):
            if name in ('split_whitespace', 'split_ascii_whitespace', 'bytes', 'chars', 'lines'):
                return self.one(st, AGG('OpIter', 0, mk('app', 'str::' + name, '?', v), ZERO))
            return self.one(st, mk('app', 'str::' + name, '?', v))
        if name == 'parse':
            t = ty_str(fref.args[0]) if fref.args else '?'
            st.event('parse', t, v, span)
            if t in ('alloc::string::String', 'String'):
                return self.one(st, AGG('core::result::Result', 0, v))
            return self.one(st, mk('app', 'parse', t, v))
        if name in ('len',):
            return self.one(st, P(mk('len', v)))
        if name == 'is_empty':
            return self.one(st, eq(P(mk('len', v)), 0))
        if name in ('split', 'split_terminator', 'splitn', 'rsplit', 'char_indices', 'split_inclusive'):
            return self.one(st, AGG('OpIter', 0, mk('app', 'str::' + name, '?', v, *[self._pure(st, a) for a in args[1:]]), ZERO))
        if name in ('as_str', 'to_string', 'to_owned', 'into_string'):
            return self.one(st, v)
        return None

    b_String = b_str

    def b_hint(self, fr, st, name, args, span, dty, fref):
        if name in ('black_box',):
            return self.one(st, args[0])
        if name == 'must_use':
            return self.one(st, args[0])
        if name == 'unreachable_unchecked':
            if not self.quiet:
                self.hooks.on_unsafe(self, 'unreachable', False, FALSE, span, fr, st)
            return []
        if name == 'assert_unchecked':
            c = args[0]
            good = st.facts.entails(c)
            st.event('unsafe', 'assert', good, c, span)
            if not self.quiet:
                self.hooks.on_unsafe(self, 'assert', good, c, span, fr, st)
            return self.one(st.copy().assume(c))
        return None

    b_convert = b_hint

    def b_intrinsics(self, fr, st, name, args, span, dty, fref):
        if name in ('discriminant_value',):
            return self.one(st, self.discr(self.val(st, args[0]), st))
        return None

    def b_ptr(self, fr, st, name, args, span, dty, fref):
        if name in ('read',):
            return self.one(st, self.ld(st, args[0]))
        if name == 'eq':
            return self.one(st, self.val_eq(args[0], args[1], st))
        return None

    def b_cmp(self, fr, st, name, args, span, dty, fref):
        return None

    def b_bool(self, fr, st, name, args, span, dty, fref):
        return None
