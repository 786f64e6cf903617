"""Abstract interpreter over the dumped MIR.

Values are terms (term.py).  Memory maps roots to values; a reference is ('ref', root, path).
Paths are partitioned by the branch conditions; loops are summarised by havocking the cells
they modify and by inferring inductive linear facts about them (or, in 'peel' mode, unrolled a
few times to confirm a suspected violation)."""
import sys
from term import *
from lin import *
import lin
from crate import *

sys.setrecursionlimit(20000)

TY = {}      # atom -> machine integer type name


def _tyrange(a):
    t = TY.get(a)
    if t:
        return INT_RANGE.get(t, (None, None))
    return None


_old_range = lin.atom_range


def _range(a):
    r = _tyrange(a)
    return r if r is not None else _old_range(a)


lin.atom_range = _range


class Split(Exception):
    def __init__(self, f):
        self.f = f


class Unknown(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ arrays
def arr_len(a):
    o = a.op
    if o == 'rep':
        return a.args[1]
    if o == 'store':
        return arr_len(a.args[0])
    if o == 'push':
        return arr_len(a.args[0]) + 1
    if o == 'popb':
        return arr_len(a.args[0]) - 1
    if o == 'popf':
        return arr_len(a.args[0]) - 1
    if o == 'comp':
        return a.args[1]
    if o == 'slice':
        return a.args[2] - a.args[1]
    if o == 'splice':
        return arr_len(a.args[0])
    if o == 'cat':
        return arr_len(a.args[0]) + arr_len(a.args[1])
    if o == 'arr':
        return P(len(a.args))
    if o == 'carr':
        return a.args[1]
    if o in ('samelen', 'fillr'):
        return arr_len(a.args[0])
    return P(mk('len', a))


HOLE = mk('hole')
LEN_OPS = {'rep', 'store', 'push', 'popb', 'popf', 'comp', 'slice', 'splice', 'cat', 'arr', 'carr', 'samelen', 'fillr'}


def _mk_len(a):
    return arr_len(a) if isinstance(a, T) and a.op in LEN_OPS else mk('len', a)


def _mk_sel(a, i):
    if isinstance(a, T):
        if a.op == 'rep':
            return a.args[0]
        if a.op == 'comp':
            return subst(a.args[0], {HOLE: i})
    return mk('sel', a, i)


import term as _term
_term.REBUILD['len'] = _mk_len
_term.REBUILD['sel'] = _mk_sel


def as_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, T):
        if v is TRUE:
            return ONE
        if v is FALSE:
            return ZERO
        return P(v)
    raise Unknown('not an integer: %r' % (v,))


class State:
    __slots__ = ('mem', 'facts', 'unk', 'ev', 'gh')

    def __init__(self):
        self.mem = {}
        self.facts = EMPTY
        self.unk = ()
        self.ev = None
        self.gh = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts, s.unk, s.ev = self.facts, self.unk, self.ev
        s.gh = dict(self.gh)
        return s

    def assume(self, *fs):
        self.facts = self.facts.add(*fs)
        return self

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self, stop=None):
        out = []
        e = self.ev
        while e is not None and e is not stop:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def unknown(self, why):
        if why not in self.unk:
            self.unk = self.unk + (why,)


def AGG(name, variant, *vals):
    return mk('agg', name, variant, *vals)


UNIT = AGG('tuple', 0)
OPT = 'core::option::Option'
NONE = AGG(OPT, 0)


def some(v):
    return AGG(OPT, 1, v)


def ref(root, path=()):
    return mk('ref', root, path)


def is_ref(v):
    return isinstance(v, T) and v.op == 'ref'


class Frame:
    __slots__ = ('fn', 'body', 'env', 'fid', 'stack', 'span', 'parent')


class Hooks:
    """property plugins override these"""
    def on_call(self, I, key, callee, args, st, fr, span):
        return None

    def on_write(self, I, st, root, path, new, old, fr, span):
        pass

    def on_recursion(self, I, fn, args, st, fr, span):
        return None

    def reshape(self, I, info, init, end):
        return []

    def candidates(self, I, info, st):
        return []

    def phi_values(self, I, info, st):
        return []

    def on_loop(self, I, info):
        pass

    def on_panic(self, I, kind, span, fr, st, extra):
        pass

    def on_unsafe(self, I, kind, good, cond, span, fr, st):
        pass


class LoopInfo:
    pass


class Interp:
    def __init__(self, crates, hooks=None, mode='inv', peel=3, overflow='assume'):
        self.crates = crates
        self.fns = {}
        for c in crates:
            self.fns.update(c.fns)
        self.hooks = hooks or Hooks()
        self.mode, self.peel = mode, peel
        self.quiet = 0
        self.panics = []
        self._cloenv = {}
        self.nframe = 0
        self.nloop = 0
        self.bodies = {}
        self.maxstates = 3000
        self.steps = 0
        self.maxsteps = 400000
        self.cut = 0
        self.impl_index = {}
        for c in crates:
            for im in c.impls:
                self.impl_index.setdefault(im['trait'], []).append((c, im))
        self.notes = {}
        self.visited = set()
        self.opaque_ok = set()
        self.loops_done = []
        self.loop_cache = {}
        self.spec_fn = {}     # path -> python model (contract)

    # -------------------------------------------------------------- types
    def norm_ty(self, t, env):
        t = ty_subst(t, env) if env else t
        return self._norm(t)

    def _norm(self, t):
        k = t[0]
        if k == 'alias' and t[2]:
            args = tuple(self._norm(a) if isinstance(a, tuple) else a for a in t[2])
            tr, _, item = (t[1] or '').rpartition('::')
            r = self.find_impl(tr, args)
            if r:
                c, im, b = r
                it = im['items'].get(item)
                if it and 'ty' in it:
                    return self._norm(ty_subst(c.ty(it['ty']), b))
            return ('alias', t[1], args)
        if k == 'adt':
            return (k, t[1], tuple(self._norm(a) if isinstance(a, tuple) else a for a in t[2]))
        if k in ('ref', 'ptr'):
            return (k, self._norm(t[1]), t[2])
        return t

    def find_impl(self, trait, args, bounds_ok=True):
        """the crate impl of trait for the given (concrete) args"""
        found = None
        for c, im in self.impl_index.get(trait, ()):
            b = {}
            if len(im['args']) != len(args):
                continue
            if not all(ty_match(p, a, b) for p, a in zip(im['args'], args)):
                continue
            if not self._bounds_hold(im, b):
                continue
            # more specific first (fewer binds)
            if found is None or len(b) < len(found[2]):
                found = (c, im, b)
        return found

    def _bounds_hold(self, im, b):
        for t, tr in im['bounds']:
            if tr.startswith('core::marker') or tr.startswith('core::ops::function'):
                continue
            t2 = ty_subst(t, b)
            if t2[0] in ('param', 'alias'):
                continue
            if t2[0] in ('int', 'char', 'bool') and not tr.startswith('rust_cp'):
                continue
            if self.impl_index.get(tr) is not None:
                if not self.find_impl(tr, (t2,)) and t2 != ('int', 'int'):
                    return False
        return True

    # -------------------------------------------------------------- values
    def typed(self, v, ty):
        k = ty[0]
        if k == 'int' or k == 'char':
            if isinstance(v, T):
                if v.op in ('true', 'false'):
                    return as_poly(v)
                n = ty[1] if k == 'int' else 'char'
                if v not in TY and n != 'int':
                    TY[v] = n
                return P(v)
            if isinstance(v, Poly):
                a = v.atom()
                if a is not None and a not in TY and a.op in ('phi', 'sel', 'fld', 'app', 'hmax', 'item') and k == 'int' and ty[1] != 'int':
                    TY[a] = ty[1]
            return v
        if k == 'bool' and isinstance(v, T) and not is_bool(v):
            return mk('bterm', 'val', v)
        return v

    def proj(self, v, e, st):
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, T):
                o = v.op
                if o == 'agg':
                    if i + 2 < len(v.args):
                        return v.args[i + 2]
                    raise Unknown('field %d of %r' % (i, v))
                if o == 'dcv':
                    return self._getfld(v.args[0], (v.args[1], i))
                return self._getfld(v, (0, i))
            raise Unknown('field of integer')
        if k == 'v':
            if v.op == 'agg':
                if v.args[1] != e[1]:
                    raise Infeasible()
                return v
            return mk('dcv', v, e[1])
        if k == 'i':
            return self.sel(v, e[1], st)
        if k == 's':
            return mk('slice', v, e[1], e[2])
        raise Unknown('projection %r' % (e,))

    def _getfld(self, v, key):
        while v.op == 'upd':
            for k2, x in v.args[1]:
                if k2 == key:
                    return x
            v = v.args[0]
        return mk('fld', v, key)

    def sel(self, a, i, st):
        o = a.op
        F = st.facts
        if o == 'store':
            b, j, v = a.args
            d = F.simp(i - j)
            c = d.const()
            if c == 0:
                return v
            if c is not None:
                return self.sel(b, i, st)
            f = eq0(d)
            if F.entails(f):
                return v
            if F.entails(b_not(f)):
                return self.sel(b, i, st)
            raise Split(eq(i, j))
        if o == 'push':
            b, v = a.args
            n = arr_len(b)
            f = eq(i, n)
            if F.entails(f):
                return v
            if F.entails(b_not(f)):
                return self.sel(b, i, st)
            raise Split(f)
        if o == 'rep':
            return a.args[0]
        if o == 'popb':
            return self.sel(a.args[0], i, st)
        if o == 'popf':
            return self.sel(a.args[0], i + 1, st)
        if o == 'comp':
            return subst(a.args[0], {HOLE: i})
        if o == 'slice':
            return self.sel(a.args[0], a.args[1] + i, st)
        if o == 'cat':
            n = arr_len(a.args[0])
            f = lt(i, n)
            if F.entails(f):
                return self.sel(a.args[0], i, st)
            if F.entails(b_not(f)):
                return self.sel(a.args[1], i - n, st)
            raise Split(f)
        if o == 'splice':
            b, lo, hi, src = a.args
            f = b_and(le(lo, i), lt(i, hi))
            if F.entails(f):
                return self.sel(src, i - lo, st)
            if F.entails(lt(i, lo)) or F.entails(le(hi, i)):
                return self.sel(b, i, st)
            if F.entails(le(lo, i)):
                raise Split(lt(i, hi))
            raise Split(le(lo, i))
        if o == 'fillr':
            b, lo, hi, body = a.args
            f = b_and(le(lo, i), lt(i, hi))
            if F.entails(f):
                return subst(body, {HOLE: i})
            if F.entails(lt(i, lo)) or F.entails(le(hi, i)):
                return self.sel(b, i, st)
            if F.entails(le(lo, i)):
                raise Split(lt(i, hi))
            raise Split(le(lo, i))
        if o == 'arr':
            c = i.const()
            if c is not None and 0 <= c < len(a.args):
                return a.args[c]
            for k in range(len(a.args)):
                if F.entails(eq(i, k)):
                    return a.args[k]
            for k in range(len(a.args)):
                if not F.entails(ne(i, k)):
                    raise Split(eq(i, k))
            raise Infeasible()
        if o == 'agg':
            raise Unknown('indexing %r' % (a,))
        return mk('sel', a, F.simp(i) if False else i)

    def upd(self, v, path, val, st):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k == 'v':
            if v.op == 'agg':
                if v.args[1] != e[1]:
                    raise Infeasible()
                return self.upd(v, rest, val, st)
            # symbolic enum: key (variant, field)
            f = rest[0]
            key = (e[1], f[1])
            old = self._getfld(v, key)
            return self._setfld(v, key, self.upd(old, rest[1:], val, st))
        if k == 'f':
            if v.op == 'agg':
                a = list(v.args)
                a[e[1] + 2] = self.upd(a[e[1] + 2], rest, val, st)
                return mk('agg', *a)
            key = (0, e[1])
            old = self._getfld(v, key)
            return self._setfld(v, key, self.upd(old, rest, val, st))
        if k == 'i':
            idx = e[1]
            if rest:
                new = self.upd(self.sel(v, idx, st), rest, val, st)
            else:
                new = val
            return self.store(v, idx, new, st)
        if k == 's':
            lo, hi = e[1], e[2]
            if rest:
                sub = mk('slice', v, lo, hi)
                new = self.upd(sub, rest, val, st)
            else:
                new = val
            return mk('splice', v, lo, hi, new)
        raise Unknown('write projection %r' % (e,))

    def _setfld(self, v, key, x):
        if v.op == 'upd':
            base, kv = v.args
            d = dict(kv)
        else:
            base, d = v, {}
        if x is self._getfld(base, key):
            d.pop(key, None)
        else:
            d[key] = x
        if not d:
            return base
        return mk('upd', base, tuple(sorted(d.items(), key=lambda t: t[0])))

    def store(self, a, i, v, st):
        if a.op == 'store':
            b, j, w = a.args
            if st.facts.simp(i - j).const() == 0:
                return mk('store', b, i, v)
        if a.op == 'fillr':
            b, lo, hi, body = a.args
            if st.facts.simp(i - hi).const() == 0 and self.elem_eq(subst(body, {HOLE: i}), v, st):
                return mk('fillr', b, lo, hi + 1, body)
            if st.facts.simp(i - lo).const() == -1 and self.elem_eq(subst(body, {HOLE: i}), v, st):
                return mk('fillr', b, lo - 1, hi, body)
        if a.op == 'arr':
            c = i.const()
            if c is not None and 0 <= c < len(a.args):
                l = list(a.args)
                l[c] = v
                return mk('arr', *l)
        return mk('store', a, i, v)

    def elem_eq(self, a, b, st):
        if a is b:
            return True
        if isinstance(a, Poly) or isinstance(b, Poly):
            try:
                return st.facts.entails(eq(as_poly(a), as_poly(b)))
            except Unknown:
                return False
        r = self.hooks.elem_eq(self, a, b, st) if hasattr(self.hooks, 'elem_eq') else None
        if r is not None:
            return r
        return st.facts.simp(a) is st.facts.simp(b)

    # -------------------------------------------------------------- memory
    def getroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'sref':
                return root[1]
            if root[0] == 'l':
                raise Unknown('uninitialised local %r' % (root,))
            v = mk('sym', '%s' % (root[1],), '?')
        return v

    def rd(self, st, root, path):
        v = self.getroot(st, root)
        for e in path:
            v = self.proj(v, e, st)
        return v

    def wr(self, st, root, path, val, fr=None, span=None):
        if path:
            old = self.getroot(st, root)
            new = self.upd(old, path, val, st)
            if root[0] != 'l' or self._interesting(path):
                self.hooks.on_write(self, st, root, path, val, None, fr, span)
            st.mem[root] = new
        else:
            if root[0] != 'l':
                self.hooks.on_write(self, st, root, path, val, None, fr, span)
            st.mem[root] = val

    def _interesting(self, path):
        return any(e[0] in ('i', 's') for e in path)

    def path_add(self, st, root, path, e):
        if path and path[-1][0] == 's':
            s = path[-1]
            if e[0] == 'i':
                return path[:-1] + (('i', s[1] + e[1]),)
            if e[0] == 's':
                return path[:-1] + (('s', s[1] + e[1], s[1] + e[2]),)
        return path + (e,)

    def len_at(self, st, root, path):
        if path and path[-1][0] == 's':
            return path[-1][2] - path[-1][1]
        return arr_len(self.rd(st, root, path))

    def deref(self, v):
        """(root, path) designated by a reference value"""
        if is_ref(v):
            return v.args[0], v.args[1]
        if isinstance(v, T) and v.op == 'agg' and v.args[0] == 'box':
            raise Unknown('box deref')
        if isinstance(v, Poly):
            raise Unknown('deref of integer')
        return ('sref', v), ()

    def ld(self, st, v):
        """load through a reference"""
        r, p = self.deref(v)
        return self.rd(st, r, p)

    # -------------------------------------------------------------- places and operands
    def place(self, fr, st, p):
        root, path = ('l', fr.fid, p['l']), ()
        for e in p['p']:
            if e == '*':
                v = self.rd(st, root, path)
                if isinstance(v, T) and v.op == 'agg' and v.args[0] == 'box':
                    path = path + (('f', 0),)
                    continue
                root, path = self.deref(v)
            elif e == '?':
                raise Unknown('projection')
            elif 'f' in e:
                path = path + (('f', e['f']),)
            elif 'ix' in e:
                i = as_poly(self.rd(st, ('l', fr.fid, e['ix']), ()))
                path = self.path_add(st, root, path, ('i', i))
            elif 'dc' in e:
                path = path + (('v', e['dc']),)
            elif 'ci' in e:
                if e['fe']:
                    i = self.len_at(st, root, path) - e['ci']
                else:
                    i = P(e['ci'])
                path = self.path_add(st, root, path, ('i', i))
            elif 'sub' in e:
                n = self.len_at(st, root, path)
                hi = n - e['to'] if e['fe'] else P(e['to'])
                path = self.path_add(st, root, path, ('s', P(e['sub']), hi))
        return root, path

    def rdplace(self, fr, st, p):
        r, path = self.place(fr, st, p)
        return self.typed(self.rd(st, r, path), self.norm_ty(fr.fn.cr.ty(p['t']), fr.env))

    def operand(self, fr, st, o):
        if 'copy' in o:
            return self.rdplace(fr, st, o['copy'])
        if 'move' in o:
            return self.rdplace(fr, st, o['move'])
        return self.const(fr, st, o)

    def const(self, fr, st, o):
        c = o['c']
        cr = fr.fn.cr
        if c == 'int':
            t = cr.ty(o['t'])
            v = int(o['v'])
            if t[0] == 'bool':
                return B(v)
            return P(v)
        if c == 'fn':
            f = o['f']
            args = tuple(self.norm_ty(cr.arg(a), fr.env) for a in f['args'])
            return mk('fnval', FnRef(f, args, cr))
        if c == 'param':
            v = fr.env.get(o['name'])
            if v and v[0] == 'const':
                return P(v[1])
            t = mk('sym', 'const ' + o['name'], cr.ty(o['t'])[1] if cr.ty(o['t'])[0] == 'int' else '?')
            return P(t) if cr.ty(o['t'])[0] == 'int' else t
        if c == 'promoted':
            own = self.fns.get(o['of']) or fr.fn
            b = own.promoted[o['i']]
            r = self.run_body(own, b, [], st, fr.env, fr, 'promoted')
            if len(r) == 1:
                s2, v = r[0]
                st.mem.update(s2.mem)
                return v
            raise Unknown('promoted')
        if c == 'uneval':
            return self.uneval(fr, st, o)
        if c == 'static':
            return ref(('static', o['path']))
        if c == 'str':
            return mk('strlit', o['v'])
        if c == 'zst':
            t = self.norm_ty(cr.ty(o['t']), fr.env)
            if t[0] == 'tuple':
                return UNIT
            if t[0] == 'closure':
                self._cloenv[t[1]] = fr.env
                return AGG('closure:' + t[1], 0)
            return mk('zst', ty_str(t))
        return mk('const', o.get('s', c))

    def uneval(self, fr, st, o):
        cr = fr.fn.cr
        path = o['path']
        args = tuple(self.norm_ty(cr.arg(a), fr.env) for a in o['args'])
        ty = self.norm_ty(cr.ty(o['t']), fr.env)
        tr, _, item = path.rpartition('::')
        r = self.find_impl(tr, args)
        if r:
            c, im, b = r
            it = im['items'].get(item)
            if it and 'v' in it:
                return P(int(it['v'])) if ty[0] == 'int' else B(int(it['v']))
        fn = self.fns.get(path)
        if fn and fn.body and (fn.kind.startswith('Const') or fn.kind.startswith('AssocConst')):
            env = dict(zip(fn.generics, args))
            rs = self.run_body(fn, fn.body, [], st, env, fr, 'const')
            if len(rs) == 1:
                st.mem.update(rs[0][0].mem)
                return rs[0][1]
        t = mk('cst', path, args)
        return self.typed(t, ty)

    # -------------------------------------------------------------- integers
    def range_of(self, ty):
        if ty[0] == 'int':
            return INT_RANGE.get(ty[1], (None, None))
        if ty[0] == 'char':
            return INT_RANGE['char']
        return (None, None)

    def in_range(self, p, ty):
        lo, hi = self.range_of(ty)
        fs = []
        if lo is not None:
            fs.append(ge(p, lo))
        if hi is not None:
            fs.append(le(p, hi))
        return b_and(*fs)

    def wrap(self, p, ty, st, split=True):
        """value of p after truncation to ty"""
        lo, hi = self.range_of(ty)
        if lo is None and hi is None:
            return p
        F = st.facts
        c = p.const()
        if hi is not None and lo is not None:
            m = hi - lo + 1
            if c is not None:
                return P((c - lo) % m + lo)
        else:
            return p
        if F.entails(self.in_range(p, ty)):
            return p
        if m > 256 and abs(p.c0()) >= m:
            # multiples of 2^width in the constant term do not matter
            k = (p.c0() - lo) // m
            for j in (k, k - 1, k + 1):
                q = p - j * m
                if F.entails(self.in_range(q, ty)):
                    return q
        if F.entails(b_and(lt(p, lo), ge(p, lo - m))):
            return p + m
        if F.entails(b_and(gt(p, hi), le(p, hi + m))):
            return p - m
        if split and F.entails(b_and(ge(p, lo - m), le(p, hi + m))):
            if not F.entails(ge(p, lo)) :
                raise Split(ge(p, lo))
            raise Split(le(p, hi))
        return P(mk('wrap', p, ty[1]))

    def binop(self, op, a, b, ty, st, rty=None):
        """a op b on machine integers of type ty; comparison ops return formulas"""
        F = st.facts
        checked = op.endswith('WithOverflow')
        if checked:
            op = op[:-len('WithOverflow')]
        unchecked = op.endswith('Unchecked')
        if unchecked:
            op = op[:-len('Unchecked')]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, T) and isinstance(b, T):
                if ty[0] == 'bool' or is_bool(a) or is_bool(b):
                    f = b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
                    if op == 'Eq':
                        return f
                    if op == 'Ne':
                        return b_not(f)
                raise Unknown('comparison of %r' % (a,))
            a, b = as_poly(a), as_poly(b)
            return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
        if ty[0] == 'bool' or is_bool(a):
            if op == 'BitAnd':
                return b_and(a, b)
            if op == 'BitOr':
                return b_or(a, b)
            if op == 'BitXor':
                return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        a, b = as_poly(a), as_poly(b)
        if op == 'Add':
            v = a + b
        elif op == 'Sub':
            v = a - b
        elif op == 'Mul':
            v = a * b
        elif op == 'Div':
            return self.div(a, b, st)
        elif op == 'Rem':
            return self.remd(a, b, st)
        elif op == 'Shl':
            lo, hi = self.range_of(ty)
            v = a * pow2(b)
            if checked:
                bits = (hi - lo + 1).bit_length() - 1 if hi is not None else 10**6
                return AGG('tuple', 0, v, b_not(b_and(ge(b, 0), lt(b, bits))))
            vc = v.const()
            if vc is not None and hi is not None:
                return self.wrap(v, ty, st)
            ac = a.const()
            if ac and ac > 0 and hi is not None and F.entails(b_and(ge(b, 0), le(b, (hi // ac).bit_length() - 1))):
                return v
            if hi is not None and not F.entails(self.in_range(v, ty)):
                st.unknown('shl-range')
            return v
        elif op == 'Shr':
            if checked:
                return AGG('tuple', 0, shr(a, b), FALSE)
            return shr(a, b)
        elif op == 'BitAnd':
            return self.bitand(a, b, ty, st)
        elif op == 'BitXor':
            return self.bitxor(a, b, ty, st)
        elif op == 'BitOr':
            return self.bitor(a, b, ty, st)
        else:
            raise Unknown('binop ' + op)
        if checked:
            return AGG('tuple', 0, v, b_not(self.in_range(v, ty)))
        if unchecked:
            return v
        return self.wrap(v, ty, st)

    def div(self, a, b, st):
        F = st.facts
        ac, bc = a.const(), b.const()
        if ac is not None and bc:
            q = abs(ac) // abs(bc)
            return P(q if (ac < 0) == (bc < 0) else -q)
        if bc == 1:
            return a
        if F.entails(ge(b, 1)):
            if F.entails(ge(a, 0)):
                return quot(a, b)
            if F.entails(le(a, 0)):
                return -quot(-a, b)
            raise Split(ge(a, 0))
        return P(mk('tdiv', a, b))

    def remd(self, a, b, st):
        F = st.facts
        ac, bc = a.const(), b.const()
        if ac is not None and bc:
            r = abs(ac) % abs(bc)
            return P(r if ac >= 0 else -r)
        if F.entails(ge(b, 1)):
            if F.entails(ge(a, 0)):
                return rem(a, b)
            if F.entails(le(a, 0)):
                return -rem(-a, b)
            if self.hooks and getattr(self.hooks, 'split_rem', True):
                raise Split(ge(a, 0))
        return P(mk('trem', a, b))

    def bitand(self, a, b, ty, st):
        F = st.facts
        ac, bc = a.const(), b.const()
        if ac is not None and bc is not None:
            return P(ac & bc)
        if ac is not None:
            a, b, ac, bc = b, a, bc, ac
        if bc is not None:
            if bc >= 0 and (bc & (bc + 1)) == 0:
                return rem(a, bc + 1)
            lo, hi = self.range_of(ty)
            # x & !1, x & !(2^k-1)
            m = None
            if bc < 0:
                m = ~bc
            elif hi is not None and lo == 0:
                m = hi - bc
            if m is not None and m >= 0 and (m & (m + 1)) == 0:
                return a - rem(a, m + 1)
            if bc > 0 and bc & (bc - 1) == 0:
                k = bc.bit_length() - 1
                h = shr(a, k)
                return (h - shr(h, 1) * 2) * bc
        lo, hi = self.range_of(ty)
        M = (hi - lo + 1) if hi is not None and lo is not None else None
        if M:
            s = (a + b)
            if F.simp(s - M).const() == 0 or s.const() == 0:
                x = a if len(a.t) <= len(b.t) else b
                # x & -x
                if F.entails(ge(a, 1)) and (s.const() == 0 or lo == 0):
                    x = a if not _has_const_big(a, M) else b
                    return lowbit(x)
                if F.entails(ge(a, 1)):
                    return lowbit(a)
                if F.entails(ge(b, 1)):
                    return lowbit(b)
                c = a if not _has_const_big(a, M) else b
                if F.entails(ge(c, 1)):
                    return lowbit(c)
        for x, y in ((a, b), (b, a)):
            if (x - y).const() == 1 and F.entails(ge(x, 1)):
                return x - lowbit(x)
            # x & (2^e - 1)
            m = y + 1
            if len(m.t) == 1 and y.c0() == -1:
                (mono, c), = m.t
                if len(mono) == 1 and mono[0].op == 'pow2' and c > 0 and c & (c - 1) == 0 and F.entails(ge(x, 0)):
                    e = mono[0].args[0] + (c.bit_length() - 1)
                    return x - shr(x, e) * pow2(e)
        r = mk('bitand', *sorted((a, b), key=lambda p: p.id))
        TY[r] = ty[1]
        return P(r)

    def bitxor(self, a, b, ty, st):
        ac, bc = a.const(), b.const()
        if ac is not None and bc is not None:
            return P(ac ^ bc)
        if ac is not None:
            a, b, ac, bc = b, a, bc, ac
        if bc == 1:
            return a + 1 - rem(a, 2) * 2
        if bc == 0:
            return a
        if a is b:
            return ZERO
        r = mk('bitxor', *sorted((a, b), key=lambda p: p.id))
        TY[r] = ty[1]
        return P(r)

    def bitor(self, a, b, ty, st):
        ac, bc = a.const(), b.const()
        if ac is not None and bc is not None:
            return P(ac | bc)
        if ac is not None:
            a, b, ac, bc = b, a, bc, ac
        if bc == 0:
            return a
        if bc is not None and bc > 0 and bc & (bc - 1) == 0:
            k = bc.bit_length() - 1
            h = shr(a, k)
            bit = h - shr(h, 1) * 2
            return a + (ONE - bit) * bc
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if (x - y).const() == 1 and st.facts.entails(ge(y, 0)):
                return y + lowbit(x)
        r = mk('bitor', *sorted((a, b), key=lambda p: p.id))
        TY[r] = ty[1]
        return P(r)

    def cast(self, v, fty, tty, kind, st):
        if tty[0] in ('int', 'char') and fty[0] in ('int', 'char', 'bool'):
            if fty[0] == 'bool':
                if v is TRUE or v is FALSE:
                    return as_poly(v)
                if st.facts.entails(v):
                    return ONE
                if st.facts.entails(b_not(v)):
                    return ZERO
                raise Split(v)
            return self.wrap(as_poly(v), tty, st)
        return v

    # -------------------------------------------------------------- rvalues
    def opty(self, fr, o):
        cr = fr.fn.cr
        if 'copy' in o:
            t = o['copy']['t']
        elif 'move' in o:
            t = o['move']['t']
        else:
            t = o.get('t')
        return self.norm_ty(cr.ty(t), fr.env)

    def rvalue(self, fr, st, r, dty):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'ref' or k == 'rawptr':
            root, path = self.place(fr, st, r['place'])
            return ref(root, path)
        if k == 'bin':
            a, b = self.operand(fr, st, r['a']), self.operand(fr, st, r['b'])
            ty = self.opty(fr, r['a'])
            return self.binop(r['op'], a, b, ty, st)
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            if r['op'] == 'Not':
                ty = self.opty(fr, r['a'])
                if ty[0] == 'bool':
                    return b_not(a)
                lo, hi = self.range_of(ty)
                return P(hi) - as_poly(a) if lo == 0 else -as_poly(a) - 1
            if r['op'] == 'Neg':
                return -as_poly(a)
            if r['op'] == 'PtrMetadata':
                root, path = self.deref(a)
                return self.len_at(st, root, path)
            raise Unknown('unop ' + r['op'])
        if k == 'cast':
            v = self.operand(fr, st, r['o'])
            return self.cast(v, self.opty(fr, r['o']), self.norm_ty(fr.fn.cr.ty(r['t']), fr.env), r['kind'], st)
        if k == 'discr':
            root, path = self.place(fr, st, r['place'])
            v = self.rd(st, root, path)
            return self.discr(v, st, self.norm_ty(fr.fn.cr.ty(r['place']['t']), fr.env))
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            n = fr.fn.cr.arg({'const': r['n']})
            n = ty_subst(n, fr.env)
            if n[0] == 'const':
                n = P(n[1])
            elif n[0] == 'cparam':
                n = P(mk('sym', 'const ' + n[1], 'usize'))
            else:
                raise Unknown('repeat count')
            return mk('rep', v, n)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            kk = r['kind']
            if kk['a'] == 'array':
                return mk('arr', *ops)
            if kk['a'] == 'tuple':
                return AGG('tuple', 0, *ops)
            if kk['a'] == 'adt':
                return AGG(kk['path'], kk['v'], *ops)
            if kk['a'] == 'closure':
                self._cloenv[kk['path']] = fr.env
                return AGG('closure:' + kk['path'], 0, *ops)
        if k == 'tls':
            return ref(('static', r['path']))
        raise Unknown('rvalue %s %s' % (k, r.get('s', '')))

    def discr(self, v, st, ty=None):
        if isinstance(v, T) and v.op == 'agg':
            a = None
            for c in self.crates:
                a = c.adts.get(v.args[0])
                if a:
                    break
            if a and a['enum']:
                return P(int(a['variants'][v.args[1]]['discr']))
            return P(v.args[1])
        if isinstance(v, T) and v.op == 'upd':
            v = v.args[0]
        if isinstance(v, Poly):
            raise Unknown('discriminant of integer')
        d = mk('discr', v)
        nv = None
        if ty and ty[0] == 'adt':
            for c in self.crates:
                a = c.adts.get(ty[1])
                if a:
                    nv = len(a['variants'])
                    if ty[1] == 'core::cmp::Ordering':
                        st.assume(ge(P(d), -1), le(P(d), 1))
                        return P(d)
                    break
        if nv:
            st.assume(ge(P(d), 0), le(P(d), nv - 1))
        return P(d)

    # -------------------------------------------------------------- running
    def bodyof(self, b):
        k = id(b)
        r = self.bodies.get(k)
        if r is None:
            r = self.bodies[k] = Body(b)
        return r

    def run_fn(self, fn, args, st, env, fr=None, span=None):
        return self.run_body(fn, fn.body, args, st, env, fr, span)

    def run_body(self, fn, body, args, st, env, parent, span):
        fr = Frame()
        fr.fn, fr.body, fr.env = fn, self.bodyof(body), env
        self.nframe += 1
        fr.fid = self.nframe
        fr.parent, fr.span = parent, span
        fr.stack = (parent.stack if parent else ()) + ((fn.path, span),)
        if len(fr.stack) > 60:
            raise Unknown('call depth')
        self.visited.add(fn.path)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('l', fr.fid, i + 1)] = a
        out = []
        for kind, x, s in self.region(fr, 0, st, None, None):
            if kind != 'ret':
                raise Unknown('region escaped')
            if body['locals'][0] is not None and ('l', fr.fid, 0) in s.mem:
                v = s.mem[('l', fr.fid, 0)]
            else:
                v = UNIT
            # drop the frame (keep promoted temporaries alive)
            if span not in ('promoted', 'const'):
                keep = self._escaping(v, fr.fid, s)
                for r in [r for r in s.mem if r[0] == 'l' and r[1] == fr.fid]:
                    if r not in keep:
                        del s.mem[r]
            out.append((s, v))
        return out

    def _escaping(self, v, fid, s):
        keep = set()
        todo = [v]
        while todo:
            x = todo.pop()
            for t in atoms_deep(x):
                if t.op == 'ref':
                    r = t.args[0]
                    if r[0] == 'l' and r[1] == fid and r not in keep:
                        keep.add(r)
                        if r in s.mem:
                            todo.append(s.mem[r])
        return keep

    def region(self, fr, start, st, header, blocks):
        """execute from block start; returns list of (kind, block, state) with kind in
        ret (returned), back (reached header), exit (left blocks)"""
        out = []
        work = [(start, 0, st, True)]
        loops = fr.body.loops()
        nst = 0
        while work:
            b, i, s, first = work.pop()
            nst += 1
            self.steps += 1
            if nst > self.maxstates or self.steps > self.maxsteps:
                raise Unknown('path budget')
            try:
                if not first:
                    if header is not None and b == header and i == 0:
                        out.append(('back', b, s))
                        continue
                    if blocks is not None and b not in blocks:
                        out.append(('exit', b, s))
                        continue
                if i == 0 and b in loops and not (b == header and first):
                    for kind, x, s2 in self.loop(fr, b, s):
                        if kind == 'ret':
                            out.append((kind, x, s2))
                        else:
                            work.append((x, 0, s2, False))
                    continue
                res = self.block(fr, b, i, s)
            except Split as e:
                raise RuntimeError('stray split')
            for r in res:
                if r[0] == 'go':
                    work.append((r[1], r[2], r[3], False))
                elif r[0] == 'res':
                    work.append((r[1], r[2], r[3], True))
                elif r[0] == 'ret':
                    out.append(('ret', None, r[1]))
        return out

    def block(self, fr, b, i, st):
        """run one block from statement i; returns [('go', block, stmt, state) | ('ret', state)]"""
        blk = fr.body.b['blocks'][b]
        stmts = blk['s']
        n = len(stmts)
        while i < n:
            s = stmts[i]
            try:
                if s['s'] == '=':
                    dty = None
                    v = self.rvalue(fr, st, s['r'], dty)
                    root, path = self.place(fr, st, s['d'])
                    self.wr(st, root, path, v, fr, s['sp'])
                elif s['s'] == 'sd':
                    raise Unknown('set discriminant')
                elif s['s'] == 'intrinsic':
                    pass
            except Split as e:
                return self.split(fr, b, i, st, e.f)
            except Infeasible:
                return []
            i += 1
        try:
            return self.term(fr, b, blk['t'], st)
        except Split as e:
            return self.split(fr, b, n, st, e.f)
        except Infeasible:
            return []

    def split(self, fr, b, i, st, f):
        out = []
        for g in (f, b_not(f)):
            s = st.copy().assume(g)
            if not s.facts.contradictory():
                out.append(('res', b, i, s))
        if len(out) == 2 and out[0][3].facts is st.facts and out[1][3].facts is st.facts:
            raise Unknown('split loop')
        return out

    def panic(self, kind, span, fr, st, extra=None):
        if not self.quiet:
            self.panics.append((kind, span, fr.fn.path, st, fr.stack, extra))
        self.hooks.on_panic(self, kind, span, fr, st, extra)

    def term(self, fr, b, t, st):
        k = t['k']
        if k in ('goto', 'drop'):
            return [('go', t['t'], 0, st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            v = self.operand(fr, st, t['o'])
            ty = self.opty(fr, t['o'])
            out = []
            if ty[0] == 'bool' or (isinstance(v, T) and is_bool(v)):
                f = v
                z = None
                for val, tgt in t['t']:
                    if int(val) == 0:
                        z = tgt
                    else:
                        pass
                tt = t['else']
                for val, tgt in t['t']:
                    if int(val) == 1:
                        tt = tgt
                alts = [(f, tt), (b_not(f), z if z is not None else t['else'])]
            else:
                p = as_poly(v)
                alts = []
                neg = []
                for val, tgt in t['t']:
                    alts.append((eq(p, int(val)), tgt))
                    neg.append(ne(p, int(val)))
                alts.append((b_and(*neg), t['else']))
            for f, tgt in alts:
                if f is FALSE:
                    continue
                if f is TRUE:
                    return out + [('go', tgt, 0, st)]
                s2 = st.copy().assume(f)
                if self._isor(f) and st.facts.entails(f) is False and self.disj_split(f):
                    for g in f.args:
                        s3 = st.copy().assume(g)
                        if not s3.facts.contradictory():
                            out.append(('go', tgt, 0, s3))
                    continue
                if not s2.facts.contradictory():
                    out.append(('go', tgt, 0, s2))
            return out
        if k == 'assert':
            c = self.operand(fr, st, t['c'])
            if not t['e']:
                c = b_not(c)
            if c is not TRUE and not st.facts.entails(c):
                bad = st.copy().assume(b_not(c))
                if not bad.facts.contradictory():
                    ops = [self.operand(fr, st, o) for o in t['ops']]
                    self.panic(t['msg'], t['sp'], fr, bad, (c, ops))
                st = st.copy().assume(c)
                if st.facts.contradictory():
                    return []
            return [('go', t['t'], 0, st)]
        if k == 'call':
            return self.call(fr, b, t, st)
        if k in ('unreachable', 'resume'):
            return []
        raise Unknown('terminator ' + k)

    def _isor(self, f):
        return f.op == 'or'

    def disj_split(self, f):
        return True

    # -------------------------------------------------------------- calls
    def call(self, fr, b, t, st):
        st = st.copy()
        args = [self.operand(fr, st, a) for a in t['a']]
        fo = t['f']
        dty = self.norm_ty(fr.fn.cr.ty(t['d']['t']), fr.env)
        if fo.get('c') == 'fn':
            f = fo['f']
            targs = tuple(self.norm_ty(fr.fn.cr.arg(a), fr.env) for a in f['args'])
            res = self.invoke(fr, st, FnRef(f, targs, fr.fn.cr), args, t['sp'], dty)
        else:
            v = self.operand(fr, st, fo)
            res = self.call_value(fr, st, v, args, t['sp'], dty)
        out = []
        if t['t'] is None:
            return []
        for s2, v in res:
            s2 = s2.copy() if s2 is st else s2
            v = self.typed(v, dty)
            root, path = self.place(fr, s2, t['d'])
            self.wr(s2, root, path, v, fr, t['sp'])
            out.append(('go', t['t'], 0, s2))
        return out

    def call_value(self, fr, st, v, args, span, dty):
        """call a closure / function value with a flat argument list"""
        if is_ref(v):
            inner = self.ld(st, v)
            if isinstance(inner, T) and (inner.op in ('fnval', 'ref') or (inner.op == 'agg' and str(inner.args[0]).startswith('closure:'))):
                if inner.op == 'agg':
                    fn = self.fns[inner.args[0][8:]]
                    return self.run_closure(fr, st, fn, v, inner, args, span)
                return self.call_value(fr, st, inner, args, span, dty)
            v = inner
        if isinstance(v, T) and v.op == 'fnval':
            return self.invoke(fr, st, v.args[0], args, span, dty)
        if isinstance(v, T) and v.op == 'agg' and str(v.args[0]).startswith('closure:'):
            fn = self.fns[v.args[0][8:]]
            return self.run_closure(fr, st, fn, None, v, args, span)
        # user supplied function: uninterpreted, a function of its arguments
        r = self.hooks.on_call(self, 'callfn', v, args, st, fr, span)
        if r is not None:
            return r
        vals = tuple(self._pure(st, a) for a in args)
        st.event('callfn', v, vals, span)
        return [(st, mk('app', 'call', v, *vals))]

    def run_closure(self, fr, st, fn, selfref, clo, args, span):
        t1 = fn.cr.ty(fn.body['locals'][1]['t'])
        # type parameters of a closure are those of the function it was written in
        env = self._cloenv.get(clo.args[0][8:], fr.env)
        if t1[0] == 'ref':
            if selfref is None:
                self.nframe += 1
                root = ('l', self.nframe, 'clo')
                st.mem[root] = clo
                selfref = ref(root)
            a0 = selfref
        else:
            a0 = clo
        return self.run_fn(fn, [a0] + list(args), st, env, fr, span)

    def _pure(self, st, v):
        """by-value view of an argument (references are looked through)"""
        n = 0
        while is_ref(v) and n < 4:
            v = self.ld(st, v)
            n += 1
        return v

    def key(self, f, targs, cr):
        """stable name of a callee"""
        if f.get('trait'):
            return f['trait'].split('::')[-1] + '::' + f['name']
        if 'impl_self' in f:
            t = cr.ty(f['impl_self'])
            return head(t) + '::' + f['name']
        p = f['path'].split('::')
        return '::'.join(p[-2:])

    def invoke(self, fr, st, fref, args, span, dty):
        f, targs, cr = fref.f, fref.args, fref.cr
        key = self.key(f, targs, cr)
        r = self.hooks.on_call(self, key, fref, args, st, fr, span)
        if r is not None:
            return r
        if key == 'Iterator::skip' and len(args) == 2 and isinstance(args[1], Poly):
            r = self.skipped(st, args[0], args[1], False)
            if r is not None:
                return r
        # fully resolved local function
        m = self.spec_fn.get(f['path'])
        if m:
            r = m(self, fr, st, args, span, dty)
            if r is not None:
                return r
        if f.get('trait'):
            r = self.invoke_trait(fr, st, fref, key, args, span, dty)
            if r is not None:
                return r
        fn = self.fns.get(f['path'])
        if fn is not None and fn.body and not f.get('trait') and key != 'sa_prelude::sa_read':
            return self.inline(fr, st, fn, args, dict(zip(fn.generics, targs)), span, dty)
        r = self.builtin(fr, st, key, fref, args, span, dty)
        if r is not None:
            return r
        fn = self.prelude_fn(key)
        if fn is not None:
            return self.inline(fr, st, fn, args, dict(zip(fn.generics, targs)), span, dty)
        return self.opaque(fr, st, key, fref, args, span, dty)

    def skipped(self, st, it, n, back):
        """an iterator over a list or a range after n steps, taken at once; None when steps may do something else"""
        if not (isinstance(it, T) and it.op == 'agg' and isinstance(it.args[0], str)):
            return None
        nm = it.args[0].split('::')[-1]
        xs = list(it.args[2:])
        if nm in ('Enumerate', 'Rev', 'Copied'):
            if nm == 'Enumerate' and back:
                return None
            r = self.skipped(st, xs[0], n, back ^ (nm == 'Rev'))
            if r is None:
                return None
            return [(s, AGG(it.args[0], 0, x, *([P(xs[1]) + n] if nm == 'Enumerate' else xs[1:]))) for s, x in r]
        if nm in ('SliceIter', 'SliceIterMut', 'VecIntoIter'):
            lo, hi = 1, 2
        elif nm == 'Range' and all(isinstance(x, Poly) for x in xs):
            lo, hi = 0, 1
        else:
            return None
        a, b = P(xs[lo]), P(xs[hi])
        out = []
        for far in (False, True):
            s = st.copy()
            s.assume(lt(b - a, n) if far else ge(b - a, n))
            if s.facts.contradictory():
                continue
            ys = list(xs)
            if back:
                ys[hi] = a if far else b - n
            else:
                ys[lo] = b if far else a + n
            out.append((s, AGG(it.args[0], 0, *ys)))
        return out

    def prelude_fn(self, key):
        return self.fns.get('sa_prelude::' + key)

    def inline(self, fr, st, fn, args, env, span, dty):
        m = self.spec_fn.get(fn.path)
        if m:
            r = m(self, fr, st, args, span, dty)
            if r is not None:
                return r
        # (an adapter of the standard library may be at work inside a closure given to itself)
        if sum(1 for p, _ in fr.stack if p == fn.path) > (3 if fn.path.startswith('sa_prelude::') else 0):
            r = self.hooks.on_recursion(self, fn, args, st, fr, span)
            if r is not None:
                return r
            st.event('rec', fn.path, tuple(args), span)
            return self.havoc_call(fr, st, 'rec:' + fn.path, args, dty, span)
        return self.run_fn(fn, args, st, env, fr, span)

    def havoc_call(self, fr, st, name, args, dty, span, fnr=None):
        """unknown effect: everything reachable through &mut is forgotten"""
        self.nframe += 1
        n = self.nframe
        for a in args:
            if is_ref(a):
                pass
        st.unknown('havoc ' + name)
        return [(st, mk('opaque', name, n))]

    def opaque(self, fr, st, key, fref, args, span, dty):
        f = fref.f
        if f.get('never'):
            self.panic('panic', span, fr, st, key)
            return []
        st.event('ext', key, tuple(args), span)
        # does it take &mut ?
        mutargs = [a for a in args if is_ref(a)]
        st.unknown('extern ' + key)
        self.nframe += 1
        return [(st, mk('opaque', key, self.nframe))]

    def adt_of(self, v):
        if isinstance(v, T) and v.op == 'agg' and isinstance(v.args[0], str):
            return v.args[0]
        return None

    def find_impl_head(self, trait, adt):
        for c, im in self.impl_index.get(trait, ()):
            if im['args'] and im['args'][0][0] == 'adt' and im['args'][0][1] == adt:
                return c, im, {}
        return None

    def invoke_trait(self, fr, st, fref, key, args, span, dty):
        f, targs, cr = fref.f, fref.args, fref.cr
        trait, name = f['trait'], f['name']
        # closures
        if trait.startswith('core::ops::function::Fn'):
            tup = args[1]
            if not (isinstance(tup, T) and tup.op == 'agg'):
                raise Unknown('call arguments')
            return self.call_value(fr, st, args[0], list(tup.args[2:]), span, dty)
        # impls, by static type first (our own iterator structs, by value)
        cand = None
        selfty = targs[0] if targs else None
        if selfty is not None:
            cand = self.find_impl(trait, targs)
        if cand is None and args:
            v = args[0]
            n = 0
            while is_ref(v) and n < 3:
                v = self.ld(st, v)
                n += 1
            adt = self.adt_of(v)
            if adt:
                r = self.find_impl_head(trait, adt)
                if r and r[1]['path'].startswith('sa_prelude'):
                    cand = r
        if cand:
            c, im, b = cand
            it = im['items'].get(name)
            if it:
                fn = self.fns.get(it['path'])
                if fn and fn.body:
                    env = dict(b)
                    # method generics follow the trait arguments
                    ig = len(im['generics'])
                    own = fn.generics[ig:]
                    rest = targs[len(im['args']):]
                    env.update(zip(own, rest))
                    return self.inline(fr, st, fn, args, env, span, dty)
            # provided method of a local trait
            fn = self.fns.get(f['path'])
            if fn and fn.body:
                return self.inline(fr, st, fn, args, dict(zip(fn.generics, targs)), span, dty)
        r = self.trait_builtin(fr, st, key, fref, args, span, dty)
        if r is not None:
            return r
        # a provided method called on a generic Self
        if selfty is not None and selfty[0] in ('param', 'alias', 'adt') and f.get('local'):
            fn = self.fns.get(f['path'])
            if fn and fn.body and key not in self.opaque_ok and self.inline_default(key):
                return self.inline(fr, st, fn, args, dict(zip(fn.generics, targs)), span, dty)
        fn = self.prelude_fn(key)
        if fn is not None:
            return self.inline(fr, st, fn, args, dict(zip(fn.generics, targs)), span, dty)
        if selfty is not None and selfty[0] in ('param', 'alias', 'dyn'):
            return self.user_op(fr, st, key, fref, args, span, dty)
        return None

    def inline_default(self, key):
        return True

    def user_op(self, fr, st, key, fref, args, span, dty):
        """operation of a caller-supplied type: an uninterpreted function of its arguments"""
        vals = tuple(self._pure(st, a) for a in args)
        tn = ty_str(fref.args[0]) if fref.args else '?'
        st.event('op', key, vals, span)
        return [(st, mk('app', key, tn, *vals))]


class FnRef:
    _tab = {}

    def __new__(cls, f, args, cr):
        k = (f['path'], args, cr.name)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.f, o.args, o.cr = f, args, cr
            cls._tab[k] = o
        return o

    def __repr__(self):
        return self.f['path'].split('::')[-1]


def head(t):
    k = t[0]
    if k == 'adt':
        return t[1].split('::')[-1]
    if k == 'int':
        return 'int'
    if k in ('ref', 'ptr'):
        return head(t[1]) if k == 'ref' else 'ptr'
    return k


def _has_const_big(p, M):
    return abs(p.c0()) >= M // 2
