"""Symbolic containers: the shape (sizes, lengths, relations between them) that a constructor establishes, with
arbitrary contents.  Fields that other methods may resize or reassign keep no shape."""
from drive import *
from walk import bodies, all_places, fnrefs
import walk

MAXN = 2 ** 30
GROW = {'push', 'pop', 'resize', 'resize_with', 'truncate', 'clear', 'insert', 'remove', 'drain', 'extend', 'append', 'split_off', 'retain',
        'swap_remove', 'dedup', 'push_back', 'push_front', 'pop_front', 'pop_back', 'extend_from_slice'}


def is_arr(v):
    return isinstance(v, T) and v.op in ('rep', 'store', 'push', 'popb', 'popf', 'comp', 'slice', 'splice', 'cat', 'arr', 'carr', 'samelen', 'fillr')


def find_adt(cr, name):
    l = [p for p, a in cr.adts.items() if a.get('local') and p.split('::')[-1] == name]
    return l[0] if len(l) == 1 else None


def methods(cr, adt):
    return [f for f in cr.fns.values() if f.body and f.impl_self and f.impl_self[:2] == ('adt', adt)]


def method(cr, adt, name, inherent=True):
    l = [f for f in methods(cr, adt) if f.name == name and (not inherent or not f.impl_trait)]
    return l[0] if len(l) == 1 else None


def ctors(cr, adt):
    """constructors: the type's functions that return Self by value and take none"""
    out = []
    for f in methods(cr, adt):
        o = f.output
        if o and o[:2] == ('adt', adt) and not any(mentions(t, adt) for t in f.inputs):
            out.append(f)
    return out


def mentions(t, adt):
    if isinstance(t, tuple):
        if t[:2] == ('adt', adt):
            return True
        return any(mentions(x, adt) for x in t)
    return False


def closure_of(cr, f):
    g = getattr(cr, '_cgraph', None)
    if g is None:
        g = cr._cgraph = walk.callgraph(cr)
    seen, todo = set(), [f.path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        todo.extend(g.get(p, ()))
    return seen


def from_self(fn, adt):
    """locals of fn that may refer into a value of the type (flow-insensitive)"""
    b = fn.body
    taint = set()
    for l in range(1, len(fn.inputs) + 1):
        t = fn.inputs[l - 1]
        if t[0] == 'ref' and (mentions(t, adt) or t[1][0] == 'adt' and t[1][1].startswith('alloc::')):
            taint.add(l)
    ch = True
    isref = lambda l: fn.cr.ty(b['locals'][l]['t'])[0] == 'ref'
    while ch:
        ch = False
        for blk in b['blocks']:
            for s in blk['s']:
                if s['s'] != '=' or s['d']['l'] in taint:
                    continue
                r = s['r']
                src = [r['place']['l']] if r['k'] == 'ref' else [p['l'] for o in walk.operands(r) for p in walk.places_of(o)]
                if any(x in taint for x in src) and isref(s['d']['l']):
                    taint.add(s['d']['l'])
                    ch = True
            t = blk['t']
            if t['k'] == 'call' and t['d']['l'] not in taint and isref(t['d']['l']):
                if any(p['l'] in taint for o in t['a'] for p in walk.places_of(o)):
                    taint.add(t['d']['l'])
                    ch = True
    return taint


def unstable(cr, adt):
    """(field indices reassigned outside constructors, element types of vectors inside it that may change length)"""
    cs = {f.path for f in ctors(cr, adt)}
    reach = set()
    for f in methods(cr, adt):
        if f.path not in cs and f.name not in ('fmt',):
            reach |= closure_of(cr, f)
    fields, grow = set(), set()
    for p in reach:
        fn = cr.fns.get(p)
        if fn is None or not fn.body or fn.path in cs:
            continue
        tn = from_self(fn, adt)
        for b, t, f in walk.calls(fn, fn.body):
            if f and f['name'] in GROW and f['path'].startswith('alloc::') and f.get('args') and t['a']:
                if any(pl['l'] in tn for pl in walk.places_of(t['a'][0])):
                    grow.add(cr.arg(f['args'][0]))
        for pl, sp, wr in all_places(fn, fn.body):
            if wr and len(pl['p']) == 2 and pl['p'][0] == '*' and isinstance(pl['p'][1], dict) and 'f' in pl['p'][1]:
                t = cr.ty(fn.body['locals'][pl['l']]['t'])
                if t[0] == 'ref' and t[1][:2] == ('adt', adt):
                    fields.add(pl['p'][1]['f'])
    return fields, grow


def base_array(I, v):
    """the array a loop or a chain of element writes started from"""
    for _ in range(40):
        if v.op in ('store', 'fillr', 'splice', 'samelen'):
            v = v.args[0]
            continue
        if v.op == 'phi':
            w = None
            for info in I.loops_done:
                if v in info.phis:
                    w = info.phis[v]
            if isinstance(w, T):
                v = w
                continue
        return v
    return v


def known_len(v, F, cands=()):
    """length of an array term, using an equality among the facts"""
    n = arr_len(v)
    if any(t.op in ('phi', 'opaque') for t in atoms_deep(n)):
        for c in cands:
            if F.entails(eq(n, c)):
                return c
    a = n.atom()
    if a is not None and a.op == 'len':
        for l in F.lits:
            if l.op == 'eq0':
                p = l.args[0]
                for m, c in p.t:
                    if m == (a,) and abs(c) == 1:
                        r = n - p * c
                        if a not in atoms_deep(r) and not any(t.op == 'phi' for t in atoms_deep(r)):
                            return r
    return n


def generalise(I, v, ty, name, st, keep=True, grow=(), depth=0, cands=()):
    """same shape, arbitrary content"""
    if isinstance(v, Poly):
        return v if keep else P(sym(name, ty[1] if ty[0] == 'int' else 'usize'))
    if not isinstance(v, T):
        return v
    if v.op == 'agg' and not str(v.args[0]).startswith('closure') and v.args[0] != OPT:
        for c in I.crates:
            a = c.adts.get(v.args[0])
            if a and not a['enum']:
                env = dict(zip(a.get('generics', []), ty[2])) if ty[0] == 'adt' else {}
                fs = a['variants'][0]['fields']
                return AGG(v.args[0], 0, *[generalise(I, x, I.norm_ty(ty_subst(c.ty(f['t']), env), {}), name + '.' + f['n'], st, keep, grow, depth + 1, cands)
                                           for f, x in zip(fs, v.args[2:])])
        return mk('sym', name, '?')
    if is_arr(v) or ty[0] == 'adt' and ty[1].endswith('::Vec'):
        el = ty[2][0] if ty[0] == 'adt' and ty[2] else ('?',)
        fixed = keep and not any(g == el for g in grow)
        n = known_len(v, st.facts, cands) if fixed else P(mk('len', mk('sym', name, '?')))
        e = None
        b = base_array(I, v)
        if b.op == 'rep':
            e = b.args[0]
        if v.op == 'rep':
            e = v.args[0]
        if v.op == 'comp':
            e = v.args[0]
        if el[0] == 'adt' and el[1].endswith('::Vec'):
            inner = el[2][0]
            if isinstance(e, T) and not any(g == inner for g in grow) and keep:
                row = mk('carr', (name, 'row', P(HOLE)), known_len(e, st.facts, cands))
            else:
                row = mk('sel', mk('sym', name + '[]', '?'), P(HOLE))
            return mk('comp', row, n) if fixed else mk('sym', name, '?')
        return mk('carr', name, n) if fixed else mk('sym', name, '?')
    return mk('sym', name, '?')


class Shape_:
    """one case of what a constructor returns"""
    def __init__(self, value, state, n):
        self.value, self.state, self.n = value, state, n


def shapes(crates, adt, ctor, args, st, n, hooks=None, facts=()):
    """generalised results of the constructor"""
    cr = crates[0]
    I = AI(crates, hooks)
    st = st.copy().assume(*facts)
    res, _ = call(I, ctor.path, st, args)
    bad, grow = unstable(cr, adt)
    a = cr.adts[adt]
    fs = a['variants'][0]['fields']
    ty = ctor.output
    env = dict(zip(a.get('generics', []), ty[2])) if ty[0] == 'adt' else {}
    out = []
    cands = []
    for a_ in list(args) + [n]:
        if is_ref(a_):
            a_ = st.mem.get(a_.args[0])
        if isinstance(a_, T) and (is_arr(a_) or a_.op == 'sym'):
            a_ = arr_len(a_)
        if isinstance(a_, Poly):
            cands += [a_, a_ + 1]
    for s, v in res:
        if v.op != 'agg' or v.args[0] != adt:
            raise Unknown('constructor returns %s' % show(v))
        vals = []
        for i, (f, x) in enumerate(zip(fs, v.args[2:])):
            ft = I.norm_ty(ty_subst(cr.ty(f['t']), env), {})
            vals.append(generalise(I, x, ft, 'self.' + f['n'], s, i not in bad, grow, 0, cands))
        s2 = State()
        s2.facts = EMPTY.add(*[l for l in s.facts.lits if not any(t.op in ('opaque',) for t in atoms_deep(l))])
        s2.facts = EMPTY.add(*[l for l in s2.facts.lits if not any(t.op == 'phi' for t in atoms_deep(l))])
        out.append(Shape_(AGG(adt, 0, *vals), s2, n))
    # cases that differ only in contents are one case
    def clean(x):
        return not any(t.op in ('phi', 'opaque') for t in atoms_deep(x))
    for o in out:
        if not clean(o.value):
            raise Unknown('shape of %s: %s' % (adt, show(o.value)))
    uniq = {}
    for o in out:
        uniq.setdefault((o.value, o.state.facts.key), o)
    return list(uniq.values())


class NoResidues(Hooks):
    """residue arithmetic as uninterpreted functions"""
    def on_call(self, I, key, f, args, st, fr, span):
        if isinstance(f, FnRef) and f.f.get('trait') and f.args and f.args[0][0] == 'adt' and f.args[0][1].endswith('ModInt'):
            tr = f.f['trait'].split('::')[-1]
            if tr in ('Add', 'Sub', 'Mul', 'Div', 'Neg', 'From'):
                return [(st, mk('app', tr, *[I._pure(st, a) for a in args]))]
            if tr in ('AddAssign', 'SubAssign', 'MulAssign', 'DivAssign') and is_ref(args[0]):
                r, p = I.deref(args[0])
                I.wr(st, r, p, mk('app', tr[:-6], I.rd(st, r, p), I._pure(st, args[1])), fr, span)
                return [(st, UNIT)]
        if isinstance(f, FnRef):
            fn = I.fns.get(f.f['path'])
            if fn and fn.body and fn.output and fn.output[0] == 'adt' and fn.output[1].endswith('ModInt') and not f.f.get('trait') \
                    and (fn.impl_self or fn.in_trait) and not (fn.impl_self and fn.impl_self[0] == 'adt' and not fn.impl_self[1].endswith('ModInt')):
                return [(st, mk('app', fn.name, *[I._pure(st, a) for a in args]))]
        return None
