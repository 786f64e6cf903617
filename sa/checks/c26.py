"""C26: the min-heap yields the smallest element first and neither loses nor duplicates elements."""
from drive import *

HEAP = 'alloc::collections::binary_heap::BinaryHeap'


def content(h):
    """multiset stored in a heap term, as a formal sum"""
    if isinstance(h, T):
        if h.op == 'hempty':
            return ZERO
        if h.op == 'hpush':
            return content(h.args[0]) + P(mk('one', h.args[1]))
        if h.op == 'hrest':
            return content(h.args[0]) - P(mk('one', mk('hmax', h.args[0])))
        if h.op == 'hjoin':
            return content(h.args[0]) + content(h.args[1])
    return P(mk('mset', h))


def heap_fields(cr, adt):
    out = []
    for i, f in enumerate(adt['variants'][0]['fields']):
        t = cr.ty(f['t'])
        if t[0] == 'adt' and t[1].endswith('::BinaryHeap'):
            out.append((i, t[2][0]))
    return out


def key_path(cr, et, par):
    """fields from an element of the heap to the user's value, and how its order relates to the user's: -1 reversed, 1 same, None unknown"""
    if et == ('param', par):
        return (), 1
    if et[0] == 'adt' and et[1] == 'core::cmp::Reverse':
        r = key_path(cr, et[2][0], par)
        if r is None:
            return None
        return (0,) + r[0], None if r[1] is None else -r[1]
    if et[0] == 'adt' and et[1].startswith('rust_cp'):
        a = cr.adts.get(et[1])
        if a and not a['enum']:
            env = dict(zip(a.get('generics', []), et[2]))
            for i, f in enumerate(a['variants'][0]['fields']):
                r = key_path(cr, ty_subst(cr.ty(f['t']), env), par)
                if r:
                    return (i,) + r[0], None
    return None


def wrapper_order(crates, et, kp):
    """direction of a hand-written Ord impl, from interpreting its comparison functions"""
    cr = crates[0]
    dirs = set()
    for tr, name in (('core::cmp::Ord', 'cmp'), ('core::cmp::PartialOrd', 'partial_cmp')):
        im = [m for m in cr.impls if m['trait'] == tr and m['args'] and m['args'][0][:2] == et[:2]]
        if len(im) != 1 or len([k for k in im[0]['items'] if k not in ('Output',)]) != 1:
            return None
        fn = cr.fns.get(im[0]['items'][name]['path'])
        if not fn or not fn.body:
            return None
        I = AI(crates)
        res, args = call(I, fn.path)
        for s, v in res:
            if s.unk:
                return None
            if name == 'partial_cmp':
                if v.op != 'agg' or v.args[1] != 1:
                    return None
                v = v.args[2]
            if v.op != 'agg' or v.args[0] != ORD:
                return None
            a, b = [s.mem[r.args[0]] for r in args]
            ka, kb = a, b
            for f in kp:
                ka, kb = I.proj(ka, ('f', f), s), I.proj(kb, ('f', f), s)
            L, G = I.val_lt(ka, kb, s), I.val_lt(kb, ka, s)
            if v is LESS:
                dirs.add(1 if s.facts.entails(L) else -1 if s.facts.entails(G) else 0)
            elif v is GREATER:
                dirs.add(1 if s.facts.entails(G) else -1 if s.facts.entails(L) else 0)
            elif s.facts.entails(L) or s.facts.entails(G):
                dirs.add(0)
    return dirs.pop() if len(dirs) == 1 else 0


def proj_path(I, v, kp, st):
    for f in kp:
        v = I.proj(v, ('f', f), st)
    return v


def empty_content(s, c):
    """content with heaps known to be empty removed"""
    for a in list(c.atoms()):
        if a.op == 'mset' and s.facts.entails(eq(P(mk('len', a.args[0])), 0)):
            c = subst(c, {a: ZERO})
    return c


def check_op(crates, fn, hi, kp, name):
    I = AI(crates)
    res, args = call(I, fn.path)
    rows = [('an', 'functions'), ('an', 'paths', len(res))]
    nm = 'MinHeap::' + name

    def bad(key, why, s):
        rows.append(('bad', '%s:%s' % (key, name), '%s (%s): %s\non the path with %s' % (fn.path, fn.span, why, s.facts if s else ''), key))
    if not res:
        bad('returns', 'never returns', None)
    H = None
    init = State()
    for n, a in zip(arg_names(fn), fn.inputs):
        v = sym_value(I, init, n, I.norm_ty(a, {}))
        if a[0] == 'ref' and H is None:
            H = I.proj(init.mem[v.args[0]], ('f', hi), init)
        elif H is None and a[0] == 'adt':
            H = I.proj(v, ('f', hi), init)
    for p in I.panics:
        if p[3].unk:
            rows.append(('skip', 'no panic', nm, p[3].unk))
        elif p[0].startswith('overflow'):
            rows.append(('skip', 'no panic', nm, p[0]))
        else:
            bad('panic', 'can panic (%s at %s)' % (p[0], p[1]), p[3])
    for s, v in res:
        if s.unk:
            rows.append(('skip', 'heap terms', nm, s.unk))
            continue
        roots = [a for a in args if is_ref(a)]
        H1 = I.proj(s.mem[roots[0].args[0]], ('f', hi), s) if roots else None
        n0 = P(mk('len', H))
        loops = [e[1] for e in s.events() if e[0] == 'loop']
        if name in ('new', 'with_capacity'):
            h = I.proj(v, ('f', hi), s)
            if h.op == 'hempty':
                rows.append(('ok', 'starts empty', nm))
            elif h.op in ('hpush', 'hjoin'):
                bad('new', 'a new heap is not empty: %s' % show(h), s)
            else:
                rows.append(('skip', 'starts empty', nm, show(h)))
        elif name in ('pop', 'peek'):
            if v is NONE:
                if s.facts.entails(eq(n0, 0)):
                    rows.append(('ok', 'None only when empty', nm))
                elif loops:
                    rows.append(('skip', 'None only when empty', nm, 'loop'))
                else:
                    bad('none', 'returns None although the heap may hold an element', s)
                if H1 is not H and not s.facts.entails(eq(n0, 0)):
                    rows.append(('skip', 'content', nm, show(H1)))
                continue
            if v.op != 'agg' or v.args[1] != 1:
                rows.append(('skip', 'value', nm, show(v)))
                continue
            x = v.args[2]
            if name == 'peek':
                x = I.val(s, x)
            top = proj_path(I, mk('hmax', H), kp, s)
            if x is top:
                rows.append(('ok', 'value is the first element in heap order', nm))
            elif any(t.op in ('opaque', 'phi') or t.op == 'app' for t in atoms_deep(x)):
                rows.append(('skip', 'value', nm, show(x)))
            else:
                bad('value', 'returns %s, not the first element in heap order' % show(x, 9), s)
            d = content(H1) - content(H) + (P(mk('one', mk('hmax', H))) if name == 'pop' else ZERO)
            d = empty_content(s, d)
            if d is ZERO:
                rows.append(('ok', 'content changes by exactly the returned element', nm))
            elif loops or any(t.op in ('opaque', 'phi') for t in atoms_deep(d)):
                rows.append(('skip', 'content', nm, show(d)))
            else:
                bad('content', 'content changes by %s beyond the returned element' % show(d, 9), s)
        elif name == 'push':
            x = args[1]
            d = content(H1) - content(H)
            ok = None
            a = d.atom()
            if a is not None and a.op == 'one':
                e = a.args[0]
                ok = proj_path(I, e, kp, s) is x
            if ok:
                rows.append(('ok', 'content grows by exactly the given element', nm))
            elif loops or any(t.op in ('opaque', 'phi') for t in atoms_deep(d)):
                rows.append(('skip', 'content', nm, show(d)))
            else:
                bad('content', 'content changes by %s instead of the given element' % show(d, 9), s)
        elif name == 'append':
            O = I.proj(init.mem[('obj', roots[1].args[0][1])], ('f', hi), init)
            get = lambda st_, k: I.proj(st_.mem[roots[k].args[0]], ('f', hi), st_)
            h0, h1 = get(s, 0), get(s, 1)
            bases = set()
            good = True
            for info in loops:
                for s2, b in info.backs:
                    hd = [I.proj(info.headmem[r.args[0]], ('f', hi), s2) for r in roots]
                    d = content(get(s2, 0)) + content(get(s2, 1)) - content(hd[0]) - content(hd[1])
                    d = empty_content(s2, d)
                    if d is not ZERO:
                        good = False
                        if s2.unk or any(t.op == 'opaque' for t in atoms_deep(d)):
                            rows.append(('skip', 'content', nm, show(d)))
                        else:
                            bad('content', 'each round of the loop changes the elements of the two heaps by %s' % show(d, 9), s2)
            tot = content(h0) + content(h1)
            for info in reversed(loops):
                # the same sum at the loop head, before it is entered
                tot = subst(tot, {mk('mset', a): content(i) for a, i in info.phis.items() if isinstance(i, T)})
            d = empty_content(s, tot - content(H) - content(O))
            if d is ZERO and good:
                rows.append(('ok', 'elements of both heaps are kept', nm))
            elif good:
                if s.unk or any(t.op in ('opaque',) for t in atoms_deep(d)):
                    rows.append(('skip', 'content', nm, show(d)))
                else:
                    bad('content', 'the elements of the two heaps change by %s' % show(d, 9), s)
            e1 = empty_content(s, content(h1))
            e0 = empty_content(s, content(h0))
            if e1 is ZERO:
                rows.append(('ok', 'all elements end up in the receiver', nm))
            elif h1.op in ('hpush', 'hjoin') or h1 is O or h1 is H:
                bad('append', 'elements remain in (or are moved to) the other heap: %s' % show(h1, 9), s)
            else:
                rows.append(('skip', 'all elements end up in the receiver', nm, show(h1)))
        elif name == 'len':
            if isinstance(v, Poly) and s.facts.entails(eq(v, n0)):
                rows.append(('ok', 'length counts the elements', nm))
            elif loops or not isinstance(v, Poly):
                rows.append(('skip', 'length', nm, show(v)))
            else:
                bad('len', 'length is %s for a heap with %s elements' % (show(v), show(n0)), s)
        elif name == 'is_empty':
            f = eq(n0, 0)
            if v is f or (s.facts.entails(v) and s.facts.entails(f)) or (s.facts.entails(b_not(v)) and s.facts.entails(b_not(f))) \
                    or (s.copy().assume(v).facts.entails(f) and s.copy().assume(b_not(v)).facts.entails(b_not(f))):
                rows.append(('ok', 'emptiness agrees with the length', nm))
            elif loops or any(t.op in ('opaque', 'phi', 'app') for t in atoms_deep(v)):
                rows.append(('skip', 'emptiness', nm, show(v)))
            else:
                bad('empty', 'emptiness is %s for a heap with %s elements' % (show(v), show(n0)), s)
        elif name == 'clear':
            c = empty_content(s, content(H1))
            if c is ZERO:
                rows.append(('ok', 'cleared heap is empty', nm))
            elif loops or H1.op == 'phi':
                rows.append(('skip', 'clear', nm, show(H1)))
            else:
                bad('clear', 'the cleared heap still holds %s' % show(H1), s)
        elif name == 'into_sorted_vec':
            srt, raw = mk('app', 'heap.into_sorted_vec', '?', H), mk('app', 'heap.into_vec', '?', H)
            at = lambda b, i: proj_path(I, mk('sel', b, P(i)), kp, s)
            n1 = [P(mk('len', x)) for x in (srt, raw, H)]
            whole = isinstance(v, T) and v.op == 'comp' and any(s.facts.entails(eq(P(v.args[1]), n)) for n in n1 + [P(mk('count', x)) for x in (srt, raw)])
            backw = [n - 1 - P(HOLE) for n in n1]
            if whole and (v.args[0] is at(srt, HOLE) or any(v.args[0] is at(srt, b) for b in backw)):
                rows.append(('ok', 'turned into a vector in order', nm))
            elif isinstance(v, T) and v.op == 'comp' and any(v.args[0] is at(x, i) for x in (srt, raw) for i in (HOLE, P(HOLE) + 1)) and any(s.facts.entails(lt(P(v.args[1]), n)) for n in n1):
                bad('short', 'the vector lacks elements of the heap', s)
            elif whole and (v.args[0] is at(raw, HOLE) or any(v.args[0] is at(raw, b) for b in backw)):
                bad('sorted', 'the vector holds the elements in the order the heap keeps them', s)
            else:
                rows.append(('skip', 'turned into a vector in order', nm, show(v, 8)))
        if name in ('len', 'is_empty', 'peek') and H1 is not H and not s.unk:
            d = empty_content(s, content(H1) - content(H))
            if d is not ZERO:
                rows.append(('skip', 'content', nm, show(d)))
    return rows


def run(ctx):
    crates = ctx.crates('debug')
    cr = crates[0]
    heaps = {p: a for p, a in cr.adts.items() if a.get('local') and not a['enum'] and p.split('::')[-1] == 'MinHeap'}
    if not ctx.need(heaps, 'MinHeap'):
        return
    for p, a in heaps.items():
        fs = heap_fields(cr, a)
        par = [g for g in a.get('generics', [])][:1]
        if len(fs) != 1 or not par:
            ctx.skip('representation', p, 'not a wrapper of a binary heap')
            return
        hi, et = fs[0]
        kp = key_path(cr, et, par[0])
        if kp is None:
            ctx.skip('representation', p, 'element type %s' % (et,))
            return
        path, d = kp
        if d is None and et[0] == 'adt' and et[1] != 'core::cmp::Reverse':
            d = wrapper_order(crates, et, path)
        if d == -1:
            ctx.ok('heap order is the reverse of the element order', '%s: %s' % (p, ty_str(et)))
        elif d is None:
            ctx.skip('heap order', p, ty_str(et))
        else:
            ctx.bad('order', '%s keeps %s in a max-heap, so the first element is not a smallest one' % (p, ty_str(et)), 'heap order')
        tasks = []
        names = ('new', 'with_capacity', 'push', 'pop', 'peek', 'len', 'append', 'is_empty', 'clear')
        for n in names:
            f = [g for g in cr.fns.values() if g.name == n and not g.impl_trait and g.impl_self and g.impl_self[:2] == ('adt', p) and g.body]
            if ctx.need(f, 'MinHeap::' + n):
                tasks.append((f[0].path, check_op, crates, f[0], hi, path, n))
        for f in [g for g in cr.fns.values() if g.name == 'into_sorted_vec' and not g.impl_trait and g.impl_self and g.impl_self[:2] == ('adt', p) and g.body]:
            tasks.append((f.path, check_op, crates, f, hi, path, f.name))
        ctx.tasks(tasks)
        ctx.floor(len(tasks), 9, 'heap operations')
    ctx.assumptions.append('std::collections::BinaryHeap is a max-heap of its element type')
