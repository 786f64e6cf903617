"""Entry points: symbolic arguments for a function of the analysed crate."""
from ai import *


def sym_value(I, st, name, ty, depth=0):
    k = ty[0]
    if k == 'int':
        return P(sym(name, ty[1]))
    if k == 'char':
        return P(sym(name, 'char'))
    if k == 'bool':
        return mk('bterm', 'sym', name)
    if k == 'ref':
        inner = ty[1]
        root = ('obj', name)
        st.mem[root] = sym_value(I, st, '*' + name, inner, depth + 1)
        return ref(root)
    if k == 'tuple':
        return AGG('tuple', 0, *[sym_value(I, st, '%s.%d' % (name, i), t, depth + 1) for i, t in enumerate(ty[1])])
    if k == 'adt':
        h = ty[1].split('::')[-1]
        if ty[1].startswith('core::ops::range::'):
            if h == 'Range':
                return AGG(ty[1], 0, *[sym_value(I, st, name + '.' + x, ty[2][0]) for x in ('lo', 'hi')])
        if h in ('UnsafeCell', 'Cell', 'Atomic'):
            return sym_value(I, st, name, ty[2][0], depth + 1)
        if h in ('SplitWhitespace', 'SplitAsciiWhitespace', 'Bytes', 'Chars', 'Lines', 'Split'):
            return AGG('OpIter', 0, mk('sym', name, '?'), ZERO)
        if h == 'PhantomData':
            return mk('zst', ty_str(ty))
        for c in I.crates:
            a = c.adts.get(ty[1])
            if a and not a['enum'] and a.get('local', ty[1].startswith('rust_cp')):
                fs = a['variants'][0]['fields']
                env = dict(zip(a.get('generics', []), ty[2]))
                vals = []
                for f in fs:
                    ft = I.norm_ty(ty_subst(c.ty(f['t']), env), {})
                    vals.append(sym_value(I, st, name.lstrip('*') + '.' + f['n'], ft, depth + 1))
                return AGG(ty[1], 0, *vals)
    if k == 'dyn' and ty[1] and ty[1].endswith('Iterator'):
        return AGG('OpIter', 0, mk('sym', name, '?'), ZERO)
    return mk('sym', name, '?')


def call(I, path, st=None, args=None, env=None):
    fn = I.fns[path]
    st = st or State()
    env = env or {}
    if args is None:
        args = []
        names = arg_names(fn)
        for i, t in enumerate(fn.inputs):
            args.append(sym_value(I, st, names[i], I.norm_ty(t, env)))
    return I.run_fn(fn, args, st, env), args


def arg_names(fn):
    out = []
    for i in range(len(fn.inputs)):
        n = fn.body['locals'][i + 1].get('n')
        out.append(n or 'a%d' % i)
    return out


def events_flat(evs):
    """events with loops as ('loop', info) kept"""
    return evs


def has_loop_event(evs, pred):
    for e in evs:
        if e[0] == 'loop':
            for s, b in e[1].backs:
                if has_loop_event(s.events(), pred):
                    return True
        elif pred(e):
            return True
    return False


def count_events(evs, pred):
    """(count, in_loop) straight-line count of events, and whether some loop contains one"""
    n, inl = 0, False
    for e in evs:
        if e[0] == 'loop':
            for s, b in e[1].backs:
                if has_loop_event(s.events(), pred):
                    inl = True
        elif pred(e):
            n += 1
    return n, inl
