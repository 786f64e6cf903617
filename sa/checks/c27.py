"""C27: each input read consumes exactly the tokens it returns, in order."""
from drive import *

TITLE = 'token accounting of the input reader'


def readers(cr):
    """methods of the type that wraps a token iterator, found through its constructor"""
    out = {}
    for p, fn in cr.fns.items():
        if fn.impl_self and fn.impl_self[0] == 'adt' and fn.exported and not fn.impl_trait and fn.body:
            a = cr.adts.get(fn.impl_self[1])
            if a and a.get('local') and not a['enum']:
                for f in a['variants'][0]['fields']:
                    t = cr.ty(f['t'])
                    if t[0] == 'adt' and 'str::iter::Split' in t[1]:
                        out.setdefault(fn.impl_self[1], []).append(fn)
    return out


def is_parse_of(v, tyname, item):
    """v is the Ok payload of parse::<ty>(item)"""
    if isinstance(v, Poly):
        v = v.atom()
    if v is None or v.op != 'fld' or v.args[1] not in ((0, 0), (0, 0)):
        return False
    b = v.args[0]
    return b.op == 'app' and b.args[0] == 'parse' and b.args[1] == tyname and b.args[2] is item


def untrimmed(t):
    while t.op == 'app' and t.args[0] in ('str::trim', 'str::trim_end', 'str::trim_start'):
        t = t.args[2]
    return t


def other(v, kind, tok):
    """the token is taken apart in another way than asked: character by character for bytes or the reverse"""
    if not (isinstance(v, T) and v.op == 'comp' and kind):
        return None
    for k in ('str::bytes', 'str::chars'):
        if k != kind:
            src = mk('app', k, '?', tok)
            at = [t for t in atoms_deep(v.args[0]) if t.op in ('item', 'sel') and t is not tok]
            if at and all(t.args[0] is src for t in at) and not any(t.op in ('app', 'opaque', 'phi') and t is not src and t is not tok for t in atoms_deep(v.args[0])):
                return k[5:]
    return None


def backwards(x, src):
    x = x.atom() if isinstance(x, Poly) else x
    return x is not None and x.op == 'fld' and isinstance(x.args[0], T) and x.args[0].op == 'app' and 'next_back' in str(x.args[0].args[0]) and src in atoms_deep(x)


def drops(I, s, v, kind, tok):
    """a pass over the elements of the token that leaves the answer as it is because of the element it looks at"""
    a = v.atom() if isinstance(v, Poly) else v
    if a is None or a.op != 'phi' or not kind:
        return None
    src = mk('app', kind, '?', tok)
    for e in s.events():
        if e[0] == 'loop':
            for q in [q for q in I.loops_done if q.id == e[1].id]:
                if a in q.phis:
                    for s2, b in q.backs:
                        l = [x for x in s2.facts.lits if any(t.op in ('item', 'sel') and t.args[0] is src for t in atoms_deep(x))]
                        if b.get(a, a) is a and l and not s2.unk and not s2.facts.entails(FALSE):
                            return ' & '.join(show(x, 6) for x in l)
                        x = b.get(a, a)
                        if isinstance(x, T) and x.op == 'push' and x.args[0] is a and not s2.unk:
                            # the element added lies behind those a loop inside has passed over
                            y = P(x.args[1]).atom() if not isinstance(x.args[1], T) else x.args[1]
                            if y is not None and y.op in ('item', 'sel') and y.args[0] is src:
                                for q2 in I.loops_done:
                                    if q2.id != q.id and q2.it_atom is not None and q2.it_atom in atoms_deep(P(y.args[1])):
                                        for s3, b3 in q2.backs:
                                            if not s3.unk and not s3.facts.entails(FALSE):
                                                return ' & '.join(show(z, 6) for z in s3.facts.lits if any(t.op in ('item', 'sel') and t.args[0] is src for t in atoms_deep(z))) or 'no condition'
    return None


def check_fn(crates, fn):
    I = AI(crates)
    res, args = call(I, fn.path)
    nm = fn.path.split('::')[-1]
    rows = [('an', 'functions'), ('an', 'paths', len(res))]
    st0 = State()
    out = fn.output
    me = None
    if not (fn.inputs and fn.inputs[0][0] == 'ref' and fn.inputs[0][2]):
        # constructor: position 0 of the whole argument
        for s, v in res:
            its = [t for t in atoms_deep(v) if t.op == 'agg' and t.args[0] == 'OpIter']
            good = len(its) == 1 and its[0].args[3].const() == 0 and its[0].args[2].op == 'app' and \
                its[0].args[2].args[0] in ('str::split_whitespace', 'str::split_ascii_whitespace') and \
                untrimmed(its[0].args[2].args[2]).op == 'sym'
            if s.unk:
                rows.append(('skip', 'constructor starts at the first token', nm, s.unk))
            elif good:
                rows.append(('ok', 'constructor starts at the first token', nm))
            else:
                rows.append(('bad', 'ctor:' + nm, '%s (%s): the reader does not start at the first whitespace-separated token of its text: %s' % (fn.path, fn.span, show(v, 10))))
        return rows
    npar = len(fn.inputs) - 1
    for s, v in res:
        inst = '%s path[%s]' % (nm, 'none' if v is NONE else 'value')
        root = args[0].args[0]
        its = [t for t in atoms_deep(s.mem[root]) if t.op == 'agg' and t.args[0] == 'OpIter']
        if s.unk or len(its) != 1:
            rows.append(('skip', 'tokens consumed', inst, s.unk or show(s.mem[root])))
            continue
        base, k = its[0].args[2], its[0].args[3]
        if base.op != 'sym':
            rows.append(('skip', 'tokens consumed', inst, 'iterator ' + show(base)))
            continue
        item = lambda i: mk('item', base, P(i))

        def fail(rule, why):
            rows.append(('bad', '%s:%s' % (rule, nm), '%s (%s): %s; returns %s, next token %s' % (fn.path, fn.span, why, show(v, 10), show(k)), rule))
        if out[0] == 'adt' and out[1].endswith('::Option'):
            if v is NONE:
                has = mk('bterm', 'has', base, ZERO)
                if s.facts.entails(b_not(has)):
                    rows.append(('ok', 'checked read returns nothing only at the end', inst))
                else:
                    fail('none-at-end', 'returns None although a token may remain')
                continue
            if v.op != 'agg' or v.args[1] != 1:
                rows.append(('skip', 'tokens consumed', inst, show(v)))
                continue
            want, val = ty_str(out[2][0]), v.args[2]
        elif out[0] == 'adt' and out[1].endswith('::Vec') and npar == 1:
            n = args[1]
            if not isinstance(n, Poly):
                rows.append(('skip', 'tokens consumed', inst, 'parameter'))
                continue
            want = ty_str(out[2][0])
            d = s.facts.simp(k - n)
            if s.facts.entails(eq(k, n)):
                rows.append(('ok', 'reading n values consumes n tokens', inst))
            elif atoms_deep(k) and any(t.op == 'phi' and isinstance(t.args[1], int) for t in atoms_deep(k)) and not s.facts.entails(ne(k, n)):
                rows.append(('skip', 'reading n values consumes n tokens', inst, show(k)))
            else:
                fail('n-tokens', 'reading n values leaves the reader at token %s instead of n' % show(d))
            if v.op == 'comp' and s.facts.entails(eq(v.args[1], n)):
                if is_parse_of(v.args[0], want, mk('item', base, P(HOLE))):
                    rows.append(('ok', 'k-th value is the k-th token parsed', inst))
                else:
                    fail('order', 'the k-th returned value is not the k-th token parsed as %s' % want)
            elif v.op == 'arr' and s.facts.entails(eq(n, len(v.args))) and all(is_parse_of(x, want, item(i)) for i, x in enumerate(v.args)):
                rows.append(('ok', 'k-th value is the k-th token parsed', inst))
            elif v.op == 'comp' or v.op == 'arr' and v.args:
                fail('count', 'does not return n values')
            elif v.op == 'arr':
                if s.facts.entails(eq(n, 0)):
                    rows.append(('ok', 'no value for n = 0', inst))
                else:
                    fail('count', 'does not return n values')
            else:
                rows.append(('skip', 'k-th value is the k-th token parsed', inst, show(v, 8)))
            continue
        elif out[0] == 'adt' and out[1].endswith('::Vec'):
            el = ty_str(out[2][0])
            kind = {'u8': 'str::bytes', 'char': 'str::chars'}.get(el)
            want, val = None, None
            if v is mk('app', 'collect', '?', mk('app', kind, '?', item(0))):
                rows.append(('ok', 'value is the token', inst))
            elif other(v, kind, item(0)):
                fail('value', 'makes the %s of the token from its %s one by one' % (kind[5:], other(v, kind, item(0))))
            elif drops(I, s, v, kind, item(0)):
                fail('value', 'a pass over the token adds nothing under %s' % drops(I, s, v, kind, item(0)))
            elif kind and isinstance(v, T) and v.op == 'comp' and (v.args[0].atom() if isinstance(v.args[0], Poly) else v.args[0]) is mk('item', mk('app', kind, '?', item(0)), P(HOLE)):
                if s.facts.entails(b_not(mk('bterm', 'has', mk('app', kind, '?', item(0)), P(v.args[1])))):
                    rows.append(('ok', 'value is the token', inst))
                else:
                    fail('value', 'returns the first %s %s of the token' % (show(v.args[1], 6), kind[5:]))
            elif kind and isinstance(v, T) and v.op == 'comp' and backwards(v.args[0], mk('app', kind, '?', item(0))):
                fail('value', 'returns the %s of the token from the end' % kind[5:])
            elif el == 'u8' and v is mk('app', 'str::as_bytes', '?', item(0)):
                rows.append(('ok', 'value is the token', inst))
            elif v.op == 'app' and v.args[0] == 'collect' and isinstance(v.args[2], T) and v.args[2].op == 'app' and v.args[2].args[0] in ('str::bytes', 'str::chars') and v.args[2].args[2] is not item(0):
                fail('value', 'does not return all %s of the token just read' % (kind or el))
            else:
                rows.append(('skip', 'value is the token', inst, show(v, 8)))
        else:
            want, val = ty_str(out), v
        if k.const() == 1:
            rows.append(('ok', 'one token per read', inst))
        elif k.const() is not None:
            fail('one-token', 'consumes %s tokens instead of one' % k.const())
        else:
            rows.append(('skip', 'one token per read', inst, show(k)))
        if want is not None:
            if is_parse_of(val, want, item(0)):
                rows.append(('ok', 'value is the token parsed as its type', inst))
            elif any(t.op == 'opaque' for t in atoms_deep(val)):
                rows.append(('skip', 'value is the token parsed as its type', inst, show(val)))
            else:
                fail('value', 'the value is not the token just consumed, parsed as %s' % want)
    return rows


def run(ctx):
    cr = ctx.crate('debug')
    crates = ctx.crates('debug')
    rs = readers(cr)
    if not ctx.need(len(rs) >= 1, 'input reader type'):
        return
    fns = [f for v in rs.values() for f in v]
    ctx.floor(len(fns), 9, 'reader functions')
    ctx.tasks([(f.path, check_fn, crates, f) for f in fns])
    ctx.assumptions.append('str::split_whitespace yields the tokens in order; str::parse is a function of its text')
