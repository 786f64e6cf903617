"""C16: the blocks of the sparse table and the two blocks a query combines."""
from segd import *
import lin

N = P(sym('N', 'usize'))
OP = mk('sym', 'op', '?')
INIT = mk('sym', 'init', '?')


def opf(t):
    if t.op == 'app' and t.args[0] == 'call' and t.args[1].op == 'sym' and str(t.args[1].args[0]).split('.')[-1] in OPN:
        a = t.args[2:]
        if len(a) == 1 and isinstance(a[0], T) and a[0].op == 'agg':
            a = a[0].args[2:]
        if len(a) == 2:
            return a
    return None


OPN = {'op'}


class Table(SegD):
    """2-d cells: cell (c, i) is the block [i, i + 2^c)"""
    def __init__(self, I):
        SegD.__init__(self, I, op=opf, leaf=Table.leaf2)
        self.rows = []     # (array phi, number of complete rows)
        self.part = {}     # inner array phi -> (base array, row, lo, hi)

    def leaf2(self, t, s):
        if t is INIT:
            raise Bad(s, FALSE, 'a block still holds the filler value')
        if t.op == 'sel' and t.args[0] is V:
            i = t.args[1]
            return Seg(i, i + 1)
        if t.op == 'sel' and isinstance(t.args[0], T) and t.args[0].op == 'sel':
            return self.block(t.args[0].args[0], t.args[0].args[1], t.args[1], s)
        if t.op == 'sel' and t.args[0].op == 'carr' and isinstance(t.args[0].args[0], tuple) and t.args[0].args[0][1] == 'row':
            return self.block(t.args[0].args[0][0], t.args[0].args[0][2], t.args[1], s)
        return None

    def block(self, arr, c, i, s):
        F = s.facts
        if arr in self.part:
            base, R, lo, hi = self.part[arr]
            if F.entails(eq(c, R)):
                if F.entails(b_and(le(lo, i), lt(i, hi))):
                    return Seg(i, i + pow2(c))
                raise Bad(s, b_and(le(lo, i), lt(i, hi)), 'cell (%s, %s) is read before it is set' % (show(c), show(i)))
            if not F.entails(ne(c, R)):
                raise Stop('row %s or %s' % (show(c), show(R)))
            return self.block(base, c, i, s)
        for a, h in self.rows:
            if a is arr:
                ok = b_and(ge(c, 0), lt(c, h), ge(i, 0), le(i + pow2(c), N))
                if F.entails(ok):
                    return Seg(i, i + pow2(c))
                raise Bad(s, ok, 'cell (%s, %s) stands for no block' % (show(c), show(i)))
        raise Stop('cell (%s, %s) of %s' % (show(c), show(i), show(arr, 3)))

    # ---- rows
    def row_ok(self, row, c, s, F=None):
        """every block of row c is right in the array `row`; raises Bad / Stop otherwise"""
        hi = N - pow2(c) + 1
        tgt = lambda i: Seg(i, i + pow2(c))
        j = P(mk('anyidx', (row.id, c.id), 'nat'))
        if s.facts.entails(le(N + 1, pow2(c))):
            return
        s2 = s.copy().assume(ge(j, 0), le(j + pow2(c), N))
        if s2.facts.contradictory():
            return
        for s3, v in self.elem(row, j, s2):
            s3 = strip(s3)
            x = self.value(v, s3)
            if not self.same(x, tgt(j), s3):
                raise Bad(s3, self.eqf(x, tgt(j)), 'block (%s, %s) combines %s' % (show(c), show(j), x))


def strip(s):
    return s


def writes(e, a):
    """(row, new row term) when e is a with one row replaced or appended"""
    if isinstance(e, T) and e.op == 'store' and e.args[0] is a:
        return e.args[1], e.args[2]
    if isinstance(e, T) and e.op == 'push' and e.args[0] is a:
        return arr_len(a), e.args[1]
    return None


def inner(D, I, info):
    """a loop that fills one row of a table, or a row of its own"""
    for a, init in info.phis.items():
        if not isinstance(init, T) or is_bool(init) or not isinstance(a, T):
            continue
        if a in D.part or any(a is x for x, _ in D.rows):
            continue
        ws = [writes(b.get(a), a) if isinstance(b.get(a), T) else None for s, b in info.backs]
        if not ws or any(w is None for w in ws):
            continue
        R = ws[0][0]
        if all(w[0] is R for w in ws) and not any(x is info.it_atom or x in info.phis for x in atoms_deep(R)) \
                and all(w[1].op == 'store' and w[1].args[0].op == 'sel' and w[1].args[0].args[0] is a and w[1].args[0].args[1] is R for w in ws):
            yield a, init, R, [(s, w[1].args[1], w[1].args[2], b) for (s, b), w in zip(info.backs, ws)]


def run_table(crates, adt, f, cfg):
    nm = 'SparseTable::from'
    rows = [('an', 'functions')]
    I = AI(crates)
    st = State()
    st.mem[('obj', 'v')] = V
    st.assume(ge(N, 0), le(N, MAXN))
    names = arg_names(f)
    args = []
    for i, t in enumerate(f.inputs):
        args.append(ref(('obj', 'v')) if t[0] == 'ref' else OP if names[i] == 'op' or t[0] == 'param' and t[1].split('/')[0] == 'F' else INIT)
    if f.inputs and f.inputs[-1] != f.inputs[1]:
        args[-1], args[1] = OP, INIT
    def hook(a):
        # hypothesis, checked below: every row keeps the length N
        if a.op == 'len' and isinstance(a.args[0], T) and a.args[0].op == 'sel' and isinstance(a.args[0].args[0], T) and a.args[0].args[0].op == 'phi':
            return [eq(P(a), N)]
        return []
    lin.AXIOM_HOOKS.append(hook)
    res, _ = call(I, f.path, st, args)
    rows.append(('an', 'paths', len(res)))
    for info in I.loops_done:
        for a, init in info.phis.items():
            if isinstance(init, T) and not is_bool(init) and is_arr2(init):
                for s, e in [(info.entry, init)] + [(s, b[a]) for s, b in info.backs]:
                    if not rows_len(e, s):
                        return rows + [('skip', 'blocks', nm, 'rows of different lengths: %s' % show(e, 4))]
    rows.append(('an', 'loops', len(I.loops_done)))
    D = Table(I)
    D.bounds = [N + 1 - pow2(ilog2(N)), ilog2(N) + 1, ilog2(N), N]
    bad, skip = [], []
    filler = {}
    done = list(I.loops_done)
    # which loop is nested in which: an inner loop's array starts from an outer loop's array phi
    # outer first: hypotheses of the outer loop are needed inside
    outers = []
    for info in done:
        for a, init in info.phis.items():
            if isinstance(init, T) and not is_bool(init) and is_arr2(init):
                outers.append((info, a, init))
    seen = set()
    progress = True
    for info, a, init in sorted(outers, key=lambda o: -done.index(o[0])):
        # is this an inner loop (all writes to one fixed row)?
        inn = [x for x in inner(D, I, info) if x[0] is a]
        if inn:
            a, init, R, ws = inn[0]
            try:
                one_row(D, I, info, a, init, R, ws, nm, rows)
            except Bad as e:
                bad.append((info, e))
            except Stop as e:
                skip.append((info, e))
            continue
        try:
            many_rows(D, I, info, a, init, done)
        except Bad as e:
            bad.append((info, e))
        except Stop as e:
            skip.append((info, e))
    # loops that fill a row of its own, to be put into the table afterwards
    for info in done:
        try:
            D.loops([info], lambda a, i: [lambda j, h=h: Seg(j, j + pow2(h)) for _, h in D.rows] if not is_bool(a) and not is_arr2(i.phis[a]) else [])
        except (Stop, Unknown) as e:
            skip.append((info, e))
    # every loop that updates a row/table has now been assigned; verify the outer steps
    for info, a, init, h in D_outer(D):
        for s, b in info.backs:
            try:
                step_rows(D, info, a, h, s, b)
                rows.append(('ok', 'each block is the ordered combination of its two halves', nm))
            except Bad as e:
                bad.append((info, e))
            except Stop as e:
                skip.append((info, e))
    # the finished table
    for s, v in res:
        data = [x for x in v.args[2:] if isinstance(x, T) and (is_arr2(x) or x.op == 'phi')]
        if not data:
            skip.append((None, Stop('no table in %s' % show(v, 3))))
            continue
        try:
            final(D, data[0], s)
            rows.append(('ok', 'every row a query can use is complete', nm))
        except Bad as e:
            bad.append((None, e))
        except Stop as e:
            skip.append((None, e))
    hit = False
    for info, e in bad:
        env = e.witness()
        if env and not hit:
            hit = True
            rows.append(('bad', 'build', '%s (%s): %s\nwith %s\ne.g. %s' % (f.path, f.span, e.text, e.s.facts, env), 'each block is the ordered combination of its two halves'))
        elif not env:
            rows.append(('skip', 'blocks', nm, '%s %s %s' % (e.text, e.s.unk, e.s.facts)))
    for info, e in skip:
        rows.append(('skip', 'blocks', nm, str(e)))
    for p in I.panics:
        s = p[3]
        env = None if s.unk else small(s.facts.lits, FALSE)
        if env:
            rows.append(('bad', 'build:panics', '%s (%s) panics (%s at %s) for a slice\nwith %s\ne.g. %s' % (f.path, f.span, p[0], p[1], s.facts, env), 'building works for every length'))
        else:
            rows.append(('skip', 'building works for every length', nm, '%s %s %s' % (p[0], p[1], s.facts)))
    if not I.panics:
        rows.append(('ok', 'building works for every length', nm))
    return rows


V = mk('carr', 'v', N)


def rows_len(e, s):
    while True:
        if e.op in ('store', 'push'):
            if not s.facts.entails(eq(arr_len(e.args[-1]), N)):
                return False
            e = e.args[0]
            continue
        if e.op == 'rep' or e.op == 'comp':
            return s.facts.entails(eq(arr_len(e.args[0]), N))
        if e.op == 'lit':
            return all(s.facts.entails(eq(arr_len(x), N)) for x in e.args)
        return e.op == 'phi'


def is_arr2(x):
    """an array of arrays"""
    if x.op == 'rep':
        return isinstance(x.args[0], T) and is_arr(x.args[0])
    if x.op in ('store', 'push'):
        return is_arr2(x.args[0]) or isinstance(x.args[-1], T) and is_arr(x.args[-1])
    if x.op == 'comp':
        return isinstance(x.args[0], T) and (is_arr(x.args[0]))
    if x.op == 'phi':
        return True
    return x.op == 'lit' and False


def D_outer(D):
    return getattr(D, 'outer', [])


def many_rows(D, I, info, a, init, done):
    """hypothesis: the first w rows of a are complete, w = the row the iteration writes"""
    ws = set()
    for s, b in info.backs:
        e = b.get(a)
        w = writes(e, a) if isinstance(e, T) else None
        if w:
            ws.add(arr_len(init) + info.it if e.op == 'push' else w[0])
            continue
        # through an inner loop
        for i2 in done:
            if e in i2.phis and i2.phis[e] is a or isinstance(e, T) and e.op == 'phi' and any(x is e for x in i2.phis):
                for x in inner(D, I, i2):
                    if x[0] is e:
                        ws.add(x[2])
    if len(ws) != 1:
        raise Stop('rows written: %s' % ws)
    h = ws.pop()
    D.rows.append((a, h))
    if not hasattr(D, 'outer'):
        D.outer = []
    D.outer.append((info, a, init, h))
    # base: rows before the loop
    s0 = info.entry
    h0 = subst(h, info.inits())
    k = h0.const()
    if k is None or k > 4:
        raise Stop('rows before the loop: %s' % show(h0))
    for c in range(k):
        for s, row in D.elem(init, P(c), s0):
            D.row_ok(row, P(c), s)


def one_row(D, I, info, a, init, R, ws, nm, rows):
    cols = {w[1] for w in ws}
    if len(cols) != 1:
        raise Stop('several columns')
    w = cols.pop()
    lo, hi = ZERO, w
    ini = info.inits()
    if not info.entry.facts.entails(eq(subst(w, ini), 0)):
        w0 = subst(w, ini)
        if info.backs and info.backs[0][0].facts.entails(eq(subst(w, info.backs[0][1]), w + 1)):
            lo = w0
        else:
            raise Stop('columns from %s' % show(w0))
    D.part[a] = (init, R, lo, hi)
    for s, col, v, b in ws:
        s = s.copy()
        s.assume(ge(col, 0))
        x = D.value(v, s)
        if s.facts.entails(lt(N, col + pow2(R))):
            continue
        want = Seg(col, col + pow2(R))
        if not D.same(x, want, s):
            raise Bad(s, b_or(gt(col + pow2(R), N), D.eqf(x, want)), 'block (%s, %s) is given %s' % (show(R), show(col), x))
        if not s.facts.entails(eq(subst(w, b), w + 1)):
            raise Stop('columns do not advance by one')
        rows.append(('ok', 'each block is the ordered combination of its two halves', nm))


def step_rows(D, info, a, h, s, b):
    """after one iteration one more row is complete"""
    h2 = subst(h, b)
    if not s.facts.entails(eq(h2, h + 1)):
        raise Stop('rows do not advance by one: %s' % show(h2))
    e = b[a]
    w = writes(e, a)
    if w:
        for s2, row in [(s, w[1])]:
            D.row_ok(row, h, s2)
        return
    j = P(mk('anyidx', (a.id, 'row'), 'nat'))
    # the other rows are untouched: only row R is written by the inner loop
    base, R, lo, hi = D.part.get(e, (None,) * 4)
    if base is not a:
        raise Stop('rows go through %s' % show(e, 3))
    row = mk('sel', e, R)
    D.row_ok(row, h, s)


def final(D, arr, s):
    """rows 0 .. lg N of the finished table are complete"""
    n = known_len(arr, s.facts)
    if not s.facts.entails(b_or(eq(N, 0), gt(n, ilog2(N)))):
        raise Bad(s, b_or(eq(N, 0), gt(n, ilog2(N))), 'the table has %s rows' % show(n))
    c = P(mk('anyidx', (arr.id, 'final'), 'nat'))
    s2 = s.copy().assume(ge(c, 0), le(pow2(c), N), le(c, ilog2(N)))      # the last one follows from the others
    if s2.facts.contradictory():
        return
    for s3, row in D.elem(arr, c, s2):
        D.row_ok(row, c, s3)


def run_get(crates, adt, ctor, f, cfg):
    nm = 'SparseTable::get'
    rows = [('an', 'functions')]
    st = State()
    st.assume(ge(N, 1), le(N, MAXN))
    st.mem[('obj', 'v')] = V
    names = arg_names(ctor)
    args = [ref(('obj', 'v')), INIT, OP]
    for sh in shapes(crates, adt, ctor, args, st, N):
        I = AI(crates)
        s = sh.state.copy()
        s.mem[('obj', 'self')] = sh.value
        l, r = P(sym('l', 'usize')), P(sym('r', 'usize'))
        s.assume(ge(l, 0), lt(l, r), le(r, N))
        res, _ = call(I, f.path, s, [ref(('obj', 'self')), l, r])
        D = Table(I)
        D.overlap = True
        tab = [x for x in sh.value.args[2:] if isinstance(x, T) and x.op == 'comp']
        nrows = tab[0].args[1] if tab else ZERO
        for x in sh.value.args[2:]:
            if isinstance(x, T) and x.op == 'sym':
                OPN.add(str(x.args[0]).split('.')[-1])
        D.rows.append(('self.data', nrows))
        for x in tab:
            D.rows += [(x.args[0].args[0][0], nrows)] if x.args[0].op == 'carr' else []
        for s2, v in res:
            rows.append(('an', 'paths'))
            try:
                if s2.unk:
                    raise Stop(str(s2.unk))
                x = D.value(v, s2)
                want = Seg(l, r)
                if D.same(x, want, s2):
                    rows.append(('ok', 'the blocks combined lie inside the range and cover it', nm))
                    continue
                raise Bad(s2, D.eqf(x, want), 'the answer combines %s' % x)
            except Bad as e:
                env = e.witness()
                if env:
                    rows.append(('bad', 'get', '%s (%s): %s\nfor the range [l, r) with %s\ne.g. %s' % (f.path, f.span, e.text, e.s.facts, env),
                                 'the blocks combined lie inside the range and cover it'))
                else:
                    rows.append(('skip', 'query', nm, e.text))
            except Stop as e:
                rows.append(('skip', 'query', nm, str(e)))
        for p in I.panics:
            s2 = p[3]
            env = None if s2.unk else small(s2.facts.lits, FALSE)
            if env:
                rows.append(('bad', 'get:panics', '%s (%s) panics (%s at %s) for a range inside the table\nwith %s\ne.g. %s' % (f.path, f.span, p[0], p[1], s2.facts, env),
                             'ranges inside the table are answered'))
            else:
                rows.append(('skip', 'ranges inside the table are answered', nm, '%s %s' % (p[0], s2.facts)))
        if not I.panics:
            rows.append(('ok', 'ranges inside the table are answered', nm))
    return rows


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        cr = crates[0]
        adt = find_adt(cr, 'SparseTable')
        if not ctx.need(adt, 'SparseTable'):
            return
        cs = [f for f in ctors(cr, adt) if f.name == 'from']
        g = method(cr, adt, 'get')
        if not ctx.need(len(cs) == 1, 'SparseTable::from') or not ctx.need(g, 'SparseTable::get'):
            return
        tasks.append((cs[0].path, run_table, crates, adt, cs[0], cfg))
        tasks.append((g.path, run_get, crates, adt, cs[0], g, cfg))
    ctx.tasks(tasks, limit=120)
    ctx.floor(len(tasks), 4, 'functions')
    ctx.assumptions.append('length at most 2^30')
