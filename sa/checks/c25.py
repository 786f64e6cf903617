"""C25: the pattern automaton, as rules over every pass of insert, build and the queries."""
from graph import *
from checks.c23 import cover

TRIE = 'every byte of a pattern leads to the state of its letter, a new one where there is none'
MARK = 'the last state of a pattern, and only that one, is marked with it'
FRESH = 'a new state has no successors, no pattern and no links'
QUEUE = 'states are completed in the order in which they were found, starting with the successors of the root'
LINK = 'the failure link of a successor is where the failure link of its state goes by the same letter'
OUT = 'the output link leads to the next state along the failure links at which a pattern ends'
GOTO = 'a missing successor is replaced by that of the failure link'
ALL = 'every letter and every byte is treated'
STEP = 'the state after a byte is the successor by its letter'
REPORT = 'a text position reports the pattern of its state and those of the states along the output links, each once'
FROM = 'every pattern is inserted under its own number before the links are made'

OFF, NC = P(mk('sym', 'const OFFSET', 'u8')), P(mk('sym', 'const N', 'usize'))
M = P(sym('M', 'usize'))
FIELDS = ('back', 'end', 'output', 'next')


class Auto:
    def __init__(self, crates):
        self.crates = crates
        self.cr = cr = crates[0]
        self.adt = find_adt(cr, 'AhoCorasick')
        self.names = [fd['n'] for fd in cr.adts[self.adt]['variants'][0]['fields']]
        if sorted(self.names) != ['n', 'nodes']:
            raise Unknown('fields %s' % self.names)
        ty = [cr.ty(fd['t']) for fd in cr.adts[self.adt]['variants'][0]['fields'] if fd['n'] == 'nodes'][0]
        if ty[0] != 'adt' or not ty[1].endswith('::Vec'):
            raise Unknown('states are not a vector')
        self.node = ty[2][0][1]
        fs = [fd['n'] for fd in cr.adts[self.node]['variants'][0]['fields']]
        if any(x not in fs for x in FIELDS):
            raise Unknown('fields of a state: %s' % fs)
        self.k = {x: fs.index(x) for x in fs}
        self.nodes = mk('carr', 'nodes', N)
        self.text = mk('carr', 's', M)
        self.facts = [ge(N, 1), le(N, MAXN), ge(M, 1), le(M, MAXN), ge(NC, 1), le(NC, 256), ge(OFF, 0), le(OFF + NC, 256)]
        self.cnt = P(sym('n', 'usize'))

    def f(self, node, name):
        return fld(node, self.k[name])

    def at(self, nodes, u, name):
        return self.f(mk('sel', nodes, P(u)), name)

    def go(self, nodes, u, i):
        return P(mk('sel', self.at(nodes, u, 'next'), P(i)))

    def method(self, n):
        f = method(self.cr, self.adt, n)
        if f is None:
            raise Unknown('no method ' + n)
        return f

    counts = False

    def run(self, name, hook=None):
        self.counts = name == 'find_cnt'
        f = self.method(name)
        I = AI(self.crates, NoResidues())
        if hook:
            hook(I)
        st = State()
        st.assume(*self.facts)
        st.mem[('obj', 'self')] = AGG(self.adt, 0, *[self.nodes if n == 'nodes' else self.cnt for n in self.names])
        st.assume(ge(self.cnt, 1), le(self.cnt, MAXN))
        st.mem[('obj', 's')] = self.text
        args = []
        for nm, t in zip(arg_names(f), f.inputs):
            if t[0] == 'ref':
                args.append(ref(('obj', 'self' if nm == 'self' else 's')))
            else:
                x = P(sym(nm, 'usize'))
                st.assume(ge(x, 0), lt(x, self.cnt))
                args.append(x)
        res, _ = call(I, f.path, st, args)
        # bytes are letters of the alphabet
        res = [x for x in res if self.sane(x[0])]
        for q in I.loops_done:
            q.backs = [x for x in q.backs if self.sane(x[0])]
        return f, I, res, args

    def sane(self, s):
        t = s.copy()
        for l in list(t.facts.lits):
            for x in atoms_deep(l):
                if x.op == 'sel' and x.args[0] is self.text:
                    t.assume(ge(P(x), OFF), lt(P(x), OFF + NC))
                elif x.op == 'sel' and self.counts and isinstance(x.args[0], T) and x.args[0].op in ('phi', 'store'):
                    t.assume(le(P(x), MAXN))
        return not t.facts.contradictory()

    def extra(self, states):
        """facts on the bytes these paths read"""
        out = []
        for s in states:
            for l in s.facts.lits:
                for x in atoms_deep(l):
                    if x.op == 'sel' and x.args[0] is self.text:
                        out += [ge(P(x), OFF), lt(P(x), OFF + NC)]
        return list(dict.fromkeys(out))

    def changes(self, arr, base):
        """[('set', state, field, value) | ('next', state, letter, value) | ('new', node)] oldest first; None: something else"""
        out, seen = [], []
        while arr is not base:
            if not isinstance(arr, T):
                return None
            if arr.op == 'push':
                out.append([('new', arr.args[1], arr.args[0])])
            elif arr.op == 'store':
                w, node, mine = P(arr.args[1]), arr.args[2], []
                if not isinstance(node, T):
                    return None
                if node.op == 'upd':
                    kv, b = node.args[1], node.args[0]
                    if not (isinstance(b, T) and b.op == 'sel' and P(b.args[1]) == w):
                        return None
                    for (vr, k), x in kv:
                        name = [n for n in self.k if self.k[n] == k][0]
                        if name == 'next':
                            old = self.f(b, 'next')
                            cells = []
                            while isinstance(x, T) and x is not old and x.op == 'store':
                                cells.append(('next', w, P(x.args[1]), P(x.args[2])))
                                x = x.args[0]
                            if x is not old:
                                return None
                            mine += cells[::-1]
                        elif name in FIELDS:
                            mine.append(('set', w, name, x))
                else:
                    return None
                out.append(mine)
            else:
                return None
            arr = arr.args[0]
        return [c for m in out[::-1] for c in m]


def alt(I, s, v):
    """a value of an option type as formulas: is it there, and what it holds"""
    return is_some(I, v, s), P(payload(v))


def same(I, s, x, y):
    """two options are equal"""
    a, p = alt(I, s, x)
    b, q = alt(I, s, y)
    if isinstance(x, T) and x.op == 'agg' and x.args[1] == 0:
        return b_not(b)
    if isinstance(y, T) and y.op == 'agg' and y.args[1] == 0:
        return b_not(a)
    if x is y:
        return TRUE
    return b_or(b_and(b_not(a), b_not(b)), b_and(a, b, eq(p, q)))


def fresh_node(o, A, rule, s, node):
    if not (isinstance(node, T) and node.op == 'agg'):
        o.skip(rule, 'a new state: %s' % show(node, 4))
        return
    nx = A.f(node, 'next')
    if isinstance(nx, T) and nx.op == 'rep':
        o.local(rule, 'next', s, b_and(eq(P(nx.args[0]), 0), eq(P(nx.args[1]), NC)), 'a new state has the successors %s' % show(nx))
    else:
        o.skip(rule, 'successors of a new state: %s' % show(nx))
    for n in ('end', 'output'):
        x = option(A.f(node, n))
        (o.ok(rule) if x == ('none',) else o.wrong(rule, n, s, 'a new state has %s' % n) if x[0] == 'some' else o.skip(rule, n))
    o.local(rule, 'back', s, eq(P(A.f(node, 'back')), 0), 'the failure link of a new state is %s' % show(A.f(node, 'back')))


def loops_of(I, res):
    return [find(I, q) for q in used_loops([s for s, v in res])]


def begin(o, A, I, res):
    loops = loops_of(I, res)
    o.live = {q.id for q in loops}
    o.roots = tuple(p for q in loops for p in q.phis) + (A.nodes, A.text)
    o.extra = tuple(A.extra([s for s, v in res] + [s for q in loops for s, b in q.backs]))
    o.rows += [('an', 'paths', len(res) + sum(len(q.backs) for q in loops)), ('an', 'loops', len(loops))]
    return loops


def final(A, s):
    return s.mem[('obj', 'self')].args[2 + A.names.index('nodes')]


def run_insert(crates, name):
    A = Auto(crates)
    f, I, res, args = A.run('insert')
    o = Rules(f, f.name)
    loops = begin(o, A, I, res)
    num = args[2]
    qs = [q for q in loops if any(isinstance(x, T) and is_arr(x) and x is A.nodes for x in q.phis.values())]
    if len(qs) != 1 or len(loops) != 1:
        o.skip(TRIE, '%d loops' % len(loops))
        return o.rows
    q = qs[0]
    An = [p for p, x in q.phis.items() if x is A.nodes][0]
    ps = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom]
    cur = [p for p in ps if any(b.get(p) is not None and P(b[p]) != P(p) for s, b in q.backs)]
    cur = [p for p in cur if any(x.op == 'sel' and x.args[0] is An and P(x.args[1]) == P(p) for s, b in q.backs for l in s.facts.lits for x in atoms_deep(l))]
    if len(cur) != 1:
        o.skip(TRIE, 'current state')
        return o.rows
    p = cur[0]
    o.local(TRIE, 'root', q.entry, eq(P(q.phis[p]), 0), 'a pattern begins at state %s' % show(q.phis[p]))
    idx = None
    for s, b in q.backs:
        ks = {P(x.args[1]) for l in list(s.facts.lits) + [ge0(P(b.get(p, p)))] for x in atoms_deep(l) if x.op == 'sel' and x.args[0] is A.text}
        if len(ks) != 1:
            o.skip(TRIE, 'a pass reads %d bytes' % len(ks))
            idx = False
            continue
        k = ks.pop()
        idx = k if idx in (None, k) else False
        i = P(mk('sel', A.text, k)) - OFF
        old = A.go(An, p, i)
        ch = A.changes(b.get(An, An), An)
        new = P(b.get(p, P(p)))
        n = P(mk('len', An))
        if ch is None:
            o.skip(TRIE, 'states become %s' % show(b[An], 6))
            continue
        kinds = sorted(c[0] for c in ch)
        if not ch:
            o.local(TRIE, 'follow', s, b_and(b_not(eq(old, 0)), eq(new, old)), 'goes on at %s' % show(new, 6))
        elif kinds == ['new', 'next']:
            c = [c for c in ch if c[0] == 'next'][0]
            o.local(TRIE, 'create', s, b_and(eq(old, 0), eq(c[1], P(p)), eq(c[2], i), eq(c[3], n), eq(new, n)),
                    'state %s becomes the successor of %s by %s, and the pattern goes on at %s' % (show(c[3]), show(c[1]), show(c[2]), show(new, 6)))
            fresh_node(o, A, FRESH, s, [c for c in ch if c[0] == 'new'][0][1])
        else:
            o.wrong(TRIE, 'other', s, 'a byte changes %s' % '; '.join('%s of %s' % (c[2] if c[0] == 'set' else c[0], show(c[1], 5)) for c in ch))
    exits = [s for s, v in res if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())]
    if idx:
        cover(o, ALL, 'bytes', I, q, idx, 0, M, exits)
        if q.it_atom is not None and any(x is q.it_atom for x in atoms_deep(idx - q.it)):
            o.wrong(ALL, 'backwards', q.entry, 'the bytes are taken from the last to the first')
    for s, v in res:
        if s not in exits:
            o.skip(MARK, 'returns without the loop')
            continue
        ch = A.changes(final(A, s), An)
        if ch is None:
            o.skip(MARK, 'states become %s' % show(final(A, s), 6))
            continue
        ends = [c for c in ch if c[:1] == ('set',) and c[2] == 'end']
        rest = [c for c in ch if c not in ends]
        if rest:
            o.wrong(MARK, 'other', s, 'also changes %s' % '; '.join('%s of %s' % (c[2] if c[0] == 'set' else c[0], show(c[1], 5)) for c in rest))
        if len(ends) > 1:
            o.skip(MARK, 'several marks')
        elif not ends:
            # a mark that is already there may stay
            o.local(MARK, 'unmarked', s, same(I, s, A.at(An, p, 'end'), AGG(OPT, 1, num)), 'the last state is not marked')
        else:
            x = ends[0][3]
            o.local(MARK, 'mark', s, b_and(eq(ends[0][1], P(p)), same(I, s, x, AGG(OPT, 1, num))), 'state %s is marked with %s' % (show(ends[0][1]), show(x, 4)))
    return o.rows


def run_build(crates, name):
    A = Auto(crates)
    f, I, res, args = A.run('build')
    o = Rules(f, f.name)
    loops = begin(o, A, I, res)
    # the loop over the letters of a state: the states change in it
    written = lambda q, p: any(c[0] != 'new' for s, b in q.backs for c in A.changes(b.get(p, p), p) or ())
    inner = [q for q in loops if any(isinstance(x, T) and written(q, p) for p, x in q.phis.items())]
    outer = [q for q in loops if any(find(I, e[1]) in inner for s, b in q.backs for e in s.events() if e[0] == 'loop')]
    if len(outer) != 1 or not inner:
        o.skip(QUEUE, '%d outer and %d inner loops' % (len(outer), len(inner)))
        return o.rows
    out = outer[0]
    Ao = [p for p, x in out.phis.items() if isinstance(x, T) and any(q.phis[z] is p and A.changes(b.get(z, z), z) is not None for q in inner for z in q.phis for s, b in q.backs)]
    Ao = [p for p in Ao if all(final(A, s) is p for s, v in res)]
    Qo = [p for p, x in out.phis.items() if isinstance(x, T) and p not in Ao and any(isinstance(z, T) and z.op in ('popf', 'popb') and z.args[0] is p for q in inner for z in q.phis.values())]
    if len(Ao) != 1 or len(Qo) != 1:
        o.skip(QUEUE, 'states %d queue %d' % (len(Ao), len(Qo)))
        return o.rows
    Ao, Qo = Ao[0], Qo[0]
    if Ao is not None and out.phis[Ao] is not A.nodes:
        o.skip(LINK, 'states change before')
    for s, v in res:
        if not any(e[0] == 'loop' and find(I, e[1]) is out for e in s.events()):
            o.skip(QUEUE, 'returns without the main loop')
            continue
        o.local(QUEUE, 'all', s, eq(P(mk('len', Qo)), 0), 'ends with states in the queue')
    # ---- the first states
    first = out.phis[Qo]
    fl = [q for q in loops if first in q.phis]
    if len(fl) != 1:
        o.skip(QUEUE, 'the queue begins with %s' % show(first, 5))
    else:
        q = fl[0]
        if option(q.phis[first]) and not (isinstance(q.phis[first], T) and q.phis[first].op == 'arr' and not q.phis[first].args):
            o.skip(QUEUE, 'the queue begins with %s' % show(q.phis[first], 5))
        idx = None
        for s, b in q.backs:
            ks = {P(x.args[1]) for l in s.facts.lits for x in atoms_deep(l) if x.op == 'sel' and x.args[0] is A.at(A.nodes, 0, 'next')}
            if len(ks) != 1:
                o.skip(QUEUE, 'a pass reads %d successors of the root' % len(ks))
                idx = False
                continue
            k = ks.pop()
            idx = k if idx in (None, k) else False
            x, h = b.get(first, first), A.go(A.nodes, 0, k)
            if x is first:
                o.local(QUEUE, 'root-left-out', s, eq(h, 0), 'the successor %s of the root is not queued' % show(h, 6))
            elif isinstance(x, T) and x.op == 'push' and x.args[0] is first:
                o.local(QUEUE, 'root', s, b_and(b_not(eq(h, 0)), eq(P(x.args[1]), h)), 'queued is %s' % show(x.args[1], 6))
            else:
                o.skip(QUEUE, 'queue becomes %s' % show(x, 6))
        if idx:
            cover(o, ALL, 'root-letters', I, q, idx, 0, NC, [out.entry])
    # ---- one state
    for q in inner:
        Ai = [z for z, x in q.phis.items() if x is Ao]
        Qi = [z for z, x in q.phis.items() if isinstance(x, T) and x.op in ('popf', 'popb') and x.args[0] is Qo]
        if len(Ai) != 1 or len(Qi) != 1:
            o.skip(LINK, 'states and queue in the loop over the letters')
            continue
        Ai, Qi = Ai[0], Qi[0]
        if q.phis[Qi].op == 'popf':
            u = P(mk('sel', Qo, P(0)))
        else:
            u = P(mk('sel', Qo, P(mk('len', Qo)) - 1))
            if any(isinstance(b.get(Qi), T) and b[Qi].op == 'push' for s, b in q.backs):
                o.wrong(QUEUE, 'order', q.entry, 'the state found last is completed first')
        idx = None
        for s, b in q.backs:
            ks = {P(x.args[1]) for l in s.facts.lits for x in atoms_deep(l) if x.op == 'sel' and x.args[0] is A.at(Ai, u, 'next')}
            if len(ks) != 1:
                us = {P(x.args[0].args[0].args[1]) for l in s.facts.lits for x in atoms_deep(l)
                      if x.op == 'sel' and isinstance(x.args[0], T) and x.args[0].op == 'fld' and isinstance(x.args[0].args[0], T) and x.args[0].args[0].op == 'sel' and x.args[0].args[0].args[0] is Ai}
                o.skip(LINK, 'a pass reads %d successors of the state (of %s)' % (len(ks), ', '.join(show(x, 5) for x in us)))
                idx = False
                continue
            i = ks.pop()
            idx = i if idx in (None, i) else False
            v, bk = A.go(Ai, u, i), P(A.at(Ai, u, 'back'))
            fail = A.go(Ai, bk, i)
            ch = A.changes(b.get(Ai, Ai), Ai)
            if ch is None or any(c[0] == 'new' for c in ch):
                o.skip(LINK, 'states become %s' % show(b[Ai], 6))
                continue
            qn = b.get(Qi, Qi)
            pushed = []
            fronts = 0
            while isinstance(qn, T) and qn is not Qi:
                if qn.op == 'push':
                    pushed.append(P(qn.args[1]))
                    qn = qn.args[0]
                elif qn.op == 'cat' and isinstance(qn.args[0], T) and qn.args[0].op == 'arr' and len(qn.args[0].args) == 1:
                    pushed.append(P(qn.args[0].args[0]))
                    qn = qn.args[1]
                    fronts += 1
                else:
                    break
            if fronts and q.phis[Qi].op == 'popf':
                o.wrong(QUEUE, 'order', s, 'the state found last is completed first')
                continue
            if qn is not Qi:
                o.skip(QUEUE, 'queue becomes %s' % show(b[Qi], 6))
                continue
            # the state is not the root, and no state is its own failure link
            t = s.copy().assume(b_not(eq(u, 0)), b_not(eq(bk, u)), b_not(eq(v, u)), ge(u, 0), ge(bk, 0), ge(v, 0))
            if t.facts.contradictory():
                continue
            for missing in (True, False):
                y = t.copy().assume(eq(v, 0) if missing else b_and(b_not(eq(v, 0)), b_not(eq(v, fail)), b_not(eq(v, bk))))
                if y.facts.contradictory():
                    continue
                nxt = [c for c in ch if c[0] == 'next']
                bs = [c for c in ch if c[:1] == ('set',) and c[2] == 'back']
                os_ = [c for c in ch if c[:1] == ('set',) and c[2] == 'output']
                es = [c for c in ch if c[:1] == ('set',) and c[2] == 'end']
                for c in es:
                    o.local(MARK, 'build', y, FALSE, 'a pattern mark of %s changes' % show(c[1], 6))
                if missing:
                    if len(nxt) == 1:
                        c = nxt[0]
                        o.local(GOTO, 'goto', y, b_and(eq(c[1], u), eq(c[2], i), eq(c[3], fail)), 'the successor of %s by %s becomes %s' % (show(c[1], 6), show(c[2], 4), show(c[3], 8)))
                    elif not nxt:
                        o.local(GOTO, 'missing', y, eq(fail, 0), 'the missing successor stays missing')
                    else:
                        o.skip(GOTO, 'several successors change')
                    for c in bs + os_:
                        o.skip(LINK, 'links change where there is no successor')
                    if pushed:
                        o.wrong(QUEUE, 'missing', y, 'queued is %s where there is no successor' % show(pushed[0], 6))
                    continue
                for c in nxt:
                    o.local(GOTO, 'kept', y, b_and(eq(c[1], u), eq(c[2], i), eq(c[3], v)), 'the successor of %s by %s becomes %s although there is one' % (show(c[1], 6), show(c[2], 4), show(c[3], 8)))
                if len(bs) == 1:
                    c = bs[0]
                    o.local(LINK, 'link', y, b_and(eq(c[1], v), eq(P(c[3]), fail)), 'the failure link of %s becomes %s' % (show(c[1], 6), show(c[3], 8)))
                elif not bs:
                    o.local(LINK, 'none', y, eq(P(A.at(Ai, v, 'back')), fail), 'the failure link of %s is not set' % show(v, 6))
                else:
                    o.skip(LINK, 'several failure links change')
                E, O = A.at(Ai, fail, 'end'), A.at(Ai, fail, 'output')
                has = is_some(I, E, y)
                if len(os_) > 1:
                    o.skip(OUT, 'several output links change')
                else:
                    who, x = (os_[0][1], os_[0][3]) if os_ else (v, A.at(Ai, v, 'output'))
                    o.local(OUT, 'output', y, b_and(eq(who, v), b_or(b_and(has, same(I, y, x, AGG(OPT, 1, fail))), b_and(b_not(has), same(I, y, x, O)))),
                            'the output link of %s becomes %s' % (show(who, 6), show(x, 8)))
                if len(pushed) == 1:
                    o.local(QUEUE, 'push', y, eq(pushed[0], v), 'queued is %s' % show(pushed[0], 6))
                elif not pushed:
                    o.wrong(QUEUE, 'lost', y, 'the successor %s is not queued' % show(v, 6))
                else:
                    o.skip(QUEUE, 'several states are queued')
        if idx:
            ends = [s for s, b in out.backs if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())]
            cover(o, ALL, 'letters', I, q, idx, 0, NC, ends)
    return o.rows


# ------------------------------------------------------------------ queries
def trace(I, s, v, stop, kind, k, o):
    """what is reported between the table stop and the table v: [('one', x) | ('walk', loop)] oldest first, or None"""
    out = []
    for _ in range(40):
        if v is stop:
            return out[::-1]
        if not isinstance(v, T):
            return None
        if v.op == 'store' and kind == 'cnt':
            i, x = P(v.args[1]), P(v.args[2])
            if x - 1 != P(mk('sel', v.args[0], i)) and not s.facts.entails(eq(x - 1, P(mk('sel', v.args[0], i)))):
                o.local(REPORT, 'once', s, eq(x, P(mk('sel', v.args[0], i)) + 1), 'an occurrence changes the count from %s to %s' % (show(mk('sel', v.args[0], i), 8), show(x, 8)))
            out.append(('one', i))
            v = v.args[0]
        elif v.op == 'store' and kind == 'all':
            i, row = P(v.args[1]), v.args[2]
            o.local(REPORT, 'where', s, eq(i, k), 'an occurrence that ends at %s is reported at %s' % (show(k, 4), show(i, 4)))
            b = v.args[0]
            while isinstance(row, T) and row.op == 'push':
                out.append(('one', P(row.args[1])))
                row = row.args[0]
            if not (isinstance(row, T) and row.op == 'sel' and row.args[0] is b and P(row.args[1]) == i):
                return None
            v = b
        elif v.op == 'push' and kind == 'row':
            out.append(('one', P(v.args[1])))
            v = v.args[0]
        elif v.op == 'phi':
            q = [find(I, e[1]) for e in s.events() if e[0] == 'loop' and v in find(I, e[1]).phis]
            if len(q) != 1:
                return None
            out.append(('walk', q[0], v))
            v = q[0].phis[v]
        else:
            return None
    return None


def run_query(crates, name):
    A = Auto(crates)
    f, I, res, args = A.run(name)
    o = Rules(f, f.name)
    loops = begin(o, A, I, res)
    if not res and I.panics and all(not x[3].unk for x in I.panics):
        o.wrong(ALL, 'never', I.panics[-1][3], '%s returns on no path' % name)
        return o.rows
    # an answer that never looks at a transition
    seen = [x for s, v in res for x in list(s.facts.lits) + [v]]
    seen += [x for q in loops for s, b in q.backs for x in list(s.facts.lits) + list(b.values()) + [z for e in s.events() if e[0] == 'loop' for z in find(I, e[1]).phis.values()]]
    if not any(y.op == 'fld' and y.args[1] == (0, A.k['next']) for x in seen for y in ([x] if isinstance(x, T) else []) + list(atoms_deep(x))):
        q = [q for q in loops if any(y.op == 'sel' and y.args[0] is A.text for s, b in q.backs for l in list(s.facts.lits) for y in atoms_deep(l))] or loops
        for q in q:
            for s, b in q.backs:
                o.wrong(STEP, 'still', s, 'a pass over the text that looks at no transition')
        if not o.hit:
            o.skip(STEP, 'no transition is looked at')
        return o.rows
    main = [q for q in loops if any(e[0] == 'loop' and find(I, e[1]) is q for s, v in res for e in s.events())]
    if len(main) != 1:
        o.skip(STEP, '%d main loops' % len(main))
        return o.rows
    q = main[0]
    # the state: what is replaced by a successor
    cur = [p for p, x in q.phis.items() if isinstance(x, Poly) and p is not q.it_atom and
           any(y.op == 'sel' and isinstance(y.args[0], T) and y.args[0].op == 'fld' and y.args[0].args[1] == (0, A.k['next']) for s, b in q.backs for y in atoms_deep(P(b.get(p, P(p)))))]
    if len(cur) != 1:
        o.skip(STEP, 'current state')
        return o.rows
    p = cur[0]
    o.local(STEP, 'root', q.entry, eq(P(q.phis[p]), 0), 'the text begins at state %s' % show(q.phis[p]))
    # the answer
    R = {v for s, v in res}
    exits = [s for s, v in res if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())]
    if len(R) != 1 or list(R)[0] not in q.phis:
        o.skip(REPORT, 'returns %s' % ', '.join(show(v, 5) for v in R))
        return o.rows
    R = R.pop()
    r0 = q.phis[R]
    ret = f.output
    kind = {'find': 'row', 'find_all': 'all', 'find_cnt': 'cnt'}[name]
    # what it begins with
    if kind == 'cnt':
        if isinstance(r0, T) and r0.op == 'rep':
            o.local(REPORT, 'zero', q.entry, b_and(eq(P(r0.args[0]), 0), eq(P(r0.args[1]), A.cnt)), 'the counts begin as %s' % show(r0))
        else:
            o.skip(REPORT, 'begins with %s' % show(r0))
    elif kind == 'all':
        if isinstance(r0, T) and r0.op == 'rep' and isinstance(r0.args[0], T) and is_arr(r0.args[0]):
            o.local(REPORT, 'empty', q.entry, b_and(eq(P(arr_len(r0.args[0])), 0), eq(P(r0.args[1]), M)), 'the answer begins as %s' % show(r0))
        else:
            o.skip(REPORT, 'begins with %s' % show(r0))
    else:
        if isinstance(r0, T) and is_arr(r0) and r0.op in ('arr', 'rep'):
            o.local(REPORT, 'empty', q.entry, b_or(eq(P(arr_len(r0)), 0), eq(P(arr_len(r0)), M)), 'the answer begins as %s' % show(r0))
        else:
            o.skip(REPORT, 'begins with %s' % show(r0))
    idx = None
    walks = {}
    for s, b in q.backs:
        z = P(b.get(p, P(p)))
        ks = {P(x.args[1]) for l in list(s.facts.lits) + [ge0(z)] for x in atoms_deep(l) if x.op == 'sel' and x.args[0] is A.text}
        if len(ks) != 1:
            o.skip(STEP, 'a pass reads %d bytes' % len(ks))
            idx = False
            continue
        k = ks.pop()
        idx = k if idx in (None, k) else False
        o.local(STEP, 'step', s, eq(z, A.go(A.nodes, p, P(mk('sel', A.text, k)) - OFF)), 'the state becomes %s' % show(z, 8))
        E, O = A.at(A.nodes, z, 'end'), A.at(A.nodes, z, 'output')
        if kind == 'row':
            x = b.get(R, R)
            if isinstance(x, T) and x.op == 'push' and x.args[0] is R and isinstance(x.args[1], T):
                o.local(REPORT, 'single', s, same(I, s, x.args[1], E), 'reported is %s at state %s' % (show(x.args[1], 8), show(z, 8)))
                o.local(REPORT, 'aligned', s, eq(P(mk('len', R)), k), 'the answer for position %s is put at %s' % (show(k), show(mk('len', R))))
            elif isinstance(x, T) and x.op == 'store' and x.args[0] is R and isinstance(x.args[2], T):
                o.local(REPORT, 'single', s, b_and(eq(P(x.args[1]), k), same(I, s, x.args[2], E)), 'reported is %s at %s' % (show(x.args[2], 8), show(x.args[1])))
            else:
                o.skip(REPORT, 'the answer becomes %s' % show(x, 6))
            continue
        tr = trace(I, s, b.get(R, R), R, kind, k, o)
        if tr is None:
            o.skip(REPORT, 'the answer becomes %s' % show(b.get(R, R), 6))
            continue
        ones = [x[1] for x in tr if x[0] == 'one']
        ws = [x for x in tr if x[0] == 'walk']
        if len(ones) > 1:
            o.wrong(REPORT, 'twice', s, 'a state reports %s' % ', '.join(show(x, 6) for x in ones))
            continue
        own = b_not(is_some(I, E, s)) if not ones else b_and(is_some(I, E, s), eq(ones[0], P(payload(E))))
        if not ws:
            o.local(REPORT, 'own', s, own, 'reported for the state: %s' % (', '.join(show(x, 8) for x in ones) or 'nothing'))
            o.local(REPORT, 'links', s, b_not(is_some(I, O, s)), 'the output links are not followed')
            continue
        if len(ws) > 1:
            o.skip(REPORT, 'several walks')
            continue
        _, w, Rw = ws[0]
        cs = [c for c, x in w.phis.items() if c is not Rw and c is not w.it_atom and not (isinstance(x, T) and is_arr(x))]
        if len(cs) != 1:
            o.skip(REPORT, 'cursor of the walk: %s' % ', '.join(show(c) for c in cs))
            continue
        C = cs[0]
        c0 = w.phis[C]
        if not isinstance(c0, T):
            o.skip(REPORT, 'the walk begins at %s' % show(c0, 6))
            continue
        whole = b_and(same(I, s, c0, AGG(OPT, 1, z)), TRUE if not ones else FALSE)
        after = b_and(same(I, s, c0, O), own)
        if c0.op == 'agg' and c0.args[1] == 1:
            o.local(REPORT, 'whole', s, b_or(whole, after), 'the walk begins at %s' % show(c0, 8))
        else:
            o.local(REPORT, 'links', s, same(I, s, c0, O), 'the walk begins at %s' % show(c0, 8))
            o.local(REPORT, 'own', s, own, 'reported for the state: %s' % (', '.join(show(x, 8) for x in ones) or 'nothing'))
        o.local(REPORT, 'end', s, b_not(is_some(I, C, s)), 'the walk ends at %s' % show(C))
        if (w.id, C) in walks:
            continue
        walks[w.id, C] = 1
        for s2, b2 in w.backs:
            x = P(payload(C))
            X = A.at(A.nodes, x, 'end')
            tr2 = trace(I, s2, b2.get(Rw, Rw), Rw, kind, k, o)
            if tr2 is None or any(y[0] != 'one' for y in tr2):
                o.skip(REPORT, 'a step of the walk makes %s' % show(b2.get(Rw, Rw), 6))
                continue
            there = is_some(I, X, s2)
            if len(tr2) > 1:
                o.wrong(REPORT, 'walk-twice', s2, 'a step reports twice')
                continue
            # what output links lead to is a state at which a pattern ends
            goal = b_and(there, eq(tr2[0][1], P(payload(X)))) if tr2 else b_not(there)
            o.local(REPORT, 'walk', s2, b_and(is_some(I, C, s2), goal), 'a step at %s reports %s' % (show(x, 6), ', '.join(show(y[1], 8) for y in tr2) or 'nothing'))
            nx = b2.get(C, C)
            if isinstance(nx, T):
                o.local(REPORT, 'walk-on', s2, same(I, s2, nx, A.at(A.nodes, x, 'output')), 'the walk goes from %s to %s' % (show(x, 6), show(nx, 8)))
            else:
                o.skip(REPORT, 'the walk goes on at %s' % show(nx, 6))
    if idx:
        cover(o, ALL, 'text', I, q, idx, 0, M, exits)
        if q.it_atom is not None and any(x is q.it_atom for x in atoms_deep(idx + q.it)) is False:
            o.wrong(ALL, 'backwards', q.entry, 'the text is read backwards')
    return o.rows


def run_from(crates, name):
    A = Auto(crates)
    ins, bld, new = A.method('insert'), A.method('build'), A.method('new')
    f = A.method('from')
    I = AI(crates, NoResidues())
    pats = mk('carr', 'patterns', M)
    st = State()
    st.assume(*A.facts)
    st.mem[('obj', 'patterns')] = pats

    def touch(kind):
        def spec(I, fr, s, a, span, dty):
            r, pth = a[0].args[0], a[0].args[1]
            v = I.rd(s, r, pth)
            i = A.names.index('nodes')
            nodes = v.args[2 + i]
            xs = list(v.args[2:])
            n2 = P(mk('sym', 'states@%s' % (span,), 'usize'))
            s.assume(ge(n2, arr_len(nodes)), le(n2, MAXN))
            xs[i] = mk('carr', '%s@%s' % (kind, span), n2)
            I.wr(s, r, pth, AGG(A.adt, 0, *xs))
            pat = None
            if kind == 'ins':
                pat = a[1]
            s.event(kind, pat, a[2] if kind == 'ins' else None)
            return [(s, AGG('tuple', 0))]
        return spec
    I.spec_fn[ins.path] = touch('ins')
    I.spec_fn[bld.path] = touch('bld')
    res, _ = call(I, f.path, st, [ref(('obj', 'patterns'))])
    o = Rules(f, f.name)
    loops = loops_of(I, res)
    o.live = {q.id for q in loops}
    o.roots = tuple(p for q in loops for p in q.phis) + tuple(q.it_atom for q in loops if q.it_atom is not None) + (pats, M)
    o.rows += [('an', 'paths', len(res))]
    for s, v in res:
        ev = [e for e in s.events() if e[0] in ('loop', 'ins', 'bld')]
        kinds = []
        for e in ev:
            if e[0] == 'loop':
                q = find(I, e[1])
                inside = {x[0] for s2, b in q.backs for x in s2.events() if x[0] in ('ins', 'bld')}
                kinds.append('L' if inside == {'ins'} else 'X' if inside else '')
            else:
                kinds.append(e[0])
        kinds = [x for x in kinds if x]
        if kinds == ['L', 'bld']:
            o.ok(FROM)
        elif 'bld' not in kinds and 'X' not in kinds:
            o.wrong(FROM, 'unbuilt', s, 'the links are not made')
        else:
            o.skip(FROM, 'order: %s' % kinds)
        if isinstance(v, T) and v.op == 'agg':
            o.local(FROM, 'count', s, eq(P(v.args[2 + A.names.index('n')]), M), 'the number of patterns is %s' % show(v.args[2 + A.names.index('n')]))
    for q in loops:
        idx = None
        for s, b in q.backs:
            es = [e for e in s.events() if e[0] == 'ins']
            if not es:
                if any(x[0] == 'ins' for s2, b2 in q.backs for x in s2.events()):
                    o.wrong(FROM, 'left-out', s, 'a pattern is not inserted')
                continue
            if len(es) > 1:
                o.skip(FROM, 'several insertions')
                continue
            _, pat, num = es[0]
            i = place_of(I, s, pat, pats)
            if i is None:
                o.skip(FROM, 'inserts %s' % show(pat, 6))
                continue
            o.local(FROM, 'number', s, eq(P(num), i), 'pattern %s is inserted under the number %s' % (show(i), show(num)))
            idx = i if idx in (None, i) else False
        if idx:
            cover(o, FROM, 'patterns', I, q, idx, 0, M, [s for s, v in res if any(e[0] == 'loop' and find(I, e[1]) is q for e in s.events())])
    # ---- the first state
    I = AI(crates, NoResidues())
    st = State()
    n = P(sym('n', 'usize'))
    st.assume(ge(n, 0), le(n, MAXN), *A.facts)
    res, _ = call(I, new.path, st, [n])
    o.f, o.nm = new, 'new'
    for s, v in res:
        if not (isinstance(v, T) and v.op == 'agg'):
            o.skip(FRESH, 'new')
            continue
        o.local(FROM, 'count-new', s, eq(P(v.args[2 + A.names.index('n')]), n), 'the number of patterns is %s' % show(v.args[2 + A.names.index('n')]))
        nodes = v.args[2 + A.names.index('nodes')]
        try:
            k = P(arr_len(nodes))
            o.local(FRESH, 'one', s, eq(k, 1), 'starts with %s states' % show(k))
            fresh_node(o, A, FRESH, s, I.sel(nodes, P(0), s))
        except (Unknown, AttributeError, TypeError):
            o.skip(FRESH, 'starts with %s' % show(nodes, 5))
    return o.rows


def place_of(I, s, pat, pats):
    """position of a pattern among the patterns"""
    if is_ref(pat):
        r, p = pat.args[0], pat.args[1]
        if r == ('obj', 'patterns') and len(p) == 1 and p[0][0] == 'i':
            return P(p[0][1])
        try:
            pat = I.rd(s, r, p)
        except Unknown:
            return None
    if isinstance(pat, T) and pat.op == 'sel' and pat.args[0] is pats:
        return P(pat.args[1])
    return None


def run(ctx):
    tasks = []
    for cfg in ('debug', 'release'):
        crates = ctx.crates(cfg)
        if not ctx.need(find_adt(crates[0], 'AhoCorasick'), 'AhoCorasick'):
            return
        for g, n in ((run_insert, 'insert'), (run_build, 'build'), (run_query, 'find'), (run_query, 'find_all'), (run_query, 'find_cnt'), (run_from, 'from')):
            tasks.append(('%s/%s' % (n, cfg), g, crates, n))
    ctx.tasks(tasks, limit=300)
    ctx.floor(len(tasks), 12, 'functions')
    ctx.assumptions += ['patterns are not empty and all different', 'bytes of patterns and texts lie in the alphabet', 'at most 2^30 states']
