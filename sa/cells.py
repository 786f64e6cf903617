"""What the cells of an array hold: inductive element invariants for arrays filled by loops.

A domain gives abstract values of element terms.  For every loop phi that is an array, the hypothesis is that the
cells written so far (a prefix or a suffix, following the write index) hold target(j); it is assumed in the loop
body, checked on every back edge, and available after the loop.  Scalar phis get hypotheses the same way."""
from container import *


class Stop(Exception):
    pass


class Cells:
    def __init__(self, I):
        self.I = I
        self.hyp = []          # (array term, lo, hi, target)  cells [lo, hi) hold target(j)
        self.scal = {}         # scalar phi -> abstract value
        self.why = []
        self.base = {}
        self.bounds = []
        self.fail = None
        self.best = {}

    # domain hooks
    def value(self, t, s):
        raise Stop()

    def same(self, a, b, s):
        return a == b

    # ----------------------------------------------------------
    def lookup(self, arr, idx, s):
        F = s.facts
        for a, lo, hi, tgt in reversed(self.hyp):
            if a is arr and F.entails(le(lo, idx)) and F.entails(lt(idx, hi)):
                return tgt(idx)
        raise Stop('cell %s of %s' % (show(idx), show(arr, 4)))

    def elem(self, arr, j, s):
        """(state, value term) for the cell j"""
        todo, out, n = [s], [], 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 40:
                raise Stop('splits')
            try:
                out.append((s, self.I.sel(arr, j, s)))
            except Split as e:
                for g in (e.f, b_not(e.f)):
                    s2 = s.copy().assume(g)
                    if not s2.facts.contradictory():
                        todo.append(s2)
        return out

    def prove(self, arr, lo, hi, tgt, s):
        """every cell in [lo, hi) holds tgt"""
        F = s.facts
        self.fail = None
        if F.entails(le(hi, lo)):
            return True
        j = mk('anyidx', arr.id, 'nat')
        J = P(j)
        s2 = s.copy().assume(le(lo, J), lt(J, hi))
        if s2.facts.contradictory():
            return True
        for s3, v in self.elem(arr, J, s2):
            try:
                x = self.value(v, s3)
            except Stop as e:
                self.why.append(str(e))
                self.gap(arr, J, v, tgt, s3)
                return False
            if not self.same(x, tgt(J), s3):
                self.why.append('cell %s holds %s' % (show(J), self.fmt(x)))
                self.fail = ('cell', s3, x, tgt(J), J)
                return False
        return True

    def gap(self, arr, J, v, tgt, s):
        """the cell J was never written by the loop that fills the array: what it holds is what it held before the loop"""
        if not (isinstance(v, T) and v.op == 'sel'):
            return
        for a, lo, hi, t in self.hyp:
            if a is not v.args[0]:
                continue
            i = v.args[1]
            base, info = self.base.get(a, (None, None))
            if base is None:
                return
            F = s.facts
            lo2, hi2 = self.exact(lo, s, info), self.exact(hi, s, info)
            if lo2 is None or hi2 is None:
                return
            for g in (lt(i, lo2), ge(i, hi2)):
                s2 = s.copy().assume(g)
                if s2.facts.contradictory():
                    continue
                try:
                    for s3, w in self.elem(base, i, s2):
                        try:
                            x = self.value(w, s3)
                        except Stop:
                            x = self.raw(w)
                        if x is not None:
                            self.fail = ('gap', s3, x, tgt(J), J)
                            return
                except (Stop, Unknown):
                    return

    def raw(self, w):
        return None

    def exact(self, x, s, info):
        """x without loop counters, when the facts determine it"""
        if not any(t.op == 'phi' for t in atoms_deep(x)):
            return x
        for c in self.bounds:
            if s.facts.entails(eq(x, c)):
                return c
        return None

    def alarm(self):
        """(kind, state, value found, value wanted, cell, witness) of the last failure, when it is definite"""
        if not self.fail:
            return None
        k, s, x, w, J = self.fail
        if s.unk:
            return None
        env = self.differ(x, w, s)
        return (k, s, x, w, J, env) if env else None

    def differ(self, a, b, s):
        return None

    def fmt(self, x):
        return str(x)

    def loops(self, infos, target_of):
        """establish element invariants for the array phis of the loops, inner first; target_of(phi, info) -> candidate targets"""
        for info in infos:
            for a, init in list(info.phis.items()):
                if not isinstance(init, T) or is_bool(init):
                    continue
                if not self.array_like(a, init, info):
                    continue
                self.array_phi(info, a, init, target_of)

    def array_like(self, a, init, info):
        return all(isinstance(b.get(a), T) and b[a].op in ('store', 'push') and b[a].args[0] is a for s, b in info.backs)

    def array_phi(self, info, a, init, target_of):
        ws = set()
        for s, b in info.backs:
            e = b[a]
            if e.op == 'store':
                ws.add(e.args[1])
            else:
                n0 = arr_len(init) + info.it
                ws.add(n0 if s.facts.entails(eq(arr_len(a), n0)) else arr_len(a))
        if len(ws) != 1:
            self.why.append('several write positions')
            return
        w = ws.pop()
        w0 = subst(w, info.inits())
        d = w - subst(w, {info.it_atom: ZERO})
        n = self.final_len(info, a, init) if all(b[a].op == 'store' for s, b in info.backs) else None
        best = (0, None)
        for tgt in target_of(a, info):
            for fwd in (True, False):
                lo, hi = (ZERO, w) if fwd else (w + 1, n)
                if lo is None or hi is None:
                    continue
                self.fail = None
                if not self.prove(init, *(subst(x, info.inits()) for x in (lo, hi)), tgt, info.entry):
                    if self.fail and best[0] < 1:
                        best = (1, self.fail)
                    continue
                nontrivial = not info.entry.facts.entails(le(subst(hi, info.inits()), subst(lo, info.inits())))
                self.hyp.append((a, lo, hi, tgt))
                self.base[a] = (init, info)
                good = True
                self.fail = None
                for s, b in info.backs:
                    e = b[a]
                    l2, h2 = subst(lo, b), subst(hi, b)
                    x = e.args[2] if e.op == 'store' else e.args[1]
                    try:
                        v = self.value(x, s)
                    except Stop as ex:
                        self.why.append(str(ex))
                        good = False
                        break
                    # the new cell, and the interval grows by exactly that cell
                    if not self.same(v, tgt(w), s):
                        self.why.append('cell %s is set to %s' % (show(w), self.fmt(v)))
                        self.fail = ('step', s, v, tgt(w), w)
                        good = False
                        break
                    F = s.facts
                    if not ((F.entails(eq(h2, hi + 1)) and F.entails(eq(l2, lo))) if fwd else
                            (F.entails(eq(l2, lo - 1)) and F.entails(eq(h2, hi)))):
                        self.why.append('write position does not advance by one')
                        good = False
                        break
                if good:
                    return True
                if self.fail and best[0] < (3 if nontrivial else 2):
                    best = (3 if nontrivial else 2, self.fail)
                self.hyp.pop()
        if best[1]:
            self.best[a] = best[1]
        return False

    def final_len(self, info, a, init):
        return known_len(init, info.entry.facts)
