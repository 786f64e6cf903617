"""Consistency of an alarm: an assignment of small values to the free terms of an abstract path under which all its
facts hold and the required relation does not.  Only used to keep alarms honest (no assignment, no alarm); never to
discharge an obligation."""
from term import *
from lin import atom_range
import itertools


class NoVal(Exception):
    pass


INTERP = {'rem', 'quot', 'shr', 'pow2', 'lowbit', 'lg', 'wrap', 'tdiv', 'trem', 'bitand', 'bitor', 'bitxor'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def evp(p, env):
    if isinstance(p, Poly):
        s = 0
        for m, c in p.t:
            v = c
            for a in m:
                v *= evt(a, env)
            s += v
        return s
    return evt(p, env)


def evt(a, env):
    if a in env:
        return env[a]
    o = a.op
    if o not in INTERP:
        raise NoVal(a)
    if o == 'wrap':
        v = evp(a.args[0], env)
        n = BITS[a.args[1]]
        v &= (1 << n) - 1
        if a.args[1][0] == 'i' and v >> (n - 1):
            v -= 1 << n
    else:
        x = [evp(y, env) for y in a.args]
        if o in ('rem', 'quot'):
            if x[1] <= 0:
                raise NoVal(a)
            v = x[0] % x[1] if o == 'rem' else x[0] // x[1]
        elif o == 'tdiv' or o == 'trem':
            if x[1] == 0:
                raise NoVal(a)
            q = tdiv(*x)
            v = q if o == 'tdiv' else x[0] - q * x[1]
        elif o == 'shr':
            if not 0 <= x[1] < 200:
                raise NoVal(a)
            v = x[0] >> x[1]
        elif o == 'pow2':
            if not 0 <= x[0] < 200:
                raise NoVal(a)
            v = 1 << x[0]
        elif o == 'lowbit':
            v = x[0] & -x[0]
        elif o == 'lg':
            if x[0] <= 0:
                raise NoVal(a)
            v = x[0].bit_length() - 1
        elif o == 'bitand':
            v = x[0] & x[1]
        elif o == 'bitor':
            v = x[0] | x[1]
        else:
            v = x[0] ^ x[1]
    env[a] = v
    return v


def evf(f, env, boolfn=None):
    o = f.op
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o == 'ge0':
        return evp(f.args[0], env) >= 0
    if o == 'eq0':
        return evp(f.args[0], env) == 0
    if o == 'not':
        return not evf(f.args[0], env, boolfn)
    if o == 'and':
        return all(evf(x, env, boolfn) for x in f.args)
    if o == 'or':
        return any(evf(x, env, boolfn) for x in f.args)
    if boolfn:
        r = boolfn(f, lambda p: evp(p, env))
        if r is not None:
            return r
    if f in env:
        return env[f]
    raise NoVal(f)


def free_atoms(fs):
    out, bl = set(), set()

    def walk(x):
        if isinstance(x, Poly):
            for m, c in x.t:
                for a in m:
                    walk(a)
        elif isinstance(x, T):
            if is_bool(x):
                if x.op == 'bterm':
                    bl.add(x)
                    for y in x.args:
                        if isinstance(y, Poly):
                            walk(y)
                else:
                    for y in x.args:
                        walk(y)
            elif x.op in INTERP:
                for y in x.args:
                    walk(y)
            else:
                out.add(x)
    for f in fs:
        walk(f)
    return out, bl


BASE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 101, -1, -2, -3, -7, 255, 256, 65535, 65536, 998244353, 998244352, 2**31 - 1, 2**31, 2**31 - 2, 2**32 - 1, 2**32, 2**32 + 5,
        2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 3, 2**127 - 1, -2**127, -2**63, -2**63 - 1, -2**31, -2**31 - 1, 2**128 - 1]


def witness(facts, goal, boolfn=None, limit=60000, extra=()):
    """env such that all facts hold and goal is false, or None"""
    fs = list(facts)
    at, bl = free_atoms(fs + [goal])
    at = sorted(at, key=lambda a: a.id)
    if any(a.op in ('phi', 'opaque') for a in at) or len(at) > 5:
        return None
    free_b = [b for b in bl if boolfn is None or boolfn(b, None) is None]
    if len(free_b) > 3:
        return None
    doms = []
    for a in at:
        lo, hi = atom_range(a)
        d = [v for v in list(BASE) + list(extra) if (lo is None or v >= lo) and (hi is None or v <= hi)]
        if hi is not None:
            d.append(hi)
        if lo is not None:
            d.append(lo)
        d = list(dict.fromkeys(d))
        doms.append(d)
    k = len(at)
    if k > 2:
        cut = {3: 30, 4: 13, 5: 8}.get(k, 30)
        doms = [d[:cut] for d in doms]
    n = 0
    # facts sorted so that cheap ones prune first
    for vals in itertools.product(*doms):
        for bv in itertools.product((False, True), repeat=len(free_b)):
            n += 1
            if n > limit:
                return None
            env = dict(zip(at, vals))
            env.update(zip(free_b, bv))
            try:
                if all(evf(f, env, boolfn) for f in fs) and not evf(goal, env, boolfn):
                    return {show(a): env[a] for a in at}
            except (NoVal, KeyError):
                continue
    return None
