"""Syntactic walks over the dumped MIR (all bodies, promoted bodies included)."""


def bodies(cr):
    for fn in cr.fns.values():
        if fn.body:
            yield fn, fn.body
        for p in fn.promoted:
            yield fn, p


def operands(x):
    """operands of an rvalue or terminator"""
    for k in ('o', 'a', 'b', 'c', 'f'):
        v = x.get(k)
        if isinstance(v, dict) and ('copy' in v or 'move' in v or 'c' in v):
            yield v
    for k in ('ops', 'a'):
        v = x.get(k)
        if isinstance(v, list):
            for o in v:
                yield o


def places_of(o):
    for k in ('copy', 'move'):
        if k in o:
            yield o[k]


def calls(fn, body):
    """(block, terminator, callee record or None)"""
    for b, blk in enumerate(body['blocks']):
        t = blk['t']
        if t['k'] == 'call':
            f = t['f']
            yield b, t, f.get('f') if f.get('c') == 'fn' else None


def fnrefs(fn, body):
    """every function item mentioned, called or passed as a value: (callee record, span)"""
    for blk in body['blocks']:
        for s in blk['s']:
            if s['s'] == '=':
                for o in operands(s['r']):
                    if o.get('c') == 'fn':
                        yield o['f'], s['sp']
        t = blk['t']
        for o in operands(t):
            if o.get('c') == 'fn':
                yield o['f'], t['sp']


def consts(fn, body):
    for blk in body['blocks']:
        for s in blk['s']:
            if s['s'] == '=':
                for o in operands(s['r']):
                    if 'c' in o:
                        yield o, s['sp']
        t = blk['t']
        for o in operands(t):
            if 'c' in o:
                yield o, t['sp']


def rvalues(fn, body):
    for blk in body['blocks']:
        for s in blk['s']:
            if s['s'] == '=':
                yield s['r'], s['sp'], s['d']


def all_places(fn, body):
    for blk in body['blocks']:
        for s in blk['s']:
            if s['s'] in ('=', 'sd'):
                yield s['d'], s['sp'], True
            if s['s'] == '=':
                r = s['r']
                if 'place' in r:
                    yield r['place'], s['sp'], False
                for o in operands(r):
                    for p in places_of(o):
                        yield p, s['sp'], False
        t = blk['t']
        for o in operands(t):
            for p in places_of(o):
                yield p, t['sp'], False
        if t['k'] == 'call':
            yield t['d'], t['sp'], True


def target(f):
    """resolved path of a callee record"""
    return (f.get('res') or f)['path']


def callgraph(cr):
    """fn path -> set of local paths it may run (direct, by value, closures it makes, and,
    for trait methods without a known receiver, every local implementation)"""
    impls = {}
    for im in cr.impls:
        for n, it in im['items'].items():
            impls.setdefault((im['trait'], n), set()).add(it['path'])
    g = {}
    for fn, body in bodies(cr):
        out = g.setdefault(fn.path, set())
        for f, sp in fnrefs(fn, body):
            p = target(f)
            if p in cr.fns:
                out.add(p)
            if f.get('trait') and not (f.get('res') or {}).get('local'):
                out |= impls.get((f['trait'], f['name']), set())
        for r, sp, d in rvalues(fn, body):
            if r['k'] == 'agg' and r['kind'].get('a') == 'closure':
                out.add(r['kind']['path'])
        for c, sp in consts(fn, body):
            if c.get('c') == 'uneval' and c['path'] in cr.fns:
                out.add(c['path'])
    return g


def reach(g, starts):
    seen = set()
    st = list(starts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(g.get(x, ()))
    return seen


def prune_const(body):
    """copy of the body in which switches on constants are gotos and unreachable blocks are empty"""
    asg = {}
    for blk in body['blocks']:
        for s in blk['s']:
            if s['s'] == '=':
                asg.setdefault(s['d']['l'], []).append(s['r'] if not s['d']['p'] else None)
        t = blk['t']
        if t['k'] == 'call':
            asg.setdefault(t['d']['l'], []).append(None)

    def const(o, depth=0):
        if o.get('c') == 'int':
            return o['v']
        for p in places_of(o):
            if not p['p'] and depth < 5:
                a = asg.get(p['l'], [])
                if len(a) == 1 and a[0] and a[0]['k'] == 'use':
                    return const(a[0]['o'], depth + 1)
                if len(a) == 1 and a[0] and a[0]['k'] == 'un' and a[0]['op'] == 'Not':
                    v = const(a[0]['a'], depth + 1)
                    return None if v is None else '1' if v in ('0', 'False') else '0'
        return None
    blocks = []
    for blk in body['blocks']:
        t = blk['t']
        if t['k'] == 'switch':
            v = const(t['o'])
            if v is not None:
                v = {'True': '1', 'False': '0'}.get(str(v), str(v))
                tgt = [x[1] for x in t['t'] if str(x[0]) == v]
                t = {'k': 'goto', 't': tgt[0] if tgt else t['else'], 'sp': t['sp']}
        blocks.append(dict(blk, t=t))
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        t = blocks[b]['t']
        k = t['k']
        st.extend([t['t']] if k in ('goto', 'drop', 'assert') else [x[1] for x in t['t']] + [t['else']] if k == 'switch'
                  else [t['t']] if k == 'call' and t['t'] is not None else [])
    for b in range(len(blocks)):
        if b not in seen:
            blocks[b] = {'s': [], 't': {'k': 'unreachable', 'sp': blocks[b]['t']['sp']}, 'cleanup': False}
    return dict(body, blocks=blocks)
