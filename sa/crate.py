"""Loads the JSON written by the mirdump driver: functions, structural types, impls."""
import json


class Fn:
    def __init__(self, cr, j):
        self.cr = cr
        self.path, self.name, self.kind = j['path'], j['name'], j['kind']
        self.exported, self.generics, self.span = j['exported'], j['generics'], j['span']
        self.body = j['body']
        self.promoted = j.get('promoted', [])
        self.j = j
        self.unsafe = j.get('unsafe', False)
        self.inputs = [cr.ty(t) for t in j.get('inputs', [])]
        self.output = cr.ty(j['output']) if 'output' in j else None
        self.impl_self = cr.ty(j['impl_self']) if 'impl_self' in j else None
        self.impl_trait = j.get('impl_trait')
        self.in_trait = j.get('in_trait')
        self.bounds = [(cr.ty(t), tr) for t, tr in j.get('bounds', [])]
        self._loops = None
        self._live = None

    def __repr__(self):
        return '<Fn %s>' % self.path

    # ---- control flow
    def succs(self, b):
        t = self.body['blocks'][b]['t']
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['t']] + [t['else']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []


class Body:
    """CFG facts (natural loops, liveness) for a function body"""

    def __init__(self, body):
        self.b = body
        self.n = len(body['blocks'])
        self._loops = None
        self._live = None

    def succs(self, b):
        t = self.b['blocks'][b]['t']
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['t']] + [t['else']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []

    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        onstack = {0}
        back = []
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    onstack.add(v)
                    stack.append((v, iter(self.succs(v))))
                    break
                elif v in onstack:
                    back.append((u, v))
            else:
                stack.pop()
                onstack.discard(u)
                order.append(u)
        preds = {}
        for u in seen:
            for v in self.succs(u):
                preds.setdefault(v, []).append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds.get(x, []))
        self._loops = loops
        self.rpo = order[::-1]
        return loops

    def live_in(self):
        """block -> set of locals that may be read before being overwritten"""
        if self._live is not None:
            return self._live
        use, deff = [], []
        for b in range(self.n):
            u, d = set(), set()
            blk = self.b['blocks'][b]

            def rp(p, write=False):
                if write and not p['p']:
                    return
                if p['l'] not in d:
                    u.add(p['l'])
                for e in p['p']:
                    if isinstance(e, dict) and 'ix' in e and e['ix'] not in d:
                        u.add(e['ix'])

            def ro(o):
                if 'copy' in o:
                    rp(o['copy'])
                elif 'move' in o:
                    rp(o['move'])

            for s in blk['s']:
                if s['s'] == '=':
                    r = s['r']
                    for k in ('o', 'a', 'b'):
                        if k in r and isinstance(r[k], dict):
                            ro(r[k])
                    for o in r.get('ops', []):
                        ro(o)
                    if 'place' in r:
                        rp(r['place'])
                    if s['d']['p']:
                        rp(s['d'], True)
                        if s['d']['l'] not in d:
                            u.add(s['d']['l'])
                    else:
                        d.add(s['d']['l'])
                elif s['s'] == 'sd':
                    rp(s['d'])
            t = blk['t']
            if t['k'] == 'switch':
                ro(t['o'])
            elif t['k'] == 'assert':
                ro(t['c'])
                for o in t['ops']:
                    ro(o)
            elif t['k'] == 'call':
                ro(t['f'])
                for o in t['a']:
                    ro(o)
                if t['d']['p']:
                    rp(t['d'], True)
                    u.add(t['d']['l'])
                else:
                    d.add(t['d']['l'])
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            deff.append(d)
        # anything whose address is taken is live wherever a reference may be: handled by the
        # interpreter (roots referenced from live values stay)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(self.n)):
                o = set()
                for s in self.succs(b):
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = live
        return live


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.raw_types = d['types']
        self._ty = {}
        self.fns = {}
        for f in d['fns']:
            fn = Fn(self, f)
            self.fns[fn.path] = fn
        self.impls = []
        for i in d['impls']:
            self.impls.append(dict(
                trait=i['trait'], args=tuple(self.arg(a) for a in i['args']), path=i['path'],
                generics=i['generics'], span=i['span'], unsafe=i['unsafe'],
                bounds=[(self.ty(t), tr) for t, tr in i['bounds']],
                items={x['name']: x for x in i['items']}))
        self.adts = {a['path']: a for a in d['adts']}
        self.statics = d['statics']
        self.items = d['items']
        self.bodies = {}

    def arg(self, a):
        if isinstance(a, dict):
            c = a['const']
            if 'int' in c:
                return ('const', int(c['int']))
            if 'param' in c:
                return ('cparam', c['param'])
            return ('constdbg', c.get('dbg'))
        return self.ty(a)

    def ty(self, i):
        if i in self._ty:
            return self._ty[i]
        self._ty[i] = ('rec', i)
        t = self.raw_types[i]
        k = t['k']
        if k == 'int':
            r = ('int', t['s'])
        elif k == 'adt':
            r = ('adt', t['path'], tuple(self.arg(a) for a in t['args']))
        elif k == 'array':
            r = ('array', self.ty(t['of']), self.arg({'const': t['len']}))
        elif k == 'slice':
            r = ('slice', self.ty(t['of']))
        elif k == 'ptr':
            r = ('ptr', self.ty(t['of']), t['mut'])
        elif k == 'ref':
            r = ('ref', self.ty(t['of']), t['mut'])
        elif k == 'fndef':
            r = ('fndef', t['path'], tuple(self.arg(a) for a in t['args']))
        elif k == 'closure':
            r = ('closure', t['path'])
        elif k == 'tuple':
            r = ('tuple', tuple(self.ty(a) for a in t['of']))
        elif k == 'param':
            r = ('param', t['name'])
        elif k == 'dyn':
            r = ('dyn', t['trait'])
        elif k == 'alias':
            r = ('alias', t['path'], tuple(self.arg(a) for a in t['args']))
        else:
            r = (k,)
        self._ty[i] = r
        return r

    def adt_fields(self, path, variant=0):
        a = self.adts[path]
        return a['variants'][variant]['fields']


def ty_subst(t, env):
    if not env or not isinstance(t, tuple):
        return t
    k = t[0]
    if k == 'param':
        return env.get(t[1], t)
    if k == 'cparam':
        return env.get(t[1], t)
    if k in ('adt', 'alias', 'fndef'):
        return (k, t[1], tuple(ty_subst(a, env) for a in t[2]))
    if k in ('ref', 'ptr'):
        return (k, ty_subst(t[1], env), t[2])
    if k == 'slice':
        return (k, ty_subst(t[1], env))
    if k == 'array':
        return (k, ty_subst(t[1], env), ty_subst(t[2], env))
    if k == 'tuple':
        return (k, tuple(ty_subst(a, env) for a in t[1]))
    return t


def ty_match(pat, t, binds):
    """one-way match of an impl header type against a concrete type"""
    if pat[0] in ('param', 'cparam'):
        if pat[1] in binds:
            return binds[pat[1]] == t
        binds[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k in ('adt', 'fndef', 'alias'):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(ty_match(a, b, binds) for a, b in zip(pat[2], t[2]))
    if k in ('ref', 'ptr'):
        return pat[2] == t[2] and ty_match(pat[1], t[1], binds)
    if k == 'slice':
        return ty_match(pat[1], t[1], binds)
    if k == 'array':
        return ty_match(pat[1], t[1], binds) and ty_match(pat[2], t[2], binds)
    if k == 'tuple':
        return len(pat[1]) == len(t[1]) and all(ty_match(a, b, binds) for a, b in zip(pat[1], t[1]))
    return pat == t


def ty_str(t):
    k = t[0]
    if k == 'int' or k == 'param':
        return t[1]
    if k == 'adt':
        n = t[1].split('::')[-1]
        return n + ('<%s>' % ', '.join(ty_str(a) for a in t[2]) if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[2] else '') + ty_str(t[1])
    if k == 'slice':
        return '[%s]' % ty_str(t[1])
    if k == 'array':
        return '[%s; %s]' % (ty_str(t[1]), t[2][1])
    if k == 'tuple':
        return '(%s)' % ', '.join(ty_str(a) for a in t[1])
    if k == 'alias':
        return '<%s>::%s' % (', '.join(ty_str(a) for a in t[2]), (t[1] or '').split('::')[-1])
    return str(t[0])
