"""C01: no safe caller can reach undefined behaviour (all unsafe operations are discharged)."""
from drive import *
import walk

# callee name -> kind of obligation the interpreter checks at the call
PROVABLE = {'unwrap_unchecked', 'get_unchecked', 'get_unchecked_mut', 'unreachable_unchecked', 'assert_unchecked',
            'unchecked_add', 'unchecked_sub', 'unchecked_mul'}


class H(Hooks):
    def __init__(self):
        self.seen = {}

    def on_unsafe(self, I, kind, good, cond, span, fr, st):
        self.seen.setdefault(span, []).append((kind, good, cond, st))


def owner(fn):
    t = fn.impl_self
    if t and t[0] == 'adt':
        return t[1].split('::')[-1] + '::' + fn.name
    return fn.path.split('::', 1)[1]


def discharge(crates, fn, sites, callers):
    """prove every provable unsafe operation of fn in fn itself or, failing that, in all exported callers"""
    rows = [('an', 'functions with unsafe operations')]
    h = H()
    I = AI(crates, h)
    res, _ = call(I, fn.path)
    todo = []
    for f, sp in sites:
        inst = '%s at %s' % (f['path'].split('::')[-1], sp)
        obs = h.seen.get(sp, [])
        if obs and all(o[1] for o in obs):
            rows.append(('ok', 'unsafe operation established safe on every path', '%s in %s (%d abstract paths)' % (inst, fn.path, len(obs))))
        else:
            todo.append((f, sp, inst, obs))
    if not todo:
        return rows
    if callers and not fn.exported:
        for c in callers:
            h2 = H()
            I = AI(crates, h2)
            call(I, c.path)
            for t in list(todo):
                f, sp, inst, obs = t
                o2 = h2.seen.get(sp, [])
                if not all(o[1] for o in o2):
                    rows.append(verdict(fn, c, f, sp, inst, o2))
                    todo.remove(t)
        for f, sp, inst, obs in todo:
            rows.append(('ok', 'unsafe operation established safe on every path', inst + ' from its callers'))
        return rows
    for f, sp, inst, obs in todo:
        rows.append(verdict(fn, fn, f, sp, inst, obs))
    return rows


def verdict(fn, c, f, sp, inst, obs):
    nm = f['path'].split('::')[-1]
    if not obs:
        return ('skip', 'unsafe operation', inst, 'not reached by the interpreter')
    o = [x for x in obs if not x[1]]
    clear = [x for x in o if not x[3].unk]
    if not clear:
        return ('skip', 'unsafe operation', inst, o[0][3].unk)
    k, g, cond, st = clear[0]
    return ('bad', 'unproved:%s:%s' % (owner(fn), nm),
            '%s in %s (%s): nothing on the path establishes %s before the unchecked operation\npath facts: %s\nanalysed from %s'
            % (nm, fn.path, sp, show(cond, 8), st.facts, c.path), 'unsafe operation')


def only_cell(fn, body):
    """every dereferenced raw pointer comes straight from UnsafeCell::get of the receiver's field"""
    src = {}
    for b, t, f in walk.calls(fn, body):
        if f and f['path'].startswith('core::cell::') and f['name'] == 'get' and not t['d']['p']:
            src[t['d']['l']] = 1
    for p, sp, w in walk.all_places(fn, body):
        if p.get('raw') and p['l'] not in src:
            return False
    return True


def reentrant(fn, body):
    """a call whose arguments contain a mutable reborrow of a cell's content together with the owner of the cell"""
    raws = set()
    cell = False
    for b, t, f in walk.calls(fn, body):
        if f and f['name'] == 'get' and 'cell' in f['path']:
            cell = True
    for r, sp, d in walk.rvalues(fn, body):
        if r['k'] == 'ref' and r['mut'] and r['place'].get('raw') and not d['p']:
            raws.add(d['l'])
    if not cell:
        return None
    # locals holding (reborrows of) the receiver
    me = {1}
    ch = True
    al = set(raws)
    while ch:
        ch = False
        for r, sp, d in walk.rvalues(fn, body):
            if d['p']:
                continue
            src = None
            if r['k'] == 'ref' and not r['place'].get('raw'):
                src = r['place']['l']
                pr = [e for e in r['place']['p'] if e != '*']
                if pr:
                    src = None
            elif r['k'] in ('use', 'cast'):
                for p in walk.places_of(r['o']):
                    if not p['p']:
                        src = p['l']
            if src is not None:
                for s in (me, al):
                    if src in s and d['l'] not in s:
                        s.add(d['l'])
                        ch = True
            if r['k'] == 'agg' and r['kind'].get('a') == 'tuple':
                for o in r['ops']:
                    for p in walk.places_of(o):
                        if p['l'] in me and not p['p'] and d['l'] not in me:
                            me.add(d['l'])
                            ch = True
    for b, t, f in walk.calls(fn, body):
        ls = [p['l'] for o in t['a'] for p in walk.places_of(o)]
        if any(l in al for l in ls) and any(l in me for l in ls):
            return t['sp']
    return None


def run(ctx):
    from collections import defaultdict
    tasks = []
    nbody = 0
    for cfg in ('debug', 'release'):
        cr = ctx.crate(cfg)
        g = walk.callgraph(cr)
        rev = defaultdict(set)
        for a, bs in g.items():
            for b in bs:
                rev[b].add(a)
        sites = defaultdict(list)
        for fn, body in walk.bodies(cr):
            nbody += 1
            ctx.analysed['call sites'] = ctx.analysed.get('call sites', 0)
            for b, t, f in walk.calls(fn, body):
                ctx.analysed['call sites'] += 1
                if not f or not f.get('unsafe') or t.get('au') or f['path'].startswith('core::fmt::'):
                    continue
                if f['name'] in PROVABLE:
                    sites[fn.path].append((f, t['sp']))
                elif cfg == 'debug' or True:
                    ctx.bad('unsafe-call:%s:%s' % (owner(fn), f['path'].split('::')[-1]),
                            '%s (%s) calls the unsafe function %s; no rule establishes that this is sound' % (fn.path, t['sp'], f['path']),
                            'unsafe call')
            raw = [(p, sp) for p, sp, w in walk.all_places(fn, body) if p.get('raw')]
            if raw:
                t = fn.impl_self
                ad = cr.adts.get(t[1]) if t and t[0] == 'adt' else None
                own = ad and ad['local'] and [f for f in ad['variants'][0]['fields'] if cr.ty(f['t'])[:2] == ('adt', 'core::cell::UnsafeCell')]
                if own and only_cell(fn, body):
                    sp = reentrant(fn, body) or raw[0][1]
                    ctx.bad('cell-lent:' + t[1].split('::')[-1],
                            '%s (%s) lends the content of the cell %s as an exclusive reference to code that can reach the owner, through which the same content can be lent again' % (fn.path, sp, own[0]['n']),
                            'exclusive access held once')
                else:
                    ctx.bad('rawderef:' + owner(fn), '%s (%s) dereferences a raw pointer; no rule establishes that this is sound' % (fn.path, raw[0][1]), 'raw pointer')
            for c, sp in walk.consts(fn, body):
                if c.get('c') == 'static' and c.get('mut'):
                    ctx.bad('staticmut:' + owner(fn), '%s (%s) uses the mutable static %s' % (fn.path, sp, c['path']), 'static mut')
            for blk in body['blocks']:
                if blk['t']['k'] == 'asm':
                    ctx.bad('asm:' + owner(fn), '%s contains inline assembly' % fn.path, 'asm')
            for r, sp, d in walk.rvalues(fn, body):
                if r['k'] == 'cast' and 'Transmute' in r['kind']:
                    ctx.bad('transmute:' + owner(fn), '%s (%s) transmutes' % (fn.path, sp), 'transmute')
        for im in cr.impls:
            if im['unsafe'] == 'Unsafe' and im['trait'] != 'core::clone::TrivialClone':    # emitted by derive(Clone)
                ctx.bad('unsafe-impl:%s' % im['trait'], '%s: unsafe impl of %s' % (im['span'], im['trait']), 'unsafe impl')
            else:
                ctx.obls.append(('no unsafe impl', im['path'], 'ok'))
        for p, ss in sites.items():
            # exported functions that can reach p
            seen, st, ex = set(), [p], []
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x != p and x in cr.fns and cr.fns[x].exported:
                    ex.append(cr.fns[x])
                st.extend(rev[x])
            tasks.append((cfg + ' ' + p, discharge, [cr, ctx.crate('prelude')], cr.fns[p], ss, ex))
        bad = {x.split(' ')[0] for k, x in ctx.violations}
        for fn, body in walk.bodies(cr):
            if fn.path not in bad:
                ctx.ok('body has no undischarged unsafe operation (%s)' % cfg, fn.path)
    ctx.analysed['bodies'] = nbody
    ctx.floor(nbody, 500, 'function bodies')
    ctx.tasks(tasks)
    ctx.assumptions.append('std is sound; unsafe blocks of std macros are sound')
