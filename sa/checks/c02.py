"""C02: results depend on the arguments alone (effect analysis over the whole call graph)."""
import os
import walk
from ctx import VERIF

# path prefix of the std item -> what it gives access to
AMBIENT = [
    ('std::time::', 'the clock'), ('std::sys::time', 'the clock'),
    ('std::env::', 'the environment'), ('std::fs::', 'the file system'), ('std::net::', 'the network'),
    ('std::os::', 'the operating system'), ('std::process::', 'processes'),
    ('std::thread::', 'threads'), ('std::io::stdio::stdin', 'standard input'), ('std::io::stdio::stdout', 'standard output'),
    ('std::io::stdio::_print', 'standard output'), ('std::io::stdio::print_to', 'standard output'),
    ('std::io::stdio::{impl', 'standard streams'),
    ('std::hash::random', 'random hash seeds'), ('std::sys::random', 'randomness'), ('core::arch::', 'machine state'),
    ('core::any::type_name', 'type names'), ('std::alloc::', 'the allocator'), ('std::backtrace', 'backtraces'),
    ('std::panic::', 'the panic hook'), ('std::random', 'randomness'), ('core::random', 'randomness'),
    ('core::panic::location', 'caller location'), ('std::sync::mpsc', 'threads'), ('std::sync::mpmc', 'threads'),
    ('std::thread_local', 'thread-local state'),
]
ALLOW = ('std::thread::local::{impl#4}::new',)     # LocalKey::new in the expansion of thread_local!
HASHITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain',
            'into_iter', 'extract_if', 'union', 'intersection', 'difference', 'symmetric_difference', 'fmt'}
HASHTY = ('std::collections::hash', 'hashbrown::')
PTR2INT = ('PointerExposeProvenance', 'PointerExposeAddress')
WRITES = {'store', 'swap', 'compare_exchange', 'compare_exchange_weak', 'compare_and_swap', 'fetch_update', 'fetch_add',
          'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand', 'fetch_max', 'fetch_min', 'try_update', 'update'}


def is_hash_ty(t):
    while t and t[0] in ('ref', 'ptr'):
        t = t[1]
    return bool(t) and t[0] == 'adt' and t[1].startswith(HASHTY)


def effects(cr):
    """(kind, key, fn, span, text) for every construct that reaches ambient state"""
    out = []
    n = 0
    for fn, body in walk.bodies(cr):
        def hit(kind, what, sp, text):
            out.append((kind, '%s:%s:%s' % (kind, fn.path, what), fn, sp, text))
        if 'BUTTERFLY' in fn.path and False:
            continue
        for f, sp in walk.fnrefs(fn, body):
            n += 1
            for p in {f['path'], walk.target(f)}:
                if p in ALLOW:
                    continue
                for pre, what in AMBIENT:
                    if p.startswith(pre):
                        hit('ambient', p, sp, 'uses %s (%s)' % (what, p))
                if p.startswith('core::ptr::') and p.split('::')[-1] in ('addr', 'expose_provenance', 'hash', 'expose_addr'):
                    hit('address', p, sp, 'depends on an address (%s)' % p)
                if p.startswith('core::fmt::rt') and p.endswith('new_pointer'):
                    hit('address', p, sp, 'prints an address')
                if p.startswith('std::thread::local') and p not in ALLOW:
                    hit('hidden-state', p, sp, 'uses thread-local state (%s)' % p)
            if f['name'] in HASHITER:
                ts = [cr.arg(a) for a in f['args'] if not isinstance(a, dict)]
                if f.get('impl_self') is not None:
                    ts.append(cr.ty(f['impl_self']))
                rt = f.get('res') or {}
                if any(is_hash_ty(t) for t in ts[:1] + ts[-1:]) or any(walk.target(f).startswith(h) for h in HASHTY):
                    hit('hash-order', f['path'], sp, 'iterates over a hash table (%s)' % f['path'])
        for r, sp, d in walk.rvalues(fn, body):
            if r['k'] == 'cast':
                if any(k in r['kind'] for k in PTR2INT):
                    hit('address', 'cast', sp, 'turns an address into a number')
            if r['k'] == 'tls' and '__RUST_STD_INTERNAL' not in r.get('path', ''):
                hit('hidden-state', 'tls', sp, 'uses thread-local state')
        for c, sp in walk.consts(fn, body):
            if c.get('c') == 'static' and c.get('mut'):
                hit('hidden-state', c['path'], sp, 'uses the mutable static ' + c['path'])
    return out, n


def atomic_writes(cr):
    out = []
    for fn, body in walk.bodies(cr):
        for f, sp in walk.fnrefs(fn, body):
            if f['name'] in WRITES and f['path'].startswith('core::sync::atomic'):
                out.append((fn, sp, f['name']))
    return out


def analyse(cr):
    hits, n = effects(cr)
    g = walk.callgraph(cr)
    writers = {fn.path for fn, sp, k in atomic_writes(cr)}
    reachers = []
    for p, fn in cr.fns.items():
        if fn.exported and fn.body and fn.kind in ('Fn', 'AssocFn'):
            w = walk.reach(g, [p]) & writers
            if w:
                reachers.append((fn, sorted(w)))
    return hits, n, reachers


def cell_like(cr, t, seen=()):
    """the interior-mutable part of a static's type: 'atomic', 'other' or None"""
    if t[0] == 'adt':
        if t[1].startswith('core::sync::atomic'):
            return {'atomic'}
        if t[1] in ('core::cell::UnsafeCell',):
            return {'other'}
        if t in seen:
            return set()
        a = cr.adts.get(t[1])
        if a and a['local']:
            s = set()
            for v in a['variants']:
                for f in v['fields']:
                    s |= cell_like(cr, cr.ty(f['t']), seen + (t,))
            return s
        return {'other'}
    if t[0] in ('array', 'slice', 'ref'):
        return cell_like(cr, t[1], seen)
    if t[0] == 'tuple':
        s = set()
        for x in t[1]:
            s |= cell_like(cr, x, seen)
        return s
    return set()


def run(ctx):
    # the rules must fire on a program that does what they forbid
    out, _, _ = ctx.mirdump(os.path.join(VERIF, 'sa/witness/effects.rs'), 'effects', ('-Cdebug-assertions=off',))
    from crate import Crate
    w = Crate(out)
    hits, _, reachers = analyse(w)
    fired = {}
    for k, key, fn, sp, text in hits:
        fired.setdefault(fn.name, set()).add(k)
    for name, kind in (('clock', 'ambient'), ('environment', 'ambient'), ('stdout', 'ambient'), ('stdin', 'ambient'),
                       ('file', 'ambient'), ('thread', 'ambient'), ('hash_iter', 'hash-order'), ('hash_for', 'hash-order'),
                       ('address', 'address'), ('random', 'ambient'), ('static_mut', 'hidden-state'), ('tls', 'hidden-state')):
        if kind in fired.get(name, ()):
            ctx.ok('self test: forbidden program is recognised', name)
        else:
            ctx.bad('selftest:' + name, 'the rule for %s does not recognise the witness program (analysis defect)' % name, 'self test')
    if not any(fn.name == 'hidden' for fn, ws in reachers):
        ctx.bad('selftest:hidden', 'hidden atomic state is not recognised', 'self test')
    for n in ('pure', 'hash_get'):
        if fired.get(n):
            ctx.bad('selftest:' + n, 'a harmless witness is flagged: %s' % fired[n], 'self test')

    for cfg in ('debug', 'release'):
        cr = ctx.crate(cfg)
        hits, n, reachers = analyse(cr)
        ctx.analysed['function references (%s)' % cfg] = n
        ctx.floor(n, 800, 'function references (%s)' % cfg)
        bad = set()
        for k, key, fn, sp, text in hits:
            ctx.bad(key, '%s (%s) %s' % (fn.path, sp, text), k)
            bad.add(fn.path)
        for fn, body in walk.bodies(cr):
            if fn.path not in bad:
                ctx.ok('no ambient input or output (%s)' % cfg, fn.path)
        # hidden mutable state
        for s in cr.statics:
            kinds = cell_like(cr, cr.ty(s['t']))
            if s['mut']:
                ctx.bad('static:' + s['path'], '%s: mutable static %s' % (s['span'], s['path']), 'hidden state')
            elif s['tls']:
                # storage of a thread_local!: unreachable unless LocalKey methods are called (flagged above)
                ctx.ok('thread-local storage is never accessed by the library', s['path'])
            elif s['freeze']:
                ctx.ok('static is immutable', s['path'])
            elif kinds == {'atomic'}:
                ctx.ok('static holds only the run-time modulus (writers checked)', s['path'])
            else:
                ctx.bad('static:' + s['path'], '%s: static %s holds mutable state' % (s['span'], s['path']), 'hidden state')
        setters = [fn for fn, ws in reachers if fn.name == 'set_modulus']
        if cfg == 'debug':
            ctx.need(setters, 'set_modulus writes the modulus')
        for fn, ws in reachers:
            if fn.name == 'set_modulus':
                ctx.ok('writes shared state: only the modulus setter', fn.path)
            else:
                ctx.bad('write:' + fn.path, '%s (%s) writes shared state through %s, but is not the operation that sets the modulus' % (fn.path, fn.span, ', '.join(ws)), 'hidden state')
        # which statics the setter can reach
        nstat = {}
        for fn, body in walk.bodies(cr):
            for c, sp in walk.consts(fn, body):
                if c.get('c') == 'static':
                    nstat.setdefault(c['path'], set()).add(fn.path)
        for s in cr.statics:
            if not s['freeze'] and not s['tls']:
                users = nstat.get(s['path'], set())
                for u in users:
                    if u.rsplit('::', 1)[-1] != 'companion_barrett':
                        ctx.bad('user:' + u, '%s uses the mutable static %s' % (u, s['path']), 'hidden state')
                    else:
                        ctx.ok('static reached only through the modulus accessor', u)
    ctx.assumptions.append('functions of std outside the listed modules are deterministic functions of their arguments; user-supplied trait impls and closures are the caller\'s own')
