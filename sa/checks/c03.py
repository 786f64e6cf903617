"""C03: the tracing macro in client crates, in both build profiles (compile witnesses + MIR of their expansion)."""
import os
import walk
from ctx import VERIF, REPO

# invocation form -> number of arguments
FORMS = [('none', '', 0), ('one', 'e1()', 1), ('one_trailing', 'e1(),', 1), ('two', 'e1(), e2()', 2),
         ('two_trailing', 'e1(), e2(),', 2), ('three', 'e1(), e2(), e3()', 3), ('five', 'e1(), e2(), e3(), e4(), e5()', 5),
         ('ten', ', '.join('e%d()' % i for i in range(1, 11)), 10), ('block', '{ let x = e1(); x + 1 }', 1),
         ('nested', '(e1(), e2())', 2), ('string', 's1()', 1), ('unsized_ref', 'r1()', 1)]
CALLS = ['rust_cp::de!(%s);', 'if cond() { rust_cp::de!(%s); }', 'for _ in 0..1usize { rust_cp::de!(%s); }']
OK_STD = ('core::fmt::', 'std::io::stdio::_eprint', 'alloc::fmt', 'core::ops::drop')
ALIASES = [('use', 'use rust_cp::de; pub fn w() { de!(super::e1()); de!(); de!(super::e1(), super::e2(),); }'),
           ('rename', 'use rust_cp::de as trace; pub fn w() { trace!(super::e1()); trace!(); }'),
           ('macro_shadow', 'macro_rules! debug_single { ($($t:tt)*) => { compile_error!("shadowed") } } pub fn w() { rust_cp::de!(super::e1()); }')]


def witness(name, args, ctxt):
    defs = '\n'.join('pub fn e%d() -> u32 { %d }' % (i, i) for i in range(1, 11))
    return ('#![allow(dead_code)]\n%s\npub fn s1() -> String { String::new() }\npub fn r1() -> &\'static str { "x" }\n'
            'pub fn cond() -> bool { true }\npub fn w() { %s }\n' % (defs, ctxt % args))


def counts_on_paths(body):
    """(min, max) executions of each callee on any path from entry to return (loops counted once)"""
    from crate import Body
    B = Body(body)
    memo = {}

    def go(b, seen):
        if b in seen:
            return None
        if b in memo:
            return memo[b]
        t = body['blocks'][b]['t']
        own = {}
        if t['k'] == 'call' and t['f'].get('c') == 'fn':
            own[t['f']['f']['path']] = 1
        ss = B.succs(b)
        if t['k'] == 'return' or not ss:
            r = ({k: v for k, v in own.items()}, dict(own))
            if t['k'] != 'return':
                r = None
            memo[b] = r
            return r
        rs = [x for x in (go(s, seen | {b}) for s in ss) if x is not None]
        if not rs:
            r = None
        else:
            ks = set(own)
            for lo, hi in rs:
                ks |= set(lo) | set(hi)
            lo = {k: min(x[0].get(k, 0) for x in rs) + own.get(k, 0) for k in ks}
            hi = {k: max(x[1].get(k, 0) for x in rs) + own.get(k, 0) for k in ks}
            r = (lo, hi)
        memo[b] = r
        return r
    return go(0, frozenset())


def run(ctx):
    from crate import Crate
    for cfg, flags in (('debug', ctx.DEBUG), ('release', ctx.RELEASE)):
        out, txt, md = ctx.mirdump(os.path.join(REPO, 'src/lib.rs'), 'rust_cp', flags)
        ext = [('rust_cp', md)]
        d = ctx.tmpdir()
        n = 0
        for name, args, k in FORMS:
            for ci, c in enumerate(CALLS):
                n += 1
                src = os.path.join(d, 'w_%s_%s_%d.rs' % (cfg, name, ci))
                with open(src, 'w') as f:
                    f.write(witness(name, args, c))
                inst = '%s: %s' % (cfg, c % args)
                o, txt, _ = ctx.mirdump(src, 'w_%s_%d' % (name, ci), flags, ext, check=False)
                if o is None:
                    ctx.bad('accept:%s:%s' % (cfg, name), 'in a %s build the macro does not accept `%s` (src/misc/debug.rs, de!):\n%s'
                            % (cfg, c % args, txt[:1500]), 'invocation accepted')
                    continue
                ctx.ok('invocation accepted', inst)
                w = Crate(o)
                fn = [f for f in w.fns.values() if f.name == 'w'][0]
                others = [f for f in w.fns.values() if f.path.startswith(fn.path + '::') and f.body]
                argf = ['w_%s_%d::%s' % (name, ci, a) for a in (['s1'] if name == 'string' else ['r1'] if name == 'unsized_ref' else ['e%d' % i for i in range(1, k + 1)])] if k else []
                called = set()
                for b in [fn] + others:
                    for bd in [b.body] + b.promoted:
                        for f, sp in walk.fnrefs(b, walk.prune_const(bd)):
                            called.add(walk.target(f))
                if ci == 0:
                    r = counts_on_paths(walk.prune_const(fn.body))
                    lo, hi = r if r else ({}, {})
                    for a in argf:
                        want = 1 if cfg == 'debug' else 0
                        got = (lo.get(a, 0), hi.get(a, 0))
                        inner = any(walk.target(f) == a for b in others for f, sp in walk.fnrefs(b, walk.prune_const(b.body)))
                        if got == (want, want) and not inner:
                            ctx.ok('argument evaluated %s' % ('exactly once' if want else 'never'), inst + ' ' + a.split('::')[-1])
                        else:
                            ctx.bad('eval:%s:%s' % (cfg, name), '`%s` in a %s build evaluates %s between %d and %d times, expected %d (src/misc/debug.rs, de!)'
                                    % (c % args, cfg, a.split('::')[-1], got[0], got[1], want), 'argument evaluation')
                own = {f for f in called if f.startswith('w_')}
                std = called - own
                if cfg == 'debug':
                    prints = [f for f in std if '_print' in f or 'stdout' in f or 'stdio' in f and not f.endswith('_eprint')]
                    errs = [f for f in std if f.endswith('stdio::_eprint')]
                    for f in prints:
                        ctx.bad('stdout:%s' % cfg, '`%s` writes to %s' % (c % args, f), 'standard error only')
                    if not prints and errs:
                        ctx.ok('writes to standard error only', inst)
                    elif not errs:
                        ctx.bad('silent:%s:%s' % (cfg, name), '`%s` writes nothing in a debug build' % (c % args), 'standard error only')
                else:
                    extra = {f for f in own if f.split('::')[-1] != 'cond'} | {f for f in std if 'ops::range' not in f and 'iter::' not in f and 'default' not in f}
                    if extra:
                        ctx.bad('release:%s' % name, '`%s` still calls %s in an optimised build' % (c % args, ', '.join(sorted(extra))), 'nothing in optimised builds')
                    else:
                        ctx.ok('evaluates and writes nothing in optimised builds', inst)
        for name, src_ in ALIASES:
            src = os.path.join(d, 'a_%s_%s.rs' % (cfg, name))
            with open(src, 'w') as f:
                f.write('#![allow(dead_code)]\npub fn e1() -> u32 { 1 }\npub fn e2() -> u32 { 2 }\nmod m { %s }\n' % src_)
            o, txt, _ = ctx.mirdump(src, 'a_' + name, flags, ext, check=False)
            if o is None:
                ctx.bad('accept:%s:%s' % (cfg, name), 'client program does not compile in a %s build (%s):\n%s\n%s' % (cfg, name, src_, txt[:1500]), 'invocation accepted')
            else:
                ctx.ok('usable from a client crate (%s)' % name, cfg)
        ctx.analysed['witness programs (%s)' % cfg] = n + len(ALIASES)
    ctx.assumptions.append('std::io::_eprint writes to standard error')
