"""Running a check: dumps /repo's current source, runs the analyses, writes evidence and verdict."""
import json, os, subprocess, sys, time, shutil, tempfile, traceback, multiprocessing, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'target/driver/debug/mirdump')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def ensure_driver():
    if not os.path.exists(DRIVER):
        subprocess.check_call(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'driver'),
                              env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, 'target/driver')),
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


class Timeout(Exception):
    pass


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.violations = []      # (key, text)
        self.undecided = []
        self.obls = []            # (rule, instance, verdict)
        self.notes = []
        self.analysed = {}
        self.assumptions = []
        self.trusted = ['rustc 1.101 nightly front end (type check, MIR construction)',
                        'models of std in sa/prelude/lib.rs and sa/builtins_.py']
        self.level = 'other'
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = None
        self._crates = {}
        self.missing = []
        self.budget = 780

    # ---------------------------------------------------------- sources
    def tmpdir(self):
        if self.tmp is None:
            base = os.path.join(VERIF, 'target')
            os.makedirs(base, exist_ok=True)
            self.tmp = tempfile.mkdtemp(prefix='run-', dir=base)
        return self.tmp

    def mirdump(self, src, name, flags=(), externs=(), out=None, check=True):
        ensure_driver()
        d = self.tmpdir()
        out = out or os.path.join(d, '%s-%d.json' % (name, len(os.listdir(d))))
        sr = sysroot()
        env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', MIRDUMP_OUT=out)
        meta = out[:-5] + '.rmeta'
        md = os.path.join(d, 'lib' + os.path.basename(out)[:-5] + '.rmeta')
        cmd = [DRIVER, '--sysroot', sr, '--edition', '2021', '--crate-type', 'lib', '--crate-name', name,
               src, '--emit', 'metadata', '-o', md, '-Awarnings'] + list(flags)
        for n, p in externs:
            cmd += ['--extern', '%s=%s' % (n, p)]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            if check:
                raise RuntimeError('front end failed on %s:\n%s' % (src, r.stdout[-3000:]))
            return None, r.stdout, md
        return out, r.stdout, md

    DEBUG = ('-Cdebug-assertions=on',)
    RELEASE = ('-Cdebug-assertions=off', '-Coverflow-checks=off', '-Copt-level=3')

    def crate(self, config='debug'):
        if config not in self._crates:
            from crate import Crate
            if config == 'prelude':
                out, _, _ = self.mirdump(os.path.join(VERIF, 'sa/prelude/lib.rs'), 'sa_prelude', ('-Cdebug-assertions=off',))
            else:
                out, _, _ = self.mirdump(os.path.join(REPO, 'src/lib.rs'), 'rust_cp',
                                         self.DEBUG if config == 'debug' else self.RELEASE)
            self._crates[config] = Crate(out)
        return self._crates[config]

    def crates(self, config='debug'):
        return [self.crate(config), self.crate('prelude')]

    # ---------------------------------------------------------- results
    def ok(self, rule, inst):
        self.obls.append((rule, inst, 'ok'))

    def bad(self, key, text, rule=None):
        self.obls.append((rule or key, text[:200], 'violated'))
        self.violations.append((key, text))

    def skip(self, rule, inst, why):
        self.obls.append((rule, inst, 'undecided'))
        self.undecided.append((rule, inst, str(why)[:400]))

    def need(self, cond, what):
        """an anchor that must exist"""
        if not cond:
            self.bad('anchor:' + what, 'anchor not found: ' + what, 'anchor')
        return cond

    def floor(self, n, k, what):
        if n < k:
            self.bad('floor:' + what, 'only %d %s analysed, at least %d expected' % (n, what, k), 'count floor')

    def tasks(self, fs, limit=None, procs=8):
        """run independent analyses in forked workers; each returns a list of
        ('ok', rule, inst) / ('bad', key, text) / ('skip', rule, inst, why) / ('an', kind, name)"""
        limit = limit or max(30, self.budget - (time.time() - self.t0))
        q = list(enumerate(fs))
        results = {}
        running = {}
        while q or running:
            while q and len(running) < procs:
                i, (name, f, *a) = q.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    try:
                        def alarm(*_):
                            raise Timeout('time limit')
                        signal.signal(signal.SIGALRM, alarm)
                        left = self.budget - (time.time() - self.t0)
                        signal.alarm(int(max(5, min(limit, left))))
                        try:
                            r = f(*a)
                        except Timeout as e:
                            r = [('skip', 'analysis', name, 'time limit')]
                        except Exception as e:
                            r = [('skip', 'analysis', name, '%s: %s' % (type(e).__name__, e)),
                                 ('trace', traceback.format_exc())]
                        signal.alarm(0)
                        data = json.dumps(r).encode()
                    except BaseException as e:
                        data = json.dumps([('skip', 'analysis', name, repr(e))]).encode()
                    os.write_all = None
                    with os.fdopen(wr, 'wb') as w:
                        w.write(data)
                    os._exit(0)
                os.close(wr)
                running[rd] = (i, name, pid, b'')
            import select
            rs, _, _ = select.select(list(running), [], [], 5)
            for rd in rs:
                i, name, pid, buf = running[rd]
                chunk = os.read(rd, 1 << 16)
                if chunk:
                    running[rd] = (i, name, pid, buf + chunk)
                    continue
                os.close(rd)
                del running[rd]
                os.waitpid(pid, 0)
                try:
                    results[i] = json.loads(buf.decode())
                except Exception:
                    results[i] = [('skip', 'analysis', name, 'worker died')]
        for i in sorted(results):
            for r in results[i]:
                self.absorb(r)
        return [results[i] for i in sorted(results)]

    def absorb(self, r):
        k = r[0]
        if k == 'ok':
            self.ok(r[1], r[2])
        elif k == 'bad':
            self.bad(r[1], r[2], r[3] if len(r) > 3 else None)
        elif k == 'skip':
            self.skip(r[1], r[2], r[3])
        elif k == 'an':
            self.analysed[r[1]] = self.analysed.get(r[1], 0) + (r[2] if len(r) > 2 and isinstance(r[2], int) else 1)
        elif k == 'trace':
            if os.environ.get('SA_DEBUG'):
                print(r[1], file=sys.stderr)
        elif k == 'note':
            self.notes.append(r[1])

    # ---------------------------------------------------------- verdict
    def finish(self):
        known = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                if l.startswith('finding: property=%s ' % self.pid):
                    rest = l.split(' ', 2)[2].strip()
                    key, _, what = rest.partition(' :: ')
                    known[key[4:] if key.startswith('key=') else key] = what
        rc = 0
        nviol = 0
        shown = set()
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        out = []
        seen = set()
        for key, text in self.violations:
            if key in seen:
                continue
            seen.add(key)
            if key in known:
                if key not in shown:
                    out.append('KNOWN-FINDING: property=%s %s' % (self.pid, known[key]))
                    shown.add(key)
                continue
            rp = os.path.join(evd, '%s-%d.txt' % (self.pid, nviol))
            with open(rp, 'w') as f:
                f.write('property %s\nkey %s\n\n%s\n' % (self.pid, key, text))
            nviol += 1
            out.append('VIOLATION property=%s replay=%s' % (self.pid, rp))
            out.append('  %s: %s' % (key, text.split('\n')[0][:300]))
            rc = 1
        tot = len(self.obls)
        good = sum(1 for o in self.obls if o[2] == 'ok')
        rules = {}
        for r, inst, v in self.obls:
            d = rules.setdefault(r, {'ok': 0, 'violated': 0, 'undecided': 0})
            d[v] += 1
        samples = {}
        for r, inst, v in self.obls:
            samples.setdefault(r, [])
            if len(samples[r]) < 4:
                samples[r].append('%s: %s' % (v, inst))
        cov = {'obligations': tot, 'discharged': good, 'undecided': len(self.undecided),
               'explanation': 'static analysis of the MIR of /repo/src; rule instances and verdicts are listed per rule',
               'rules': rules, 'samples': [s for v in samples.values() for s in v][:40],
               'analysed': self.analysed, 'undecided_list': [list(u) for u in self.undecided[:40]],
               'known_findings': sorted(shown), 'notes': self.notes[:20],
               'trusted_base': self.trusted, 'checker_cmd': './check.sh ' + self.pid}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        json.dump(ev, open(os.path.join(evd, self.pid + '.json'), 'w'), indent=1)
        for l in out:
            print(l)
        print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs'
              % (self.pid, tot, good, len(self.undecided), nviol, time.time() - self.t0))
        if self.undecided and os.environ.get('SA_DEBUG'):
            for u in self.undecided[:12]:
                print('  undecided', str(u)[:400])
        return rc

    def cleanup(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None
