"""Builds /verif/seeded/<id>/ from tools/seeds_src.py and confirms each planted bug in a scratch copy of /repo:
applies, builds, stable tests pass, demonstration passes without and fails with the change."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds_src import SEEDS
W = '/tmp/seedwork'
DEMO = '''#!/bin/sh
# builds and runs main.rs (beside this file) against the crate in the current directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrust-cp = { path = "%%s" }\\n[workspace]\\n%s' "$R" > "$T/Cargo.toml"
cd "$T" || exit 99
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
timeout 120 cargo run -q --offline%s
'''


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = sys.argv[1:]
    if os.path.isdir(W):
        shutil.rmtree(W)
    subprocess.check_call(['cp', '-a', '/repo', W])
    stable = None
    base = json.load(open('/opt/vp/BASELINE.json'))
    fails = []
    for s in SEEDS:
        d = os.path.join(V, 'seeded', s['id'])
        if ids and s['id'] not in ids or not ids and os.path.exists(d + '/patch.diff'):
            continue
        sh('git checkout -q -- .')
        for f, a, b in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'EDIT MATCHES', t.count(a), repr(a))
                fails.append(s['id'])
                break
            open(p, 'w').write(t.replace(a, b))
        else:
            diff = sh('git diff').stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            rel = s.get('release')
            open(d + '/demo.sh', 'w').write(DEMO % ('' if not rel else '', ' --release' if rel else ''))
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write(s['main'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
            t = sh('cargo test --workspace --no-fail-fast --offline 2>&1 | grep "^test result\\|^error\\|FAILED"', env=env)
            good = t.stdout.count('test result: ok') == 2 and 'FAILED' not in t.stdout and 'error' not in t.stdout
            after = sh('sh %s/demo.sh' % d, env=env)
            sh('git checkout -q -- .')
            before = sh('sh %s/demo.sh' % d, env=env)
            ok = good and before.returncode == 0 and after.returncode not in (0, 99)
            print(s['id'], 'OK' if ok else 'FAIL', 'tests', good, 'before', before.returncode, 'after', after.returncode)
            if not ok:
                fails.append(s['id'])
                print(t.stdout[-600:], before.stdout[-800:], after.stdout[-800:])
    shutil.rmtree(W)
    if fails:
        print('FAILED:', fails)


main()
