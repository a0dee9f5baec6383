#!/usr/bin/env python3
"""Plants a bug: mkseed.py ID < spec. Spec (python dict literal): property, edits [(file, from, to)], demo (rust main.rs), needs, breaks.
Confirms in a scratch copy: applies, builds, stable tests pass, demo 0 without and nonzero with it. Writes /verif/seeded/ID."""
import ast, json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed/repo'
DEMO = '''#!/bin/bash
# run in /repo: builds demo.rs against the crate there, in a scratch directory
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export PATH="/root/.cargo/bin:$PATH"
mkdir -p "$T/src"; cp "$H/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
aoc-parse = { path = "$R" }
num-bigint = "0.4"
[workspace]
X
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$T/log" || { %s tail -30 "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sid = sys.argv[1]
    spec = ast.literal_eval(sys.stdin.read())
    if not os.path.isdir(S):
        os.makedirs('/tmp/seed', exist_ok=True)
        sh('cp -a /repo ' + S)
    r = sh('cd %s && git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % S)
    if r.returncode:
        sys.exit(r.stdout)
    D = os.path.join(V, 'seeded', sid)
    os.makedirs(D, exist_ok=True)
    open(D + '/demo.rs', 'w').write(spec['demo'])
    d = DEMO % ''
    if spec.get('must_fail'):       # the pattern in demo.rs has to be rejected; a twin shows that the rest builds
        d = d.replace('cargo build --offline -q 2>"$T/log" || {  tail -30 "$T/log"; exit 3; }\n', 'cargo build --offline -q 2>"$T/log" && { echo "accepted"; exit 1; }\ngrep -q "error" "$T/log" || exit 3\n'
                      'grep -q "could not compile .demo" "$T/log" || { tail -30 "$T/log"; exit 3; }\nexit 0\n')
    if spec.get('compile'):
        d = d.replace('exit 3; }\ntimeout', 'exit 1; }\ntimeout')
    open(D + '/demo.sh', 'w').write(d)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    if 'skipbase' not in sys.argv:
        b = sh('bash %s/demo.sh' % D, cwd=S)
        if b.returncode:
            print(sid, 'DEMO FAILS ON BASE', b.returncode, b.stdout[-1500:])
            shutil.rmtree(D)
            return
    for f, a, t in spec['edits']:
        p = os.path.join(S, f)
        s = open(p).read()
        if s.count(a) < 1:
            print(sid, 'NOT FOUND', f, a)
            shutil.rmtree(D)
            return
        open(p, 'w').write(s.replace(a, t, 1))
    open(D + '/patch.diff', 'w').write(sh('git diff', cwd=S).stdout)
    t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=S)
    bad = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    w = sh('bash %s/demo.sh' % D, cwd=S)
    ok = t.returncode == 0 and w.returncode not in (0, 3)
    print(sid, spec['property'], 'KEPT' if ok else 'REJECTED', 'tests', t.returncode, bad[:4], 'demo', w.returncode, w.stdout.strip().splitlines()[-2:])
    if not ok:
        if '-v' in sys.argv:
            print(t.stdout[-3000:], w.stdout[-2000:])
        shutil.rmtree(D)
    sh('git checkout -q .', cwd=S)


main()
