#!/usr/bin/env python3
"""seed.py FILE.py : make planted bugs. FILE.py has SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Each is confirmed: builds, stable tests pass, demo.sh 0 without and nonzero with the change; then written to /verif/seeded/<id>."""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd at the repository: builds main.rs against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
bae_rs = { path = "$repo" }
wav = "0.3"
petgraph = "0.5"
[workspace]
EOT
cd "$d" && cargo build --quiet --offline 2>build.log || { cat build.log; exit 2; }
timeout 120 "$d/target/debug/demo"
'''
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only:
        continue
    d, R = '/tmp/seedtmp', '/tmp/seedrepo'
    for x in (d, R):
        shutil.rmtree(x, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo %s; git -C %s checkout -q -- .' % (R, R))
    open(d + '/main.rs', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    ok = []
    try:
        for f, old, new in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % R).stdout
        b = sh('sed s#/repo#%s# /opt/vp/build.sh | bash' % R)
        t = sh('sed s#/repo#%s# /opt/vp/test.sh | bash -s %s/o.json' % (R, d))
        try:
            o = json.load(open(d + '/o.json'))
            passed = {k for k, v in o.items() if v == 'passed'} if 'passed' not in o else set(o['passed'])
        except Exception as e:
            passed = set()
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
    finally:
        sh('git -C %s checkout -- .' % R)
    good = b.returncode == 0 and stable <= passed and r0.returncode == 0 and r1.returncode not in (0, 2)
    print(s['id'], 'OK' if good else 'BAD', 'build', b.returncode, 'tests missing', sorted(stable - passed)[:3], 'demo', r0.returncode, r1.returncode, flush=True)
    if not good:
        print(r0.stdout[-800:], r0.stderr[-800:], r1.stdout[-500:], b.stderr[-500:] if b.returncode else '')
        continue
    D = os.path.join(V, 'seeded', s['id'])
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(diff)
    open(D + '/main.rs', 'w').write(s['demo'])
    open(D + '/demo.sh', 'w').write(DEMO)
    os.chmod(D + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(D + '/meta.json', 'w'), indent=1)
