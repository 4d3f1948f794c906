#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: build and validate planted bugs in scratch copies of /repo.
SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=rust source of main.rs)].
A seed is kept in /verif/seeded/<id>/ when: the patch builds, passes the stable tests, and demo.sh is 0 without, nonzero with it."""
import json, os, subprocess, sys, shutil, runpy, tempfile, re
V = '/verif'
DEMO_SH = r'''#!/bin/bash
# Runs demo.rs (beside this file) against the crate in the current directory.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$REPO" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "${T:?}"' EXIT
mkdir -p "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
triangulate = { path = "$REPO" }
[workspace]
EOF
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2> "$T/build.log" || { cat "$T/build.log"; exit 3; }
timeout -k 5 200 "$T/target/debug/demo"
'''
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.rs')).read()

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    W = '/tmp/seedwork'
    shutil.rmtree(W, ignore_errors=True)
    for s in spec['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = V + '/seeded/' + s['id']
        tmpd = '/tmp/seedstage/' + s['id']
        shutil.rmtree(tmpd, ignore_errors=True)
        os.makedirs(tmpd)
        # edit /repo in place (test.sh and build.sh name /repo), then undo
        try:
            ok = True
            for e in s['edits']:
                f, old, new = e[:3]
                n = e[3] if len(e) > 3 else 0
                p = '/repo/' + f
                t = open(p).read()
                if t.count(old) <= n or (len(e) == 3 and t.count(old) != 1):
                    print(s['id'], '?? count', t.count(old), repr(old)[:70])
                    ok = False
                    break
                parts = t.split(old)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, 'w').write(t)
            if not ok:
                continue
            open(tmpd + '/patch.diff', 'w').write(sh('git diff', '/repo').stdout)
            demo = s['demo']
            open(tmpd + '/demo.rs', 'w').write((PRE if s.get('prelude', True) else '') + demo)
            open(tmpd + '/demo.sh', 'w').write(s.get('demo_sh', DEMO_SH))
            os.chmod(tmpd + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(tmpd + '/meta.json', 'w'), indent=1)
            r = sh('timeout 300 bash %s/demo.sh' % tmpd, '/repo')
            if r.returncode == 0:
                print(s['id'], 'demo PASSES with the patch', r.stdout[-300:], r.stderr[-300:])
                continue
            if r.returncode == 3 and not s.get('compile_fail'):
                print(s['id'], 'demo does not build', '\n'.join(re.findall(r'error.*\n.*\n', r.stdout))[:900])
                continue
            fail = (r.returncode, (r.stdout + r.stderr)[-250:])
            b = sh('bash /opt/vp/build.sh', '/repo')
            if b.returncode:
                print(s['id'], 'BUILD FAILS', b.stderr[-600:])
                continue
            sh('bash /opt/vp/test.sh /tmp/s/out.json', '/repo')
            o = json.load(open('/tmp/s/out.json'))
            passed = o.get('passed') or []
            missing = [t for t in base if t not in passed]
            if missing:
                print(s['id'], 'TESTS CATCH IT', missing)
                continue
        finally:
            sh('git checkout -q -- .', '/repo')
        r = sh('timeout 300 bash %s/demo.sh' % tmpd, '/repo')
        if r.returncode:
            print(s['id'], 'demo FAILS unpatched', '\n'.join(re.findall(r'error.*\n.*\n', r.stdout))[:900] or (r.stdout + r.stderr)[-400:])
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmpd, d)
        print(s['id'], 'KEPT', fail)
    shutil.rmtree('/tmp/seedstage', ignore_errors=True)

main()
