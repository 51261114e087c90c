#!/usr/bin/env python3
"""Authoring helper for planted bugs: tools/mkbug.py SPEC.py builds seeded/<id>/ in place and confirms it in a scratch copy.
SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], DEMO (Rust test source), CRATE='proof_of_space'."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Builds a scratch copy of the crate with one extra test module and runs it. cwd = repository root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/c"
cp "$repo/@CRATE@/Cargo.toml" "$t/c/" && cp -r "$repo/@CRATE@/src" "$t/c/src" || exit 3
if [ -f "$repo/@CRATE@/Cargo.lock" ]; then cp "$repo/@CRATE@/Cargo.lock" "$t/c/"; else cp "$here/Cargo.lock" "$t/c/"; fi
printf '\\n[workspace]\\n' >> "$t/c/Cargo.toml"
@PRE@cp "$here/demo.rs" "$t/c/src/vp_demo.rs"
printf '\\n#[cfg(test)] mod vp_demo;\\n' >> "$t/c/src/main.rs"
cd "$t/c" || exit 3
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_TEST_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cargo test --offline vp_demo -- --test-threads 1
'''
def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    id, crate = g['ID'], g.get('CRATE', 'proof_of_space')
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='bug-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        r = t + '/repo'
        for e in g['EDITS']:
            p = os.path.join(r, e[0]); s = open(p).read()
            n = s.count(e[1]); k = e[3] if len(e) > 3 else None
            if k is None:
                assert n == 1, '%s: %d occurrences of %r' % (e[0], n, e[1])
                s = s.replace(e[1], e[2])
            else:
                parts = s.split(e[1]); assert n > k
                s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
            open(p, 'w').write(s)
        c, diff = sh('git diff', r); open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.rs'), 'w').write(g['DEMO'])
        pre = ''
        if crate == 'proof_of_storage': pre = "sed -i '/mod zk_vde;/d' \"$t/c/src/main.rs\"\n"
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH.replace('@CRATE@', crate).replace('@PRE@', pre)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        shutil.copy(os.path.join(V, 'locks', crate + '.lock'), os.path.join(d, 'Cargo.lock'))
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        c, o = sh('bash %s/demo.sh' % d, r)
        print('demo with bug: exit %d (want nonzero)' % c)
        if c == 0 or '--v' in sys.argv: print(o[-1500:])
        if 'error: could not compile' in o or 'error[' in o: print('DEMO DOES NOT COMPILE', o[-3000:])
        if crate == 'proof_of_space':
            c2, o2 = sh('. /opt/vp/env.sh; cd %s/proof_of_space && mkdir -p src/mimc/data && cargo test --offline -- --test-threads 8 --skip proof_of_space::pospace::' % r, r)
            print('tests with bug:', [l for l in o2.split('\n') if 'test result' in l or 'FAILED' in l][:6] or o2[-800:])
        sh('git checkout -- .', r)
        c, o = sh('bash %s/demo.sh' % d, r)
        print('demo without bug: exit %d (want 0)' % c)
        if c: print(o[-2500:])
    finally: shutil.rmtree(t)
main(sys.argv[1])
