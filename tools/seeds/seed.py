#!/usr/bin/env python3
"""Makes and confirms planted bugs: seed.py [ID...]

Each planted bug is written in bugs/*.py as  bug(id, prop, file, [(old, new)...], demo, needs, breaks).
In a scratch copy of /repo: the change applies, touches original lines only, builds, passes the
stable tests; the demonstration passes without it and fails with it. What is confirmed is stored
in /verif/seeded/ID.
"""
import json, os, re, subprocess, sys, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', '..', 'seeded')
WT = '/tmp/seedwt'
BASE = '0ea1244'
DEMO_SH = '''#!/bin/bash
# Runs demo.rs as an integration test of a scratch copy of the repository it is started in.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$PWD
work=$(mktemp -d) || exit 2
copy=$repo/target/demo
trap 'rm -rf "$work" "$copy"' EXIT
rm -rf "$copy"
mkdir -p "$copy/tests" || exit 2
cp -r src Cargo.toml Cargo.lock "$copy/" && cp "$here/demo.rs" "$copy/tests/demo.rs" || exit 2
printf '\\n[workspace]\\n' >> "$copy/Cargo.toml"
cd "$copy" || exit 2
export DEMO_DIR=$work CARGO_TARGET_DIR=$repo/target
timeout 250 cargo test --offline --test demo -- --test-threads 1
'''
bugs = {}
def bug(id, prop, edits, demo, needs, breaks):
    assert id not in bugs, id
    bugs[id] = (prop, edits, demo, needs, breaks)
PRELUDE = open(os.path.join(HERE, 'prelude.rs')).read()

def sh(cmd, cwd=WT, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def reset():
    sh('git checkout -q -- . ; rm -rf tests/demo.rs')

def tests_pass():
    # the stable tests, in the scratch copy
    env = 'set -e; . /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target;' % WT
    r = sh('bash -c "%s rm -rf BlockChainTree; cargo test --offline --lib --test block_test --test blockchaintree_test --test chain_test --test transaction_test -- --test-threads 1 2>&1"' % env)
    n = sum(int(x) for x in re.findall(r'ok. (\d+) passed; 0 failed', r.stdout))
    return r.returncode == 0 and n == 16, r.stdout

def demo_run(d):
    r = sh('bash %s/demo.sh' % d)
    return r.returncode, r.stdout

def make(id):
    prop, edits, demo, needs, breaks = bugs[id]
    reset()
    for file, old, new in edits:
        p = os.path.join(WT, 'src', file)
        s = open(p).read()
        assert s.count(old) == 1, (id, file, 'occurs', s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff').stdout
    # original lines
    removed = 0
    for file in {e[0] for e in edits}:
        blame = sh('git blame -s HEAD -- src/%s' % file).stdout.splitlines()
        cur = None
        for line in sh('git diff -U0 -- src/%s' % file).stdout.splitlines():
            m = re.match(r'@@ -(\d+)', line)
            if m: cur = int(m.group(1)); continue
            if cur and line.startswith('-'):
                removed += 1
                if not blame[cur - 1].startswith('^' + BASE[:7]):
                    print('  NOTE: not an original line:', line)
                cur += 1
    tmp = '/tmp/seed_' + id
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO_SH)
    open(tmp + '/demo.rs', 'w').write(PRELUDE + demo)
    ok, out = tests_pass()
    if not ok:
        print(id, 'TESTS FAIL'); print(out[-3000:]); reset(); return False
    rc1, out1 = demo_run(tmp)
    if rc1 == 0 or 'error: could not compile' in out1 or 'error[E' in out1:
        print(id, 'demo does not fail with the change'); print(out1[-3000:]); reset(); return False
    reset()
    rc0, out0 = demo_run(tmp)
    if rc0 != 0:
        print(id, 'demo fails without the change'); print(out0[-3000:]); return False
    dst = os.path.join(SEEDED, id)
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    open(dst + '/patch.diff', 'w').write(diff)
    shutil.copy(tmp + '/demo.sh', dst); os.chmod(dst + '/demo.sh', 0o755)
    shutil.copy(tmp + '/demo.rs', dst)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(dst + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    why = [l for l in out1.splitlines() if 'panicked' in l or 'FAIL' in l][:2]
    print(id, 'confirmed', '' if removed else '(ADDS LINES ONLY)', why, flush=True)
    return True

for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(os.path.join(SEEDED, i, 'meta.json'))]
if not os.path.exists(WT):
    subprocess.check_call(['cp', '-a', '/repo', WT])
else:
    sh('git checkout -q -- .; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
bad = [i for i in ids if not make(i)]
print('not confirmed:', bad)
