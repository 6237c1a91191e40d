#!/usr/bin/env python3
"""Development aid: turns a description of a change (edits + demonstration) into
/verif/seeded/<id>/, after confirming in a scratch copy that it builds, passes the
stable tests and that the demonstration tells the two trees apart; then runs checks.

    plant.py SPECS.py [ID ...]     SPECS.py defines BUGS = [dict(id, prop, edits, demo, needs, breaks)]
    plant.py --check [ID ...]      only run the checks against kept changes
Scratch: /tmp/plant.
"""
import json, os, subprocess, sys, re, shutil
ROOT = '/tmp/plant'
SEEDED = '/verif/seeded'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
NIGHTLY = ENV['RUSTUP_TOOLCHAIN']
STABLE_CHAIN = 'stable-x86_64-unknown-linux-gnu'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = r'''#!/bin/bash
# Builds main.rs beside this file against the genco tree in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=TOOLCHAIN CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$scratch/target"
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat >"$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
genco = { path = "$repo" }
[workspace]
EOF
cd "$scratch" || exit 2
cargo build --offline --quiet || exit 3
timeout 100 "$scratch/target/debug/demo"
'''

def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout ' + (e.stdout or b'').decode(errors='replace')[-500:]

def setup():
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(['rm', '-rf', ROOT + '/repo', ROOT + '/sim'], check=True)
    subprocess.run(['cp', '-a', '/repo', ROOT + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif/sim', ROOT + '/sim'], check=True)
    t = open(ROOT + '/sim/Cargo.toml').read().replace('path = "/repo"', f'path = "{ROOT}/repo"')
    open(ROOT + '/sim/Cargo.toml', 'w').write(t)
    for d in ('evidence', 'replays'):
        os.makedirs(ROOT + '/' + d, exist_ok=True)

def clean():
    sh('git checkout -q -- . && git clean -fdq', ROOT + '/repo')

def tests():
    rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', ROOT + '/repo', dict(ENV, CARGO_TARGET_DIR=ROOT + '/repo/target'))
    bad = re.findall(r'^test (.*) \.\.\. FAILED', o, re.M)
    return rc, bad, o

def build(prop):
    """As run.sh does. Returns the program, or why there is none."""
    def go(chain, target, features):
        env = dict(ENV, RUSTUP_TOOLCHAIN=chain, CARGO_TARGET_DIR=target)
        rc, o = sh(f'cargo build --release --offline --locked --features "{features}"', ROOT + '/sim', env)
        if rc and 'SIM_BUILD_ERROR' not in ENV:
            ENV['SIM_BUILD_ERROR'] = (re.findall(r'^error.*', o, re.M) or [''])[0]
        return rc == 0, o[-1500:]
    ENV.pop('SIM_BUILD_ERROR', None)
    t = ROOT + '/target'
    if prop == 'C15':
        t += '/stable'
        ok, o = go(STABLE_CHAIN, t, 'stable-compiler')
        ok = ok or go(NIGHTLY, ROOT + '/target', '')[0] and go(NIGHTLY, t, 'stable-compiler without-templates')[0]
    else:
        ok, o = go(NIGHTLY, t, '')
        ok = ok or go(NIGHTLY, t, 'without-templates')[0]
    ENV.pop('SIM_BUILD_ERROR', None)
    return (t + '/release/sim', None) if ok else (None, o)

def check(props, runs=None):
    env = dict(ENV, VERIF_DIR=ROOT, VERIF_SEED='1', VERIF_TIER='quick')
    res = {}
    for p in props:
        sim, o = build(p)
        if not sim:
            res[p] = (2, o)
            continue
        rc, o = sh(f'{sim} check --prop {p} --tier quick' + (f' --runs {runs}' if runs else ''), ROOT, env)
        v = [l for l in o.split('\n') if 'VIOLATION' in l or 'runs' in l]
        res[p] = (rc, ' | '.join(v)[:300])
    return res

def plant(b):
    d = f'{SEEDED}/{b["id"]}'
    repo = ROOT + '/repo'
    clean()
    for f, old, new in b['edits']:
        t = open(f'{repo}/{f}').read()
        if t.count(old) != 1:
            return f'{f}: {t.count(old)} matches of {old!r}'
        open(f'{repo}/{f}', 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', repo)
    # every removed line must come from the original tree
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('TOOLCHAIN=TOOLCHAIN', 'TOOLCHAIN=' + (STABLE_CHAIN if b['prop'] == 'C15' else NIGHTLY)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    rc, bad, o = tests()
    if rc:
        return f'REJECT tests: {bad} ' + ('' if bad else o[-1500:])
    rc, o = sh(['bash', d + '/demo.sh'], repo)
    if rc == 0 or rc == 3 and not b.get('nobuild'):
        return f'REJECT demo passes/does not build with the patch (rc={rc}) ' + o[-1500:]
    with_patch = f'rc={rc} ' + o.strip()[-200:]
    r = check([b['prop']])
    clean()
    rc, o = sh(['bash', d + '/demo.sh'], repo)
    if rc:
        return f'REJECT demo fails on the unchanged tree rc={rc}: ' + o[-1500:]
    # sanity: patch applies to /repo HEAD
    rc, o = sh(['git', 'apply', '--check', d + '/patch.diff'], '/repo')
    if rc:
        return 'REJECT does not apply ' + o
    return f'KEPT demo[{with_patch!r}] check {r}'

if __name__ == '__main__':
    setup()
    if sys.argv[1] == '--check':
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for i in ids:
            d = f'{SEEDED}/{i}'
            if not os.path.exists(d + '/meta.json'):
                continue
            m = json.load(open(d + '/meta.json'))
            clean()
            rc, o = sh(['git', 'apply', d + '/patch.diff'], ROOT + '/repo')
            print(i, m['property'], check([m['property']]) if not rc else o, flush=True)
        clean()
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for b in ns['BUGS']:
            if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
                continue
            r = plant(b)
            print(b['id'], b['prop'], r, flush=True)
            if r.startswith(('REJECT', b['edits'][0][0])):
                print('   (left in place for inspection)', flush=True)
