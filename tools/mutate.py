#!/usr/bin/env python3
"""Development aid: plants many small changes in scratch copies of genco, keeps
those that build and pass the stable tests, and reports which checks notice them.

    mutate.py list                        all candidate changes, one per line
    mutate.py run WORKERS OUT [N [SEED]]  try N of them
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob

ROOT = '/tmp/mut'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
PROPS = ['C01', 'C13', 'C06', 'C07', 'C09', 'C08', 'C10', 'C11', 'C02', 'C03', 'C12', 'C14', 'C05', 'C04']
RUNS = dict(C12=6000, C14=12000, C04=40000)

OPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.rev\(\)', ''), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
    (r'\bcontinue;', ''), (r'\bis_empty\(\)', 'is_empty() == false'), (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'\b1\b', '2'), (r'Some\((\w+)\)$', 'None'), (r'Ok\(\(\)\)', 'Err(core::fmt::Error)'),
    (r'\.saturating_sub\(', '.wrapping_sub('), (r'\.next\(\)', '.next_back()'), (r'\.take\(\)', '.clone()'), (r'\bmax\(', 'min('), (r'\bmin\(', 'max('),
    (r'\.clear\(\)', '.len()'), (r'Push\b', 'Line'), (r'Line\b', 'Push'), (r'\.push\(\)', '.line()'), (r'\.line\(\)', '.push()'), (r'\.space\(\)', '.push()'),
    (r'\.indent\(\)', '.push()'), (r'\.unindent\(\)', '.push()'), (r'BTreeSet', 'HashSet'), (r'BTreeMap', 'HashMap'),
    (r'\.pop\(\)', '.last().cloned()'), (r'\.insert\(([^;]*)\);', r'.insert(\1); // x'), (r'\.extend\(', '.clone().extend('),
    (r'\bif (.*) \{$', r'if !(\1) {'), (r'\bif (?!let)(.*) \{$', r'if true || (\1) {'), (r'\bif (?!let)(.*) \{$', r'if false && (\1) {'),
    (r'\?;$', '.ok();'), (r"'(.)'", r"'_'"), (r'"([^"\\]+)"', r'""'), (r'"([^"\\]+)"', r'"\1 "'), (r'(\w+): (\w+),$', r'\1: Default::default(),'),
    (r'Indentation\((\w+)\)', r'Indentation(-\1)'), (r'\.cmp\(([^,()]*)\)', r'.cmp(\1).reverse()'), (r'\.flatten\(\)', '.flatten().take(1)'),
    (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\bin (.*) \{$', r'in (\1).into_iter().skip(1) {'),
]

def candidates():
    out = []
    files = sorted(glob.glob('/repo/src/**/*.rs', recursive=True) + glob.glob('/repo/genco-macros/src/**/*.rs', recursive=True))
    for f in files:
        rel = os.path.relpath(f, '/repo')
        lines = open(f).read().split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod '):
                continue
            if s.startswith('#[cfg(test)]'):
                break
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    try:
                        n = l[:m.start()] + m.expand(rep) + l[m.end():]
                    except re.error:
                        continue
                    if n != l:
                        out.append((rel, i, l, n))
            if s.endswith(';') and not s.startswith(('let ', 'type ', 'const ', 'static ', 'return', 'fn ', 'pub ')) and '{' not in s:
                out.append((rel, i, l, ''))
            if re.match(r'.*=> .*,$', s):
                out.append((rel, i, l, ''))
    seen, uniq = set(), []
    for c in out:
        k = (c[0], c[1], c[3])
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq

def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run('echo 19 > /proc/self/autogroup; ' + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=True, start_new_session=True)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -f {cwd.rsplit('/', 1)[0]}/", shell=True)
        return 124, 'timeout'

def setup(w):
    d = f'{ROOT}/w{w}'
    if os.path.isdir(d):
        subprocess.run(['rm', '-rf', d])
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif/sim', d + '/sim'], check=True)
    t = open(d + '/sim/Cargo.toml').read().replace('path = "/repo"', f'path = "{d}/repo"')
    open(d + '/sim/Cargo.toml', 'w').write(t)
    return d

def tests(d):
    env = dict(ENV, CARGO_TARGET_DIR=d + '/repo/target')
    rc, o = sh('cargo check --lib --workspace --offline', d + '/repo', env, 300)
    if rc:
        return 'nobuild'
    rc, o = sh('cargo test --workspace --offline -- --test-threads 4', d + '/repo', env, 240)
    if rc:
        return 'tests'
    return None

def checks(d, props=PROPS, all_=False):
    env = dict(ENV, CARGO_TARGET_DIR=d + '/target', VERIF_DIR=d, SIM_NO_SHRINK='1', VERIF_SEED='1')
    rc, o = sh('cargo build --release --offline --locked', d + '/sim', env, 600)
    if rc:
        return ['nobuild:' + o[-300:]]
    os.makedirs(d + '/evidence', exist_ok=True)
    os.makedirs(d + '/replays', exist_ok=True)
    hits = []
    for p in props:
        rc, o = sh(f'{d}/target/release/sim check --prop {p} --runs {RUNS.get(p, 120000)}', d, env, 400)
        if rc != 0:
            m = re.search(r'VIOLATION.*', o)
            hits.append(p + ':' + str(rc) + (' ' + o.strip().split('\n')[-1][:300] if rc != 1 or True else ''))
            if not all_:
                break
    return hits

def worker(w, q, out, lock):
    d = setup(w)
    env0 = tests(d)
    h0 = checks(d)
    with lock:
        print('worker', w, 'baseline', env0, h0, flush=True)
    if env0 or h0:
        return
    while True:
        try:
            rel, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        path = f'{d}/repo/{rel}'
        src = open(path).read()
        lines = src.split('\n')
        assert lines[i] == old
        lines[i] = new
        open(path, 'w').write('\n'.join(lines))
        r = tests(d)
        h = []
        if r is None:
            h = checks(d)
            r = 'caught' if h else 'SURVIVED'
        open(path, 'w').write(src)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(dict(file=rel, line=i + 1, old=old, new=new, result=r, hits=h)) + '\n')

if __name__ == '__main__':
    c = candidates()
    if sys.argv[1] == 'list':
        for x in c:
            print(f'{x[0]}:{x[1]+1}: {x[2].strip()}  ->  {x[3].strip()}')
        print(len(c))
    else:
        n = int(sys.argv[2])
        out = sys.argv[3]
        cnt = int(sys.argv[4]) if len(sys.argv) > 4 else len(c)
        random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(c)
        done = set()
        if os.path.exists(out):
            for l in open(out):
                x = json.loads(l)
                done.add((x['file'], x['line'] - 1, x['new']))
        c = [x for x in c if (x[0], x[1], x[3]) not in done][:cnt]
        q = queue.Queue()
        for x in c:
            q.put(x)
        lock = threading.Lock()
        ts = [threading.Thread(target=worker, args=(w, q, out, lock)) for w in range(n)]
        for t in ts: t.start()
        for t in ts: t.join()
