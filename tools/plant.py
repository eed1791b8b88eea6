#!/usr/bin/env python3
"""Confirms planted bugs in scratch clones of /repo and keeps them under /verif/seeded.

plant.py BATCH.py [id...]   BATCH.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
A bug is kept when the patch builds, every test that passes on the clean clone still passes,
and the demonstration passes without it and fails with it.
"""
import sys, os, re, json, subprocess, shutil, pathlib, threading, queue
V = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path('/tmp/plant'); S.mkdir(exist_ok=True)
BASE = 'b3f0f5a'
DEMO_SH = '''#!/bin/bash
# Run with cwd at the repository. Builds a small program against it in a scratch directory and runs it there.
R="$(pwd)"; H="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap '/bin/rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/run" && cp "$H/demo.rs" "$W/src/main.rs" && cp "$H/demo.lock" "$W/Cargo.lock" || exit 2
cat >"$W/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
figment = { path = "$R", features = ["env", "json", "toml", "yaml", "test"] }
serde = { version = "1", features = ["derive"] }
EOT
cd "$W" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" cargo build -q --offline || exit 2
cp "${DEMO_TARGET:-$W/target}/debug/demo" "$W/demo" && cd "$W/run" && TMPDIR="$W/run" timeout 60 "$W/demo"
'''
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, CARGO_NET_OFFLINE='true'); e.update(env or {})
    e.pop('RUSTFLAGS', None)
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace')
def tests(c):
    rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4', c)
    return rc, {m[0] for m in re.findall(r'^test (.*?) \.\.\. ok', o, re.M)} if True else None, o
def work(w, q, out):
    c = S / f'clone{w}'
    sh(f'rm -rf {c}; cp -a /repo {c}; git -C {c} checkout -q -- .; git -C {c} clean -qfd', '/')
    clean = None
    while True:
        try: b = q.get_nowait()
        except queue.Empty: break
        log = []
        try: ok = one(b, c, w, log)
        except Exception as e: ok = False; log.append(repr(e))
        sh('git checkout -q -- .', c)
        out.append((b['id'], ok, log)); print(('KEPT ' if ok else 'REJECTED ') + b['id'], *[l[-1500:] for l in log], flush=True)
    sh(f'rm -rf {c} {S}/target{w}', '/')
LOCK = threading.Lock(); CLEAN = {}
def one(b, c, w, log):
    d = S / f'demo{w}'; shutil.rmtree(d, ignore_errors=True); d.mkdir()
    (d / 'demo.rs').write_text(b['demo']); (d / 'demo.sh').write_text(DEMO_SH); shutil.copy(S / 'demo.lock', d / 'demo.lock')
    env = {'DEMO_TARGET': str(S / f'target{w}')}
    with LOCK:
        if 'ok' not in CLEAN:
            rc, ok, o = tests(c)
            if rc: log.append('clean tests fail ' + o[-800:]); return False
            CLEAN['ok'] = ok
    rc, o = sh(f'bash {d}/demo.sh', c, env, 300)
    if rc: log.append(f'demo fails on clean tree ({rc}): {o[-1500:]}'); return False
    for f, old, new in b['edits']:
        p = c / f; s = p.read_text()
        if s.count(old) != 1: log.append(f'{f}: {s.count(old)} matches of {old!r}'); return False
        p.write_text(s.replace(old, new))
    rc, diff = sh('git diff', c)
    # Every removed line should be one of the original repository's.
    for f in {e[0] for e in b['edits']}:
        _, orig = sh(f'git show {BASE}:{f}', c)
        orig = set(orig.split('\n'))
    _, fd = sh('git diff -U0', c)
    rem = [l[1:] for l in fd.split('\n') if l.startswith('-') and not l.startswith('---')]
    allorig = set()
    for f in {e[0] for e in b['edits']}: allorig |= set(sh(f'git show {BASE}:{f}', c)[1].split('\n'))
    own = [l for l in rem if l not in allorig]
    if own and len(own) == len(rem): log.append(f'changes only lines of our own: {own}'); return False
    rc, ok, o = tests(c)
    if 'error: could not compile' in o: log.append('does not compile: ' + o[:3000]); return False
    lost = CLEAN['ok'] - ok
    if lost: log.append(f'tests notice: {sorted(lost)[:5]}'); return False
    rc, o = sh(f'bash {d}/demo.sh', c, env, 300)
    if rc in (0, 2): log.append(f'demo does not notice ({rc}): {o[-800:]}'); return False
    k = V / 'seeded' / b['id']; k.mkdir(parents=True, exist_ok=True)
    (k / 'patch.diff').write_text(diff); (k / 'demo.sh').write_text(DEMO_SH); (k / 'demo.rs').write_text(b['demo']); shutil.copy(S / 'demo.lock', k / 'demo.lock')
    (k / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
    return True
if __name__ == '__main__':
    g = {}; exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    if len(sys.argv) < 3: bugs = [b for b in bugs if not (V / 'seeded' / b['id'] / 'meta.json').exists()]
    q = queue.Queue(); out = []
    for b in bugs: q.put(b)
    ts = [threading.Thread(target=work, args=(i, q, out)) for i in range(min(4, len(bugs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(sum(o[1] for o in out), 'kept of', len(out))
