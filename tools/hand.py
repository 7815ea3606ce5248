#!/usr/bin/env python3
"""Hand-written changes, to find what the checks do not see (not a registered check).
usage: hand.py DIR WORKER NWORKERS LIST.py [name...]
LIST.py defines M = [(name, property, [(file under src, old, new), ...]), ...]
Works on copies DIR/h<k>/{repo,verif}; appends to DIR/hand-<k>.jsonl.
Reports whether the property's own check sees the change, else which other check does."""
import json, os, subprocess, sys, time
base, k, nw, lst = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
names = sys.argv[5:]
g = {}
exec(open(lst).read(), g)
M = [m for m in g['M'] if not names or m[0] in names][k::nw]
RS, VS = os.environ.get('RSRC', '/repo'), os.environ.get('VSRC', '/verif')
w = f'{base}/h{k}'
os.makedirs(w, exist_ok=True)
subprocess.run(f'rsync -a --delete --exclude target {RS}/ {w}/repo/ 2>/dev/null || (rm -rf {w}/repo; cp -a {RS} {w}/repo)', shell=True, check=True)
os.makedirs(f'{w}/verif/evidence', exist_ok=True)
subprocess.run(f'mkdir -p {w}/verif/harness; cp -a {VS}/builds {w}/verif/; cp -a {VS}/harness/src {VS}/harness/Cargo.toml {VS}/harness/Cargo.lock {VS}/harness/shim.c {VS}/harness/build.rs {w}/verif/harness/ 2>/dev/null; cp {VS}/known-findings.txt {w}/verif/; [ -d {w}/verif/harness/target ] || cp -a {VS}/harness/target {w}/verif/harness/', shell=True)
env = dict(os.environ, CARGO_INCREMENTAL='1', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', HARNESS_ROOT=f'{w}/verif',
           HARNESS_JOBS=os.environ.get('HARNESS_JOBS', '3'), VERIF_SEED='1', HARNESS_BUDGET_S='600', HARNESS_PEER=f'{VS}/harness/target/lz4flex/debug/harness')
def sh(c, t):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired:
        return None
built = open(f'{VS}/tools/built.txt').read().split()
log = open(f'{base}/hand-{k}.jsonl', 'a')
for name, prop, edits in M:
    t0 = time.time()
    rec = dict(name=name, prop=prop)
    saved = {}
    try:
        for f, old, new in edits:
            p = f'{w}/repo/src/{f}'
            s = open(p).read()
            saved.setdefault(p, s)
            assert s.count(old) >= 1, f'{name}: {f}: not found: {old[:60]}'
            assert s.count(old) == 1, f'{name}: {f}: {s.count(old)} times: {old[:60]}'
            open(p, 'w').write(s.replace(old, new))
        r = sh(f'cd {w}/verif/harness && cargo build --offline --locked --no-default-features --features lz4c --target-dir target/lz4c', 900)
        if r is None or r.returncode:
            rec['result'] = 'no-build ' + (r.stderr[-1500:] if r else '')
        else:
            run = lambda c: sh(f'{w}/verif/harness/target/lz4c/debug/harness run {c} quick', 900)
            r = run(prop)
            if r is None or r.returncode:
                rec['result'] = f'caught {"timeout" if r is None else r.returncode}'
                rec['how'] = [l for l in (r.stdout if r else '').splitlines() if l.startswith('  [')][:2]
            else:
                rec['result'] = 'MISSED'
                rec['others'] = [c for c in built if c not in (prop, 'C28') and (lambda r: r is None or r.returncode)(run(c))] if os.environ.get('OTHERS', '1') == '1' else []
            r = sh(f'cd {w}/repo && timeout 300 cargo test --no-fail-fast --offline --features full -- --test-threads 4 > {w}/test.log 2>&1; python3 /opt/vp/results.py {w}/test.json "cargo:{w}/test.log"', 400)
            try:
                b = json.load(open('/opt/vp/BASELINE.json'))['stable']
                ok = set(json.load(open(f'{w}/test.json'))['passed'])
                miss = [x for x in b if x not in ok]
            except Exception as e:
                miss = [str(e)]
            rec['tests'] = miss[:3]
    except AssertionError as e:
        rec['result'] = 'BAD ' + str(e)
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)
    rec['s'] = round(time.time() - t0)
    log.write(json.dumps(rec) + '\n')
    log.flush()
    print(json.dumps(rec)[:400], flush=True)
