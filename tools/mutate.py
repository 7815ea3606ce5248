#!/usr/bin/env python3
"""Mutation campaign, to find what the checks do not see (not a registered check).
usage: mutate.py DIR WORKER NWORKERS SEED COUNT [file-substring]
Works on copies DIR/w<k>/{repo,verif}; appends to DIR/log-<k>.jsonl."""
import json, os, random, re, shutil, subprocess, sys, time
base, k, nw, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
only = sys.argv[6] if len(sys.argv) > 6 else ''
w = f'{base}/w{k}'
os.makedirs(w, exist_ok=True)
if not os.path.exists(f'{w}/repo'):
    subprocess.run(['cp', '-a', '/repo', f'{w}/repo'], check=True)
    subprocess.run(f'git clone -q /repo {w}/orig', shell=True, check=True)
    os.makedirs(f'{w}/verif', exist_ok=True)
    subprocess.run(f'cp -a /verif/harness /verif/check.sh /verif/known-findings.txt {w}/verif/', shell=True, check=True)
env = dict(os.environ, CARGO_INCREMENTAL='1', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', HARNESS_ROOT=f'{w}/verif',
           HARNESS_JOBS=os.environ.get('HARNESS_JOBS', '4'), HARNESS_SCALE=os.environ.get('HARNESS_SCALE', '25'), VERIF_SEED='1', HARNESS_BUDGET_S='200',
           HARNESS_PEER=os.environ.get('HARNESS_PEER', '/verif/harness/target/lz4flex/debug/harness'))
os.makedirs(f'{w}/verif/evidence', exist_ok=True)
R = random.Random(seed)
OPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '),
       (' * ', ' + '), (' / ', ' * '), (' % ', ' / '), (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), ('.min(', '.max('),
       ('.max(', '.min('), ('..=', '..'), (' << ', ' >> '), (' >> ', ' << '), (' & ', ' | '), (' | ', ' & '), (' += ', ' -= '), (' += ', ' = '),
       ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_empty()', '.len() == 1'), ('if !', 'if '), ('.unwrap_or(0)', '.unwrap_or(1)'),
       ('.rev()', ''), ('.skip(1)', ''), ('.saturating_sub(', '.wrapping_sub('), ('.wrapping_add(', '.saturating_add('), ('Some(', 'None.or(Some('), ('.max_def_level', '.max_rep_level'),
       ('.max_rep_level', '.max_def_level'), ('min_value', 'max_value'), ('max_value', 'min_value'), ('uncompressed_size', 'compressed_size'), ('Ascending', 'Descending')]
def sites():
    out = []
    for d, _, fs in os.walk(f'{w}/orig/src'):
        for f in fs:
            p = os.path.join(d, f).replace(f'{w}/orig/', '/repo/')
            if not f.endswith('.rs') or only not in p:
                continue
            lines = open(os.path.join(d, f)).read().split('\n')
            depth_test = None
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith('#[cfg(test)]'):
                    break
                if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use ') or s.startswith('mod ') or 'const ' in s and s.startswith('const _'):
                    continue
                code = l.split(' //')[0]
                for a, b in OPS:
                    j = code.find(a)
                    while j >= 0:
                        if not (a in ('true', 'false') and re.match(r'\w', code[j - 1:j] or ' ')) and not ('<' in a and ('impl' in s or 'fn ' in s)):
                            nb = b
                            new = l[:j] + nb + l[j + len(a):]
                            if a == 'Some(':
                                break
                            out.append((p, i, new))
                        j = code.find(a, j + 1)
                for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.\]])', code):
                    n = int(m.group(1))
                    for v in ([1] if n == 0 else [n + 1, n - 1]):
                        out.append((p, i, l[:m.start()] + str(v) + l[m.end():]))
                if re.match(r'^\s+[\w.\[\]&*()?]+(\(.*\)|.*[-+|&]=.*|.* = .*);$', l) and not s.startswith('let ') and not s.startswith('return'):
                    out.append((p, i, re.match(r'^\s*', l).group(0) + '// removed'))
                if re.match(r'^\s+\.\w+\(.*\)\??$', l):
                    out.append((p, i, re.match(r'^\s*', l).group(0) + '// removed'))
    return out
S = sites()
R.shuffle(S)
S = S[:count][k::nw]
if os.environ.get('MUT_LIST'):  # re-run recorded mutants
    S = []
    for n, l in enumerate(open(os.environ['MUT_LIST'])):
        r = json.loads(l)
        if n % nw != k:
            continue
        for d, _, fs in os.walk(f'{w}/orig/src'):
            for f in fs:
                q = os.path.join(d, f).replace(f'{w}/orig/', '/repo/')
                if q.endswith('.rs') and q[11:] == r['file']:
                    l0 = open(os.path.join(d, f)).read().split('\n')[r['line'] - 1]
                    if l0.strip() == r['old']:
                        S.append((q, r['line'] - 1, l0[:len(l0) - len(l0.lstrip())] + r['new']))
built = open('/verif/tools/built.txt').read().split()
PRI = [('encoding/hybrid', 'C05 C18 C23'), ('encoding/bitpacked', 'C06 C18'), ('encoding/delta', 'C07 C08 C18'), ('encoding', 'C08 C18 C05'), ('compression', 'C04 C22 C03'), ('statistics', 'C09'), ('indexes', 'C10 C11 C03'),
       ('schema', 'C13 C14 C15'), ('metadata', 'C15 C24 C13'), ('deserialize', 'C01 C23 C18'), ('bloom', 'C16 C17'), ('write', 'C03 C01 C26 C20 C09 C10 C02'),
       ('read', 'C01 C12 C11 C21 C22 C17 C24 C02'), ('page', 'C01 C24 C11 C17')]
def sh(c, t, **kw):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, env=env, **kw)
    except subprocess.TimeoutExpired:
        return None
log = open(f'{base}/log-{k}.jsonl', 'a')
for p, i, new in S:
    rp = p.replace('/repo/', f'{w}/repo/')
    orig = open(p.replace('/repo/', f'{w}/orig/')).read()
    lines = orig.split('\n')
    old = lines[i]
    lines[i] = new
    open(rp, 'w').write('\n'.join(lines))
    rec = dict(file=p[11:], line=i + 1, old=old.strip(), new=new.strip())
    t0 = time.time()
    r = sh(f'cd {w}/verif/harness && cargo build --offline --locked --no-default-features --features lz4c --target-dir target/lz4c', 600)
    if r is None or r.returncode:
        rec['result'] = 'no-build'
    else:
        order = []
        for a, b in PRI:
            if a in p:
                order += b.split()
        order += ['C17', 'C01', 'C03', 'C24', 'C26'] + built
        seen = []
        for c in order:
            if c in seen or c not in built:
                continue
            seen.append(c)
            r = sh(f'{w}/verif/harness/target/lz4c/debug/harness run {c} quick', 400)
            if r is None or r.returncode:
                rec['result'] = f'{c} {"timeout" if r is None else r.returncode}'
                break
        else:
            r = sh(f'cd {w}/repo && timeout 300 cargo test --no-fail-fast --offline --features full -- --test-threads 4 > {w}/test.log 2>&1; python3 /opt/vp/results.py {w}/test.json "cargo:{w}/test.log"', 400)
            try:
                b = json.load(open('/opt/vp/BASELINE.json'))['stable']
                ok = set(json.load(open(f'{w}/test.json'))['passed'])
                miss = [x for x in b if x not in ok]
            except Exception as e:
                miss = [str(e)]
            rec['result'] = 'SURVIVED' if not miss else f'survived-but-tests-fail {miss[:3]}'
    rec['s'] = round(time.time() - t0)
    open(rp, 'w').write(orig)
    log.write(json.dumps(rec) + '\n')
    log.flush()
