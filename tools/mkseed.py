#!/usr/bin/env python3
"""Makes the planted bugs from tools/seeds/*.py, in a scratch lane.

usage: mkseed.py LANE [id ...]     (LANE: folder holding repo/ and verif/, scratch copies)
Each spec file defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
A seed is written to /verif/seeded/<id> only after: the patch compiles, the baseline tests pass
with it, it touches only lines of the original repository, and the demonstration passes without
it and fails with it. Then the property's quick check is run against it and the result printed.
"""
import sys, os, subprocess, json, glob, shutil, re, time
BASE = '8be8475'
VERIF = '/verif'
lane = sys.argv[1]
want = sys.argv[2:]
nocheck = os.environ.get('NOCHECK')
repo, ver = f'{lane}/repo', f'{lane}/verif'
env = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')

def sh(cmd, cwd, timeout=1200, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def reset():
    sh('git checkout -q -- .', repo)

def apply(edits):
    for f, old, new in edits:
        p = f'{repo}/{f}'
        s = open(p).read()
        cut = s.find('#[cfg(test)]')
        body = s if cut < 0 else s[:cut]
        n = body.count(old)
        if n != 1:
            return f'{f}: {n} matches for {old!r}'
        s = s.replace(old, new, 1) if body.find(old) == s.find(old) else None
        open(p, 'w').write(s)
    return None

def blame_ok():
    d = sh('git diff -U0', repo).stdout
    f = None; removed = 0
    for l in d.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a = int(m[1]); n = int(m[2]) if m[2] is not None else 1
            if n == 0: continue
            removed += n
            b = sh(f'git blame -s -L {a},{a+n-1} HEAD -- {f}', repo).stdout
            for bl in b.splitlines():
                if not bl.startswith('^' + BASE[:6]) and not bl.startswith(BASE[:7]):
                    c = bl.split()[0].lstrip('^')
                    # original if the base commit is a descendant-or-equal of that commit
                    if sh(f'git merge-base --is-ancestor {c} {BASE}', repo).returncode != 0:
                        return f'touches a line of ours: {bl}'
    return None if removed else 'changes no original line'

def tests():
    r = sh('cargo build --workspace --locked --offline && cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline -- --test-threads 8', repo, env=env)
    base = json.load(open('/opt/vp/BASELINE.json'))
    passed = r.stdout.count(' ... ok\n')
    failed = re.findall(r'test (\S+) \.\.\. FAILED', r.stdout)
    return passed, failed, r

def demo(dst):
    e = dict(os.environ, DEMO_TARGET=f'{lane}/demo-target', RUST_BACKTRACE='0')
    return sh(f'bash {dst}/demo.sh', repo, env=e)

def write(s, dst):
    os.makedirs(dst, exist_ok=True)
    k = f'{dst}/kit'
    if os.path.exists(k): shutil.rmtree(k)
    shutil.copytree(f'{VERIF}/tools/kit', k)
    head = open(f'{VERIF}/tools/kit/src/head.rs').read()
    os.remove(f'{k}/src/head.rs')
    open(f'{k}/src/main.rs', 'w').write(head + '\n' + s['demo'].strip() + '\n')
    shutil.copy(f'{VERIF}/tools/demo.sh.tmpl', f'{dst}/demo.sh'); os.chmod(f'{dst}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{dst}/meta.json', 'w'), indent=1)
    open(f'{dst}/meta.json', 'a').write('\n')

specs = []
for f in sorted(glob.glob(f'{VERIF}/tools/seeds/*.py')):
    ns = {}
    ns["__file__"] = f; exec(open(f).read(), ns)
    specs += ns['SEEDS']
ids = [s['id'] for s in specs]
assert len(ids) == len(set(ids)), 'duplicate id'
for s in specs:
    if want and s['id'] not in want: continue
    t0 = time.time()
    tmp = f'{lane}/new/{s["id"]}'
    if os.path.exists(tmp): shutil.rmtree(tmp)
    def out(*a): print(s['id'], s['prop'], *a, flush=True)
    reset()
    write(s, tmp)
    try:
        e = apply(s['edits'])
        if e: out('BAD EDIT', e); continue
        e = blame_ok()
        if e: out('BAD', e); continue
        open(f'{tmp}/patch.diff', 'w').write(sh('git diff', repo).stdout)
        p, failed, r = tests()
        if p < 58 or failed:
            out('TESTS', p, failed, r.stdout[-1500:] if p == 0 else ''); continue
        d = demo(tmp)
        if d.returncode in (0, 2, 124):
            out('DEMO does not fail', d.returncode, d.stdout[-1500:]); continue
        why = [l for l in d.stdout.splitlines() if l.strip()][-3:]
        res = ''
        if not nocheck:
            c = sh(f'./check.sh {s["prop"]} quick', ver, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            res = f'check exit={c.returncode} ' + (v[0] if v else 'MISSED' if c.returncode == 0 else c.stdout[-800:])
        reset()
        d = demo(tmp)
        if d.returncode != 0:
            out('DEMO fails on clean', d.returncode, d.stdout[-1500:]); continue
        dst = f'{VERIF}/seeded/{s["id"]}'
        if os.path.exists(dst): shutil.rmtree(dst)
        os.makedirs(f'{VERIF}/seeded', exist_ok=True)
        shutil.copytree(tmp, dst)
        out('OK', f'{time.time()-t0:.0f}s', res, '| demo:', ' / '.join(why)[:300])
    except subprocess.TimeoutExpired as e:
        out('TIMEOUT', e.cmd)
    finally:
        reset()
