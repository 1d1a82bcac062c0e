#!/usr/bin/env python3
"""mutate.py list > FILE        every single-line mutant of the contracts' non-test code
mutate.py run LANE FILE OUT N K  run each mutant with index % N == K in LANE (a directory holding
                                 copies repo/ and verif/), append the outcome to OUT

Exploration of the machinery's own reach; no check reads it."""
import json, os, re, subprocess, sys, random

REPO = '/repo'
GLOBS = {
    'contracts/core/src': ('vault', 'ibcx-core'),
    'contracts/periphery/src': ('periphery', 'ibcx-periphery'),
    'contracts/airdrop/src': ('airdrop', 'ibcx-airdrop'),
    'packages/pool/src': ('periphery', None),
    'packages/math/src': ('periphery', 'ibcx-math'),
    'packages/utils/src': ('vault', None),
    'packages/interface/src': ('all', 'ibcx-interface'),
}
PAIRS = [('deflation', 'inflation'), ('denom_in', 'denom_out'), ('mint_fee', 'burn_fee'), ('amount_in', 'amount_out'),
         ('Ascending', 'Descending'), ('max', 'min'), ('from', 'to'), ('first', 'last'), ('checked_add', 'checked_sub'),
         ('is_some', 'is_none'), ('true', 'false'), ('Included', 'Excluded'), ('inclusive', 'exclusive'), ('floor', 'ceil'), ('any', 'all'),
         ('sender', 'receiver'), ('deposit', 'claimed'), ('total_amount', 'total_claimed'), ('save', 'may_load'), ('Some', 'None')]
CMP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '+': '-', '-': '+', '*': '/', '/': '*', '+=': '-=', '-=': '+='}


def code(path):
    out, skip = [], False
    for i, l in enumerate(open(path).read().split('\n')):
        if re.match(r'\s*#\[cfg\(test\)\]', l):
            break
        out.append(l)
    return out


def mutants(path):
    ls = code(path)
    for i, l in enumerate(ls):
        t = l.strip()
        if not t or t.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', 'attr(', 'println!', 'deps.api.debug', '}')) and t != '}' or t == '}':
            continue
        seen = set()

        def em(new):
            if new != l and new not in seen:
                seen.add(new)
                return [dict(line=i, old=l, new=new)]
            return []
        for m in re.finditer(r'(?<= )(<=|>=|==|!=|&&|\|\||\+=|-=|<|>|\+|-|\*|/)(?= )', l):
            yield from em(l[:m.start()] + CMP[m.group(1)] + l[m.end():])
        for m in re.finditer(r'(?<![\w.])(\d+)(?:u64|u128|usize)?(?![\w.])', l):
            n = int(m.group(1))
            yield from em(l[:m.start(1)] + str(n + 1) + l[m.end(1):])
            if n > 1:
                yield from em(l[:m.start(1)] + str(n - 1) + l[m.end(1):])
        for a, b in PAIRS:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r'(?<![A-Za-z0-9])%s(?![A-Za-z0-9])' % x, l):
                    yield from em(l[:m.start()] + y + l[m.end():])
        m = re.match(r'^(\s*)(?:(\} else )?if )(?!let )(.*) \{$', l)
        if m:
            yield from em(l.replace('if ' + m.group(3), 'if !(' + m.group(3) + ')', 1))
            yield from em(l.replace('if ' + m.group(3), 'if false && (' + m.group(3) + ')', 1))
        if t.endswith(';') and not t.startswith(('let ', 'return', 'pub ', 'const ', 'type ', 'static ', ')', '.', ']', '}', 'break', 'continue')):
            yield from em(re.match(r'\s*', l).group(0) + '();')
        if re.match(r'^\.(add_messages?|rev|filter|checked_\w+|map|attributes?|take|skip|chain|max|min)\(.*\)\??$', t):
            if not t.startswith('.add_attribute') and not t.startswith('.attr'):
                yield from em('')
        if 'Uint128::one()' in l:
            yield from em(l.replace('Uint128::one()', 'Uint128::zero()', 1))
        if 'Uint128::zero()' in l:
            yield from em(l.replace('Uint128::zero()', 'Uint128::one()', 1))
        if 'Decimal::one()' in l:
            yield from em(l.replace('Decimal::one()', 'Decimal::zero()', 1))
        if '.sub_assign(' in l or '.saturating_sub(' in l:
            yield from em(l.replace('saturating_sub', 'saturating_add'))


def listing():
    out = []
    for g, (fam, pkg) in GLOBS.items():
        fs = []
        for d, _, names in os.walk(f'{REPO}/{g}'):
            for n in sorted(names):
                p = os.path.join(d, n)
                if n.endswith('.rs') and '/bin/' not in p and 'test' not in n and n not in ('error.rs', 'mock.rs'):
                    fs.append(p)
        for p in sorted(fs):
            for m in mutants(p):
                m.update(file=os.path.relpath(p, REPO), fam=fam, pkg=pkg)
                out.append(m)
    random.Random(7).shuffle(out)
    for k, m in enumerate(out):
        m['k'] = k
        print(json.dumps(m))


ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='3')
RUNS = {'vault': 150, 'periphery': 300, 'airdrop': 120}


def sh(cmd, cwd, env=ENV, timeout=600):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def run(lane, listf, outf, n, k):
    done = set()
    if os.path.exists(outf):
        done = {json.loads(l)['k'] for l in open(outf)}
    for m in map(json.loads, open(listf)):
        if m['k'] % n != k or m['k'] in done or 'attr(' in m['old'] or 'REPLY_ID' in m['old'] or '.sort_by(' in m['old']:
            continue
        p = f'{lane}/repo/{m["file"]}'
        src = open(f'{REPO}/{m["file"]}').read()
        ls = src.split('\n')
        assert ls[m['line']] == m['old'], m
        ls[m['line']] = m['new']
        open(p, 'w').write('\n'.join(ls))
        res = dict(m)
        try:
            test = '--lib' if m['pkg'] in ('ibcx-core', 'ibcx-airdrop', 'ibcx-math') else None
            if m['pkg'] in ('ibcx-core', 'ibcx-airdrop', 'ibcx-periphery', 'ibcx-math'):
                c = f'cargo test -p {m["pkg"]} --lib --locked --offline -- --test-threads 3'
            else:
                c = 'cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --locked --offline -- --test-threads 3'
            rc, o = sh(c, f'{lane}/repo')
            if 'error: could not compile' in o or re.search(r'^error(\[|:)', o, re.M) and 'test failed' not in o:
                res['st'] = 'nobuild'
            elif rc != 0:
                res['st'] = 'tests'
            else:
                e = dict(ENV, CARGO_TARGET_DIR=f'{lane}/verif/sim/target', VERIF_ROOT=f'{lane}/verif')
                rc, o = sh(f'. {lane}/verif/env.sh; export CARGO_BUILD_JOBS=3 CARGO_TARGET_DIR={lane}/verif/sim/target; cargo build --offline --locked', f'{lane}/verif/sim', e)
                if rc != 0:
                    res['st'] = 'nobuild'
                else:
                    fams = ['vault', 'periphery', 'airdrop'] if m['fam'] == 'all' else ['periphery', 'vault'] if m['fam'] == 'vault' and 'utils' in m['file'] else [m['fam']]
                    br = {}
                    for f in fams:
                        rc, o = sh(f'{lane}/verif/sim/target/debug/ibcx-sim sweep {f} {RUNS[f]} 3', lane, e)
                        if rc == 124:
                            br['TIMEOUT'] = f
                        for x in re.findall(r'^BROKEN (\S+) (.*)$', o, re.M):
                            br.setdefault(x[0], x[1])
                    res['st'] = 'caught' if br else 'SURVIVED'
                    res['by'] = br
        finally:
            open(p, 'w').write(src)
        with open(outf, 'a') as f:
            f.write(json.dumps(res) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        listing()
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6]))
