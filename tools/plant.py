#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description and confirms it in a scratch copy of /repo.

plant.py SPECS.py [ID...]     SPECS.py defines BUGS: {id: dict(property, needs, breaks, edits, demo)}
Confirms: applies, touches lines of the original repository, builds, the stable tests pass,
the demonstration passes on the unchanged tree and fails with the change.
"""
import json, os, runpy, shutil, subprocess, sys

REPO, SCRATCH, OUT = '/repo', '/tmp/plant', '/verif/seeded'
DEMO = r'''#!/bin/bash
# Run in the root of the repository. Fails if the defect is there: it compiles demo.rs as a test
# module of a scratch copy and runs it.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r src Cargo.toml "$scratch/" && { [ ! -e Cargo.lock ] || cp Cargo.lock "$scratch/"; }
cp "$here/demo.rs" "$scratch/src/planted_demo.rs"
printf '\n#[cfg(test)]\nmod planted_demo;\n' >> "$scratch/src/lib.rs"
cd "$scratch" || exit 2
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true
RUSTFLAGS= CARGO_TARGET_DIR="$scratch/target" timeout 280 cargo test --offline --lib @FEAT@ planted_demo -- --test-threads 1
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def fresh():
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    sh(f'cp -a {REPO} {SCRATCH}')

def stable_tests():
    env = dict(os.environ, PATH=os.environ['PATH'] + ':/root/.cargo/bin', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=SCRATCH + '/target', RUSTFLAGS='')
    sh(f'rm -rf {SCRATCH}/target/debug/.fingerprint/http-ntlm-*')
    r = sh('cargo test --workspace --no-fail-fast --offline', SCRATCH, env=env)
    passed = {'http_ntlm:src/lib.rs::' + l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')}
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
    return missing, r

def demo(d):
    return sh(f'bash {d}/demo.sh', SCRATCH)

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:] or list(bugs)
    base = sh('git rev-list --max-parents=0 HEAD', REPO).stdout.strip()
    bad = []
    for bid in want:
        b = bugs[bid]
        fresh()
        wrong = []
        for f, old, new in b['edits']:
            p = f'{SCRATCH}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                wrong.append(f'{f}: text occurs {s.count(old)} times: {old!r}')
                continue
            open(p, 'w').write(s.replace(old, new))
        if wrong:
            print(bid, 'BAD', wrong, flush=True)
            bad.append(bid)
            continue
        diff = sh('git diff', SCRATCH).stdout
        # lines taken away that the base commit wrote
        orig = 0
        for f in {e[0] for e in b['edits']}:
            blame = sh(f'git blame -l -s HEAD -- {f}', SCRATCH).stdout.splitlines()
            owner = {l.split(')', 1)[1][1:]: l.lstrip('^')[:39] for l in blame}
            for l in sh(f'git diff -U0 -- {f}', SCRATCH).stdout.splitlines():
                if l.startswith('-') and not l.startswith('---') and owner.get(l[1:], '') == base[:39]:
                    orig += 1
        d = f'{OUT}/{bid}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.rs', 'w').write(b['demo'].strip() + '\n')
        demo_sh = DEMO
        if b['property'] == 'C27':
            # the SSPI client, on this system too
            demo_sh = DEMO.replace('cd "$scratch" ||', '''sed -i "s/cfg(target_family = .windows.)'/cfg(unix)'/" "$scratch/Cargo.toml"
printf '#[cfg(test)]\\nmod win;\\n' >> "$scratch/src/lib.rs"
cd "$scratch" ||''')
        if b['property'] == 'C32':
            # interpreted by Miri, as another machine would run it
            t = b['args']
            demo_sh = DEMO[:DEMO.index('RUSTFLAGS= ')] + f'''export RUSTFLAGS= CARGO_TARGET_DIR="$scratch/target" MIRI_SYSROOT="$scratch/sys" MIRIFLAGS=-Zmiri-disable-isolation
timeout 150 cargo +nightly miri setup --target {t} > "$scratch/log" 2>&1 || {{ cat "$scratch/log"; exit 2; }}
timeout 140 cargo +nightly miri test --offline --lib --target {t} planted_demo -- --test-threads 1
'''
            b['args'] = None
        open(f'{d}/demo.sh', 'w').write(demo_sh.replace(' @FEAT@', ' ' + b['args'] if b.get('args') else b.get('feat') and f" --features {b['feat']}" or ''))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        open(f'{d}/meta.json', 'a').write('\n')
        problems = []
        if not orig:
            problems.append('no original line changed')
        missing, r = stable_tests()
        if missing:
            problems.append(f'tests: {sorted(missing)[:3]}\n{r.stdout[-1500:]}{r.stderr[-1500:]}')
        x = demo(d)
        if x.returncode == 0:
            problems.append('demo passes with the change')
        elif 'error[' in x.stderr or 'could not compile' in x.stderr:
            problems.append('demo does not compile: ' + x.stderr[-2500:])
        sh('git checkout -- .', SCRATCH)
        y = demo(d)
        if y.returncode != 0:
            problems.append('demo fails on the unchanged tree: ' + y.stdout[-1500:] + y.stderr[-1500:])
        print(bid, 'OK' if not problems else 'BAD ' + '; '.join(problems), flush=True)
        if problems:
            bad.append(bid)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print('bad:', bad)

main()
