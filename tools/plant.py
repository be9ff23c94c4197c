#!/usr/bin/env python3
"""Plant a bug in a scratch clone of /repo, confirm it and write /verif/seeded/<id>/.

usage: plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], MAIN (rust source of the
demonstration) or DEMO (shell), NEEDS, BREAKS, optional DEPS)
       plant.py --check ID [property...]   apply it to /repo, run its check, undo it
"""
import sys, os, json, subprocess, tempfile, shutil, runpy, re
SEED = '/verif/seeded'
ENV = '. /opt/vp/env.sh; '
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" || exit 1
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
%s
T
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q --manifest-path "$d/Cargo.toml" || exit 1
timeout 120 "$d/target/debug/demo"
'''
def deps(d):
    return '\n'.join(d).replace('/repo/', '$repo/')

def sh(cmd, cwd=None, check=False, timeout=1200, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    if check and r.returncode: sys.exit(f'{cmd}\n{r.stdout[-3000:]}')
    return r.returncode, r.stdout

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])

def plant(spec):
    s = runpy.run_path(spec)
    scratch = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    wt = scratch + '/repo'
    try:
        sh(f'git clone -q /repo {wt}', check=True)
        if os.path.isdir('/tmp/plant-target'): pass
        for f, old, new in s['EDITS']:
            p = f'{wt}/{f}'; t = open(p).read()
            if t.count(old) != 1: sys.exit(f'{f}: {t.count(old)} matches of {old!r}')
            open(p, 'w').write(t.replace(old, new))
        _, diff = sh('git diff', cwd=wt)
        d = f"{SEED}/{s['ID']}"; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        if 'MAIN' in s:
            open(d + '/main.rs', 'w').write(s['MAIN'])
            dl = s.get('DEPS', ['bitcoin-cash = { path = "/repo/bitcoin-cash" }', 'bitcoin-cash-slp = { path = "/repo/bitcoin-cash-slp" }', 'hex = "0.4"', 'serde_json = "1.0"', 'bincode = "1.3"', 'serde = "1.0"'])
            open(d + '/demo.sh', 'w').write(DEMO % deps(dl))
        else:
            open(d + '/demo.sh', 'w').write(s['DEMO'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        ok = True
        tgt = '/tmp/plant-target'
        rc, out = sh(ENV + f'CARGO_TARGET_DIR={tgt} cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=wt)
        fails = re.findall(r'^test (.*) \.\.\. FAILED', out, re.M); n = len(re.findall(r'^test .* \.\.\. ok', out, re.M))
        print(f"{s['ID']}: tests rc={rc} ok={n} failed={fails}")
        if n < 155 or fails or 'error[' in out or 'could not compile' in out:
            print(out[-2500:]); ok = False
        rc1, o1 = sh(f'bash {d}/demo.sh', cwd=wt)
        print('demo on patched tree: rc', rc1, [l for l in o1.splitlines() if 'panicked' in l or 'assert' in l or 'error' in l][:3])
        sh('git checkout -q -- .', cwd=wt)
        rc0, o0 = sh(f'bash {d}/demo.sh', cwd=wt)
        print('demo on clean tree: rc', rc0, o0[-800:].strip() if rc0 else '')
        ok = ok and rc0 == 0 and rc1 != 0
        if not ok:
            shutil.rmtree(d); print('NOT KEPT')
        return ok, s['ID']
    finally:
        shutil.rmtree(scratch)

def check(i, props=None):
    m = json.load(open(f'{SEED}/{i}/meta.json'))
    rc, o = sh('git status --porcelain', cwd='/repo')
    if o.strip(): sys.exit('/repo is not clean')
    sh(f'git apply {SEED}/{i}/patch.diff', cwd='/repo', check=True)
    try:
        for p in props or [m['property']]:
            rc, o = sh(f'./check.sh {p} quick', cwd='/verif', env={'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = f'VIOLATION property={p}' in o
            print(f"{i}: {p} {'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc}")
            if rc == 1: print('   ' + '\n   '.join([l for l in o.splitlines() if not re.match(r'.* states .*transitions', l)][-4:])[:900])
            elif rc: print(o[-1500:])
    finally:
        sh('git checkout -q -- .', cwd='/repo', check=True)

if sys.argv[1] == '--check':
    check(sys.argv[2], sys.argv[3:])
else:
    for f in sys.argv[1:]:
        ok, i = plant(f)
        if ok and not os.environ.get('PLANT_ONLY'): check(i)
