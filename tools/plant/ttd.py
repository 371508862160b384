#!/usr/bin/env python3
"""How long a check takes to find each planted bug, with several seeds. Development only, works on scratch copies.

ttd.py LOG SEEDS SECONDS [ID..]"""
import json, os, shutil, subprocess, sys, time
VERIF, TOP = '/verif', '/tmp/ttd'
log, seeds, secs, ids = sys.argv[1], [int(x) for x in sys.argv[2].split(',')], sys.argv[3], sys.argv[4:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
shutil.rmtree(TOP + '/repo', ignore_errors=True); shutil.rmtree(TOP + '/harness', ignore_errors=True)
os.makedirs(TOP, exist_ok=True)
sh(f'git clone -q /repo {TOP}/repo')
shutil.copytree(VERIF + '/harness', TOP + '/harness', ignore=shutil.ignore_patterns('target'))
t = open(TOP + '/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "../repo"')
open(TOP + '/harness/Cargo.toml', 'w').write(t)
env = dict(os.environ, RUSTFLAGS='-A mismatched_lifetime_syntaxes --cap-lints allow --cfg futures_signals_hooks', CARGO_TARGET_DIR=TOP + '/target')
done = {json.loads(l)['id'] for l in open(log)} if os.path.exists(log) else set()
for i in sorted(os.listdir(VERIF + '/seeded')):
    if i in done or (ids and i not in ids): continue
    prop = json.load(open(f'{VERIF}/seeded/{i}/meta.json'))['property']
    sh(f'git -C {TOP}/repo checkout -q -- . && git -C {TOP}/repo apply {VERIF}/seeded/{i}/patch.diff')
    b = sh(f'cargo build --release --offline --manifest-path {TOP}/harness/Cargo.toml', env=env)
    if b.returncode: print(i, 'no build', b.stdout[-300:]); continue
    res = []
    for s in seeds:
        t0 = time.time()
        r = sh(f'timeout 200 {TOP}/target/release/fsverif --property {prop} --seconds {secs} --replay-dir {TOP}/rep --evidence {TOP}/ev.json', env=dict(os.environ, VERIF_SEED=str(s)))
        res.append((r.returncode, round(time.time() - t0, 1)))
    open(log, 'a').write(json.dumps({'id': i, 'property': prop, 'res': res}) + '\n')
    print(i, res, flush=True)
