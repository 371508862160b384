#!/usr/bin/env python3
"""Rewrites of the crate which keep its behaviour: every check must stay quiet on them. Development only.

refactor.py [SECONDS] [ID..]    in a scratch copy: apply, test, run all checks for SECONDS each
"""
import os, shutil, subprocess, sys
REPO, VERIF, TOP = '/repo', '/verif', '/tmp/refactor'
S, V, MP, B, M = 'src/signal/signal.rs', 'src/signal_vec.rs', 'src/signal_map.rs', 'src/signal/broadcaster.rs', 'src/signal/mutable.rs'
A, CH, F, I, MA = 'src/atomic.rs', 'src/signal/channel.rs', 'src/future.rs', 'src/internal.rs', 'src/signal/macros.rs'
ALL = ['C%02d' % i for i in range(1, 31)]
REFACTORS = []


def refactor(id, *edits):
    """An edit is (file, old, new), where old may be (start, end): everything from start up to end"""
    REFACTORS.append((id, edits))


exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'list.py')).read(), 'list.py', 'exec'))
env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR')}


def sh(cmd, **e):
    p = subprocess.run(cmd, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', shell=True)
    return p.returncode, p.stdout


def main():
    seconds = sys.argv[1] if len(sys.argv) > 1 else '4'
    ids = sys.argv[2:]
    os.makedirs(TOP, exist_ok=True)
    for d in ('repo', 'harness'):
        shutil.rmtree(f'{TOP}/{d}', ignore_errors=True)
    shutil.copytree(REPO, TOP + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree(VERIF + '/harness', TOP + '/harness', ignore=shutil.ignore_patterns('target'))
    t = open(TOP + '/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "../repo"')
    open(TOP + '/harness/Cargo.toml', 'w').write(t)
    for id, edits in REFACTORS:
        if ids and id not in ids:
            continue
        saved = {}
        try:
            for f, old, new in edits:
                p = f'{TOP}/repo/{f}'
                text = open(p).read()
                saved.setdefault(p, text)
                if isinstance(old, tuple):
                    assert text.count(old[0]) == 1, (id, old[0], text.count(old[0]))
                    a = text.index(old[0])
                    b = len(text) if old[1] == "\x00end" else text.index(old[1], a + len(old[0]))
                    text = text[:a] + new + text[b:]
                else:
                    assert text.count(old) == 1, (id, old, text.count(old))
                    text = text.replace(old, new)
                open(p, 'w').write(text)
            code, out = sh(f'cargo test --workspace --offline --manifest-path {TOP}/repo/Cargo.toml', RUSTFLAGS='--cap-lints allow', CARGO_TARGET_DIR=TOP + '/target-test')
            if code:
                print(id, 'TESTS FAIL', out[-1500:], flush=True)
                continue
            code, out = sh(f'cargo build --release --offline --manifest-path {TOP}/harness/Cargo.toml', RUSTFLAGS='-A mismatched_lifetime_syntaxes --cap-lints allow --cfg futures_signals_hooks', CARGO_TARGET_DIR=TOP + '/target')
            if code:
                print(id, 'NO BUILD', out[-1500:], flush=True)
                continue
            bad = 0
            for p in ALL:
                code, out = sh(f'{TOP}/target/release/fsverif --property {p} --seconds {seconds} --replay-dir {TOP}/rep --evidence {TOP}/ev.json')
                if code:
                    bad += 1
                    print(id, p, 'exit', code, out[:700], flush=True)
            print(id, 'quiet' if not bad else f'{bad} ALARMS', flush=True)
        finally:
            for p, text in saved.items():
                open(p, 'w').write(text)


main()
