#!/usr/bin/env python3
"""Builds the client programs of san/ against /repo for Miri, ThreadSanitizer and AddressSanitizer and runs them.

Usage: sanitizers.py TIER SEED OUT.json [FAMILY]
With a FAMILY only Miri is used, for the convergence of that one under weak memory.
Writes what was observed and every report of a tool to OUT.json. Exit: 0 done, 2 no tool gave an answer.
"""
import json, os, re, subprocess, sys, threading, time, queue

here = os.path.dirname(os.path.abspath(__file__))
tier, seed, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
thorough = tier == 'thorough'
manifest = os.path.join(here, 'san', 'Cargo.toml')
target = os.path.join(here, 'target')
TRIPLE = 'x86_64-unknown-linux-gnu'
THREADS = ['mutable', 'channel', 'channel_pair', 'broadcaster', 'cancelable', 'mutable_vec', 'mutable_map', 'migrating', 'plain']
SINGLE = ['signals', 'vecs', 'maps']
FAMILY = sys.argv[4] if len(sys.argv) > 4 else None
JOB = 20  # seconds of one Miri process
MIRI_S = 420 if thorough else 170
if FAMILY:
    JOB = 12
    MIRI_S = 240 if thorough else 26
NATIVE_S = 150 if thorough else 50
base = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='1')
for k in ('RUSTFLAGS', 'MIRIFLAGS', 'CARGO_TARGET_DIR'):
    base.pop(k, None)
MIRI_FLAGS = '--cap-lints=warn -Zmir-opt-level=3' if FAMILY else '--cap-lints=warn'
MIRI_ENV = dict(base, RUSTFLAGS=MIRI_FLAGS, CARGO_TARGET_DIR=os.path.join(target, 'miri'), XDG_CACHE_HOME=os.path.join(target, 'cache'))
MIRI = ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '-q', '--manifest-path', manifest, '--']

lock = threading.Lock()
result = {'tools': {}, 'violations': []}


def tool(name):
    return result['tools'].setdefault(name, {'runs': 0, 'cases': 0, 'values': 0, 'polls': 0, 'items': 0, 'wakes': 0, 'panics': 0, 'per_family': {}, 'no_answer': {}})


def build(name, env, cmd):
    start = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True, errors='replace')
        ok, log = p.returncode == 0, p.stdout
    except subprocess.TimeoutExpired:
        ok, log = False, 'timeout'
    with lock:
        t = tool(name)
        t['build_s'] = round(time.time() - start, 1)
        if not ok:
            t['no_answer']['the build failed: ' + log[-600:]] = 1
    return ok


REPORT = {
    'miri': re.compile(r'error: (.*deadlock.*)' if FAMILY else r'error: (Undefined Behavior.*|memory leaked.*|.*data race.*)', re.I),
    'tsan': re.compile(r'(WARNING: ThreadSanitizer: .*)'),
    'asan': re.compile(r'(ERROR: (?:AddressSanitizer|LeakSanitizer): .*)'),
}
OWN = re.compile(r'FSSAN-VIOLATION (.*)')
CRASH = {-11: 'SIGSEGV', -4: 'SIGILL', -7: 'SIGBUS', -6: 'SIGABRT'}


def run(name, env, cmd, limit, what):
    """One run of the programs under a tool."""
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True, errors='replace')
        code, log = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        code, log = None, (e.stdout or b'').decode(errors='replace')
    m = OWN.search(log) or REPORT[name].search(log)
    done = re.search(r'FSSAN-DONE (\{.*\})', log)
    with lock:
        t = tool(name)
        t['runs'] += 1
        if done:
            d = json.loads(done.group(1))
            for k in ('values', 'polls', 'items', 'wakes', 'panics'):
                t[k] += d[k]
            for k, v in d['cases'].items():
                t['cases'] += v
                t['per_family'][k] = t['per_family'].get(k, 0) + v
        if m and 'HARNESS' not in m.group(1) and not (name == 'asan' and 'LeakSanitizer has encountered' in log):
            result['violations'].append({'tool': name, 'what': m.group(1).strip()[:300], 'cmd': what, 'log': log[-12000:]})
        elif code in CRASH and 'panicked' not in log and name != 'miri':
            result['violations'].append({'tool': name, 'what': 'crashed with ' + CRASH[code], 'cmd': what, 'log': log[-12000:]})
        elif not done:
            p = re.search(r'(panicked at .*\n.*|error: .*|LeakSanitizer has encountered.*)', log)
            why = 'timeout' if code is None else (p.group(1) if p else 'exit code %s: %s' % (code, log[-200:]))
            t['no_answer'][why[:200]] = t['no_answer'].get(why[:200], 0) + 1


def native(name, env_extra, binary, i, *family):
    env = dict(base, **env_extra)
    s = seed * 1000 + i
    cmd = [binary, str(s), '1000000000', str(NATIVE_S), *family]
    run(name, env, cmd, NATIVE_S + 60, ' '.join(['%s=%s' % x for x in env_extra.items()] + cmd))


def miri_job(i):
    # threads more often than the single-threaded programs
    fams = THREADS + THREADS + SINGLE + ['panics']
    fam = FAMILY or fams[i % len(fams)]
    s = seed * 100000 + i
    rate = ['0.01', '0.05', '0.2'][i % 3]
    flags = '-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s' % (s % 65536, rate)
    if FAMILY:
        # The memory itself is C09's concern
        flags += ' -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks'
    else:
        if i % 4 == 3:
            flags += ' -Zmiri-tree-borrows'
        if fam == 'panics':
            flags += ' -Zmiri-ignore-leaks'
    args = [str(s), '1000000000', str(JOB), fam]
    what = "cd %s && XDG_CACHE_HOME=%s RUSTFLAGS='%s' CARGO_TARGET_DIR=%s MIRIFLAGS='%s' %s" % (
        here, MIRI_ENV['XDG_CACHE_HOME'], MIRI_FLAGS, MIRI_ENV['CARGO_TARGET_DIR'], flags, ' '.join(MIRI + args))
    run('miri', dict(MIRI_ENV, MIRIFLAGS=flags), MIRI + args, JOB * 6 + 60, what)


def main():
    start = time.time()
    flags = {'tsan': '--cap-lints=warn -Zsanitizer=thread', 'asan': '--cap-lints=warn -Zsanitizer=address'}
    built = {}

    def do(name):
        if name == 'miri':
            # `cargo miri run` with no case at all builds everything
            built[name] = build(name, dict(MIRI_ENV, MIRIFLAGS='-Zmiri-disable-isolation'), MIRI + ['1', '0'])
        else:
            cmd = ['cargo', '+nightly', 'build', '--release', '--offline', '--locked', '--manifest-path', manifest, '--target', TRIPLE]
            if name == 'tsan':
                cmd.append('-Zbuild-std')
            built[name] = build(name, dict(base, RUSTFLAGS=flags[name], CARGO_TARGET_DIR=os.path.join(target, name)), cmd)

    ts = [threading.Thread(target=do, args=(n,)) for n in (('miri',) if FAMILY else ('miri', 'tsan', 'asan'))]
    [t.start() for t in ts]
    [t.join() for t in ts]

    jobs = queue.Queue()
    binary = lambda n: os.path.join(target, n, TRIPLE, 'release', 'fssan')
    if built.get('tsan'):
        for i in range(3):
            jobs.put(lambda i=i: native('tsan', {'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66'}, binary('tsan'), i))
    if built.get('asan'):
        for i in range(2):
            jobs.put(lambda i=i: native('asan', {'ASAN_OPTIONS': 'detect_leaks=1 exitcode=67'}, binary('asan'), 100 + i))
        # A panic may leave memory behind
        jobs.put(lambda: native('asan', {'ASAN_OPTIONS': 'detect_leaks=0 exitcode=67'}, binary('asan'), 200, 'panics'))
    if built['miri']:
        n = max(8, int(MIRI_S / JOB) * (8 if FAMILY else 7))
        for i in range(n):
            jobs.put(lambda i=i: miri_job(i))
    end = time.time() + MIRI_S + (0 if FAMILY else NATIVE_S + 30)

    def worker():
        while time.time() < end and len(result['violations']) < 1:
            try:
                job = jobs.get_nowait()
            except queue.Empty:
                return
            job()

    ws = [threading.Thread(target=worker) for _ in range(8)]
    [t.start() for t in ws]
    [t.join() for t in ws]
    result['wall_s'] = round(time.time() - start, 1)
    with open(out, 'w') as f:
        json.dump(result, f, indent=1)
    # A family's runs only add to the harness's, which do not need Miri
    if not FAMILY and not result['violations'] and all(t['cases'] == 0 for t in result['tools'].values()):
        print('ERROR: no tool gave an answer:', json.dumps({k: v['no_answer'] for k, v in result['tools'].items()})[:2000])
        sys.exit(2)


main()
