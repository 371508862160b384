#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies under /tmp/mut. Development only, nothing depends on it.

mutate.py list [FILE_RE]            number of mutants
mutate.py run LOG [FILE_RE] [WORKERS] [SEED]
A mutant which compiles, is not noticed by any check within a few seconds each and passes /repo's tests is SURVIVED.
"""
import json, os, random, re, shutil, subprocess, sys, threading, hashlib

REPO, VERIF, TOP = '/repo', '/verif', '/tmp/mut'
FILES = ['src/signal/channel.rs', 'src/signal/signal.rs', 'src/signal/macros.rs', 'src/signal/mutable.rs', 'src/signal/broadcaster.rs',
         'src/signal_vec.rs', 'src/signal_map.rs', 'src/future.rs', 'src/internal.rs', 'src/atomic.rs']
SWAPS = [(r' < ', [' <= ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
         (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
         (r'\bif !', ['if ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bPoll::Ready\(None\)', ['Poll::Pending']),
         (r'\bPoll::Pending\b(?!\s*=>|\) =>)', ['Poll::Ready(None)']), (r'\bold_index\b', ['new_index']), (r'\bnew_index\b', ['old_index']),
         (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']), (r'\bleft', ['right']), (r'\bright', ['left']),
         (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_empty\(\)', ['.len() == 1']),
         (r'\bOk\(', ['Err(']), (r'\bErr\(', ['Ok(']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\bindex\b', ['0']),
         (r'\.take\(\)', ['.as_mut()']), (r'\bIsDone\b|\bdone\b', ['!done']), (r'\bOrdering::Less\b', ['Ordering::Greater']),
         (r'(?<=\[)\.\.', ['1..']), (r'(?<=\w)\.\.\]', ['+1..]'])]


def masked(src):
    """Lines which are code: (index, text)."""
    out, comment, macro = [], 0, 0
    for i, l in enumerate(src):
        s = l.strip()
        if '/*' in s and '*/' not in s:
            comment = 1
        if comment:
            if '*/' in s:
                comment = 0
            continue
        if not s or s.startswith(('//', '#', 'use ', 'pub use', 'pub fn', 'fn ', 'pub(crate) fn', 'where', 'impl', 'pub struct', 'struct', 'pub trait', 'type ', 'mod ', 'pub mod', '///')):
            continue
        if 'unreachable!' in s or 'panic!' in s or 'debug_struct' in s or '.field(' in s or '.finish()' in s:
            continue
        out.append((i, l))
    return out


def mutants():
    res = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read().split('\n')
        for i, l in masked(src):
            code = l.split('//')[0]
            seen = set()
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        n = code[:m.start()] + r + code[m.end():]
                        if n != code and n not in seen:
                            seen.add(n)
                            res.append((f, i, n))
            s = code.strip()
            if s.endswith(';') and all(s.count(a) == s.count(b) for a, b in ('()', '[]', '{}')) and not s.startswith(('let ', 'const ', 'static ', 'pub ', '_')):
                res.append((f, i, ''))
            m = re.match(r'^(\s*(?:\} else )?if )(?!let\b)(.+)( \{\s*)$', code)
            if m:
                res.append((f, i, m.group(1) + 'true || ' + m.group(2) + m.group(3)))
                res.append((f, i, m.group(1) + 'false && ' + m.group(2) + m.group(3)))
    return res


FIRST = {'signal_vec.rs': ['C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25'], 'signal_map.rs': ['C16', 'C26', 'C27', 'C28'],
         'signal.rs': ['C16', 'C11', 'C12', 'C13', 'C14', 'C15', 'C25'], 'mutable.rs': ['C01', 'C03', 'C04', 'C02'], 'broadcaster.rs': ['C07', 'C16', 'C30'],
         'channel.rs': ['C05', 'C06'], 'future.rs': ['C08'], 'macros.rs': ['C11'], 'internal.rs': ['C11', 'C16'], 'atomic.rs': ['C05', 'C09']}
ALL = ['C%02d' % i for i in range(1, 31)]
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='2')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR'):
    env.pop(k, None)


def sh(cmd, e, limit, cwd=None):
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, 'timeout'


def setup(w):
    d = '%s/w%d' % (TOP, w)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/repo'):
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
    if os.path.exists(d + '/harness'):
        shutil.rmtree(d + '/harness')
    shutil.copytree(VERIF + '/harness', d + '/harness', ignore=shutil.ignore_patterns('target'))
    t = open(d + '/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "../repo"')
    t = t.replace('incremental = false', 'incremental = true').replace('debug = "line-tables-only"', 'debug = false').replace('[profile.release.package."*"]\nopt-level = 2', '[profile.release.package."*"]\nopt-level = 1')
    open(d + '/harness/Cargo.toml', 'w').write(t)
    for f in FILES:
        shutil.copy(os.path.join(REPO, f), d + '/repo/' + f)
    return d


def judge(d, f, line, text):
    path = d + '/repo/' + f
    orig = open(path).read()
    src = orig.split('\n')
    src[line] = text
    open(path, 'w').write('\n'.join(src))
    try:
        e = dict(env, RUSTFLAGS='-A mismatched_lifetime_syntaxes --cap-lints allow --cfg futures_signals_hooks', CARGO_TARGET_DIR=d + '/target')
        code, log = sh(['cargo', 'build', '--release', '--offline', '--manifest-path', d + '/harness/Cargo.toml'], e, 300)
        if code != 0:
            return 'no compile', ''
        order = FIRST[os.path.basename(f)]
        order = order + [p for p in ALL if p not in order]
        for p in order:
            code, log = sh([d + '/target/release/fsverif', '--property', p, '--seconds', '1.5', '--threads', '2', '--replay-dir', d + '/rep'], env, 200)
            if code == 1:
                m = re.search(r'^%s: (.*)' % p, log, re.M)
                return 'caught', p + ' ' + (m.group(1)[:120] if m else '')
            if code != 0:
                other = log[-150:]
        e = dict(env, RUSTFLAGS='--cap-lints allow', CARGO_TARGET_DIR=d + '/target-test')
        code, log = sh(['cargo', 'test', '--workspace', '--offline', '--', '--test-threads', '2'], e, 400, d + '/repo')
        if code != 0:
            return 'tests', ' '.join(re.findall(r'^test (.*) \.\.\. FAILED', log, re.M))[:200] or log[-200:]
        return 'SURVIVED', ''
    finally:
        open(path, 'w').write(orig)


def main():
    ms = mutants()
    mode = sys.argv[1]
    if mode == 'list':
        ms = [m for m in ms if len(sys.argv) < 3 or re.search(sys.argv[2], m[0])]
        print(len(ms))
        for f in FILES:
            print(f, sum(m[0] == f for m in ms))
        return
    log = sys.argv[2]
    ms = [m for m in ms if len(sys.argv) < 4 or re.search(sys.argv[3], m[0])]
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    done = set()
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new']))
    random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(ms)
    lock = threading.Lock()
    it = iter(ms)

    def work(w):
        d = setup(w)
        while not os.path.exists(TOP + '/stop'):
            with lock:
                m = next(it, None)
                while m and m in {(a, b, c) for a, b, c in done}:
                    m = next(it, None)
            if not m:
                return
            f, i, new = m
            old = open(os.path.join(REPO, f)).read().split('\n')[i]
            verdict, why = judge(d, f, i, new)
            with lock, open(log, 'a') as o:
                o.write(json.dumps({'verdict': verdict, 'why': why, 'file': f, 'line': i, 'old': old.strip(), 'new': new}) + '\n')

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
