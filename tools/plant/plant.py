#!/usr/bin/env python3
"""Turns the planted bugs of bugs*.py into /verif/seeded/<id>/ and confirms each of them.

plant.py make [ID..]     patch, build, test, and demonstrate in a scratch copy; keep the ones which count
plant.py detect [ID..]   apply each kept bug to /repo, run the check of its property, undo it
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SCRATCH = "/tmp/plant"
BUGS = []

def bug(id, prop, file, edits, needs, breaks, demo, miri=False):
    BUGS.append(dict(miri=miri, id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(ids):
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}")
    sh(f"git -C {SCRATCH} fetch -q /repo HEAD && git -C {SCRATCH} checkout -qf FETCH_HEAD")
    tests = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {SCRATCH}").replace("/repo/target", f"{SCRATCH}/target")
    open("/tmp/plant_test.sh", "w").write(tests)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in BUGS:
        if ids and b["id"] not in ids: continue
        sh(f"git -C {SCRATCH} checkout -q -- .")
        ok = True
        edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            path = f"{SCRATCH}/{f}"
            text = open(path).read()
            if text.count(old) != 1:
                print(b["id"], "EDIT does not match once:", text.count(old), repr(old[:80])); ok = False; break
            open(path, "w").write(text.replace(old, new))
        if not ok: continue
        patch = sh(f"git -C {SCRATCH} diff").stdout
        r = sh("timeout 100 bash /tmp/plant_test.sh /tmp/plant_out.json")
        try:
            out = json.load(open("/tmp/plant_out.json"))
        except Exception:
            out = {}
        if r.returncode != 0:
            print(b["id"], "TESTS FAIL", r.stdout[-1500:]); continue
        d = f"{VERIF}/seeded/{b['id']}"
        tmp = f"/tmp/plant_demo/{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        shutil.copy(f"{HERE}/demo{'_miri' if b['miri'] else ''}.sh", f"{tmp}/demo.sh")
        open(f"{tmp}/demo.rs", "w").write(open(f"{HERE}/prelude.rs").read() + b["demo"])
        bad = sh(f"bash {tmp}/demo.sh", cwd=SCRATCH)
        good = sh(f"bash {tmp}/demo.sh", cwd="/repo")
        if good.returncode != 0 or bad.returncode in (0, 98, 99):
            print(b["id"], "DEMO", "good", good.returncode, good.stdout[-1500:], "bad", bad.returncode, bad.stdout[-1500:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        open(f"{d}/patch.diff", "w").write(patch)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(b["id"], "kept; demo with the bug:", bad.returncode, bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else "", flush=True)
    sh(f"git -C {SCRATCH} checkout -q -- .")

def detect(ids, props=None):
    for d in sorted(glob.glob(f"{VERIF}/seeded/*/")):
        id = os.path.basename(d[:-1])
        if ids and id not in ids: continue
        prop = json.load(open(d + "meta.json"))["property"]
        if os.environ.get("SKIP") and prop in os.environ["SKIP"]: continue
        r = sh(f"git -C /repo apply {d}patch.diff")
        if r.returncode: print(id, "PATCH does not apply", r.stdout); continue
        t = time.time()
        try:
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"): env.pop(k, None)
            r = sh(f"./check.sh {os.environ.get('PROP', prop)} quick", cwd=VERIF, env=env)
        finally:
            sh("git -C /repo checkout -- .")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{id:40} {prop} exit {r.returncode} {time.time()-t:5.0f}s", "CAUGHT" if r.returncode == 1 and v and f"property={prop}" in v[0] else "MISSED", flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-800:])

if __name__ == "__main__":
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        exec(compile(open(f).read(), f, "exec"))
    dict(make=make, detect=detect)[sys.argv[1]](sys.argv[2:])
