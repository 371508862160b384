#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
CONC = ("schedule-controlled stress (hooked locks/atomics, random and PCT schedules) with online and offline history monitors",
        "Millions of seeded executions of the real code, each judged by a monitor at logical quiescence; finite random workloads of 2-7 tasks; sequentially consistent interleavings (weak memory is exercised by C09). Trusts the harness scheduler, its oracle and std/futures primitives.")
MODEL = ("model-based runtime monitoring: random histories against strict scripted sources, replicas compared with a reference model at quiescence",
         "Random histories, not all of them; sizes are small (lists up to about 10 items, dozens of rounds). Trusts the reference model and the scripted sources.")
CLAIM = {}
WEAK = (CONC[0] + "; convergence runs under Miri's weak memory emulation",
        "Millions of seeded executions of the real code, each judged by a monitor at logical quiescence (finite random workloads of 2-7 tasks, sequentially consistent interleavings), and some thousand free running executions under Miri's weak memory. Trusts the harness scheduler, its oracle, Miri's memory model and std/futures primitives.")
for p in ['C03', 'C10', 'C28']:
    CLAIM[p] = CONC
for p in ['C01', 'C02', 'C05', 'C06', 'C07', 'C08']:
    CLAIM[p] = WEAK
CLAIM.update(json.load(open(os.path.join(here, 'tools', 'claims.json'))) if os.path.exists(os.path.join(here, 'tools', 'claims.json')) else {})
SEQ = ("model-based runtime monitoring: random histories of operations and listeners against a reference model, with ledgers of wakes, clones, drops and live heap bytes",
       "Random histories, not all of them; sizes are small (about 10 items, dozens of operations), single-threaded (C28 and C09 cover threads). Trusts the reference model.")
for p in ['C04', 'C17', 'C26', 'C29', 'C30']:
    CLAIM[p] = SEQ
for p in ['C14', 'C15', 'C24', 'C11', 'C12', 'C13', 'C16', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C25', 'C27']:
    CLAIM[p] = MODEL
CLAIM['C12'] = (MODEL[0] + "; scripted inputs of which every delivered value is known, compared value by value", MODEL[1])
CLAIM['C16'] = (MODEL[0] + "; random adapter trees under controlled schedules of several writers and readers", MODEL[1])
CLAIM['C09'] = ("Miri (random schedules, weak memory, stacked and tree borrows), ThreadSanitizer and AddressSanitizer/LeakSanitizer runs of unsynchronized safe client programs; drop ledgers under a controlled scheduler; auto-trait probes",
                "Random programs of up to 4 threads; thousands of executions under Miri and hundreds of thousands under the sanitizers per run. After a panicking closure only memory safety is checked, not leaks. Trusts the tools' models (TSan: the executed synchronization; Miri: its weak memory emulation).")
doc = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "--cfg futures_signals_hooks",
        "enable": "check.sh builds the harness crate (path dependency on /repo) with RUSTFLAGS=--cfg futures_signals_hooks",
        "source_commits": ["de2cdbc", "274ba20", "d0246c8"],
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p['id']
    if i in CLAIM:
        t, n = CLAIM[i]
        doc['checks'].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                              "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        doc['not_applicable'].append({"property": i, "reason": "the check is not built yet"})
json.dump(doc, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
