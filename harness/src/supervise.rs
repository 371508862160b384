//! Runs the check in a child process, so that a crash or a hang of the code under test becomes a verdict.
//!
//! Every worker of the child writes the case it is about to run into its slot of a file. When the child is ended
//! by a signal, or its watchdog sees a case which does not end, the parent names that case as the violation.

use std::cell::Cell;
use std::collections::HashMap;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::Duration;

const SLOT: usize = 256;
const HANG_EXIT: i32 = 77;
/// Tells check.sh to run again without the hooks
const UNHOOKED_EXIT: i32 = 78;
/// CPU time (seconds) after which a case is said not to end. Cases take milliseconds.
const HANG_CPU_S: u64 = 40;
/// Time (seconds) for which a case may sleep without a single context switch
const HANG_SLEEP_S: u64 = 90;

static FILE: OnceLock<Option<File>> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MY: Cell<Option<usize>> = const { Cell::new(None) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn file() -> Option<&'static File> {
    FILE.get_or_init(|| {
        let path = std::env::var_os("FSVERIF_SLOTS")?;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
        Some(f)
    })
    .as_ref()
}

fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

fn write(part: &str, seed: u64, state: char) {
    let Some(f) = file() else { return };
    let i = MY.with(|m| {
        m.get().unwrap_or_else(|| {
            let i = NEXT.fetch_add(1, Ordering::Relaxed);
            m.set(Some(i));
            TID.with(|t| t.set(tid()));
            i
        })
    });
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let mut b = [b' '; SLOT];
    let s = format!("{}|{}|{}|{}|{}|", state, n, TID.with(|t| t.get()), seed, part);
    let k = s.len().min(SLOT);
    b[..k].copy_from_slice(&s.as_bytes()[..k]);
    let _ = f.write_at(&b, (i * SLOT) as u64);
}

thread_local! {
    static TID: Cell<u64> = const { Cell::new(0) };
}

pub fn enter(part: &str, seed: u64) {
    write(part, seed, 'R');
    crate::alloc::limit(Some(1 << 30));
}

pub fn leave(part: &str, seed: u64) {
    crate::alloc::limit(None);
    write(part, seed, 'D');
}

struct Slot {
    running: bool,
    n: u64,
    tid: u64,
    seed: u64,
    part: String,
}

fn read(f: &File) -> Vec<Slot> {
    let mut out = vec![];
    let mut b = [0u8; SLOT];
    let mut i = 0;
    while f.read_exact_at(&mut b, (i * SLOT) as u64).is_ok() {
        i += 1;
        let s = String::from_utf8_lossy(&b).to_string();
        let v: Vec<&str> = s.split('|').collect();
        if v.len() < 5 {
            continue;
        }
        out.push(Slot { running: v[0] == "R", n: v[1].parse().unwrap_or(0), tid: v[2].parse().unwrap_or(0), seed: v[3].parse().unwrap_or(0), part: v[4].to_string() });
    }
    out
}

/// (CPU ticks, context switches, whether it sleeps) of a thread of this process
fn usage(tid: u64) -> Option<(u64, u64, bool)> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest: Vec<&str> = stat[stat.rfind(')')? + 2..].split(' ').collect();
    let ticks = rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?;
    let status = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
    let mut switches = 0;
    for l in status.lines() {
        if l.contains("ctxt_switches") {
            switches += l.rsplit('\t').next()?.trim().parse::<u64>().unwrap_or(0);
        }
    }
    // Runnable threads are not asleep, however long they wait for a CPU
    Some((ticks, switches, rest.first() == Some(&"S")))
}

/// In the child: ends the process when a case does not end.
pub fn watchdog() {
    let Some(f) = file() else { return };
    std::thread::spawn(move || {
        // slot -> (n, ticks when first seen, switches, seconds with the same number of switches)
        let mut seen: HashMap<usize, (u64, u64, u64, u64)> = HashMap::new();
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (i, s) in read(f).into_iter().enumerate() {
                if !s.running {
                    seen.remove(&i);
                    continue;
                }
                let Some((ticks, switches, asleep)) = usage(s.tid) else {
                    seen.remove(&i);
                    continue;
                };
                let e = seen.entry(i).or_insert((s.n, ticks, switches, 0));
                if e.0 != s.n {
                    *e = (s.n, ticks, switches, 0);
                    continue;
                }
                if e.2 == switches && asleep {
                    e.3 += 1;
                } else {
                    e.2 = switches;
                    e.3 = 0;
                }
                if (ticks - e.1) / 100 > HANG_CPU_S || e.3 > HANG_SLEEP_S {
                    let kind = if (ticks - e.1) / 100 > HANG_CPU_S { 'H' } else { 'Z' };
                    let b = format!("{}|{}|{}|{}|{}|", kind, s.n, s.tid, s.seed, s.part);
                    let mut buf = [b' '; SLOT];
                    let k = b.len().min(SLOT);
                    buf[..k].copy_from_slice(&b.as_bytes()[..k]);
                    let _ = f.write_at(&buf, (1023 * SLOT) as u64);
                    std::process::exit(HANG_EXIT);
                }
            }
        }
    });
}

pub enum End {
    Code(i32),
    /// (part, seed, what)
    Broken(Vec<(String, u64)>, String, u64),
}

fn child(args: &[String], slots: &std::path::Path) -> std::io::Result<End> {
    File::create(slots)?;
    let status = std::process::Command::new(std::env::current_exe()?).args(args).env("FSVERIF_SLOTS", slots).status()?;
    let all = read(&File::open(slots)?);
    let cases: u64 = all.iter().map(|s| s.n / 2).sum();
    if status.code() == Some(HANG_EXIT) {
        let mut b = [0u8; SLOT];
        let f = File::open(slots)?;
        f.read_exact_at(&mut b, (1023 * SLOT) as u64)?;
        let s = String::from_utf8_lossy(&b).to_string();
        let v: Vec<&str> = s.split('|').collect();
        if v[0] == "Z" && cfg!(feature = "sched") {
            // With the hooks every lock of the crate is seen by the scheduler. What sleeps there is a lock which isn't hooked,
            // and which the coroutines (all on one thread) might never release: only real threads can decide.
            println!("note: part {} (case seed {}) waits for a lock which is not hooked", v[4], v[3]);
            return Ok(End::Code(UNHOOKED_EXIT));
        }
        return Ok(End::Broken(vec![(v[4].to_string(), v[3].parse().unwrap_or(0))], "a call does not return (endless loop, or it waits forever)".into(), cases));
    }
    match status.signal() {
        // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: raised by what ran here
        Some(sig @ (4 | 5 | 6 | 7 | 8 | 11)) => {
            let running: Vec<_> = all.iter().filter(|s| s.running).map(|s| (s.part.clone(), s.seed)).collect();
            Ok(End::Broken(running, format!("the process crashed with signal {} (memory error, abort, stack overflow, or more than 1 GB allocated by one case)", sig), cases))
        }
        Some(sig) => {
            println!("ERROR: ended by signal {}", sig);
            Ok(End::Code(2))
        }
        None => Ok(End::Code(status.code().unwrap_or(2))),
    }
}

/// In the parent: runs the same arguments in a child. A crash is run again, case by case, to name the one at fault.
pub fn supervise(property: &str, args: &[String], tier: &str, run_seed: u64, replay_dir: &str, evidence: Option<&str>, replaying: Option<&str>) -> i32 {
    let dir = std::env::temp_dir().join(format!("fsverif-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join("slots");
    let r = child(args, &slots);
    let code = match r {
        Err(e) => {
            println!("ERROR: {}", e);
            2
        }
        Ok(End::Code(c)) => c,
        Ok(End::Broken(cases, what, n)) => {
            if let Some(path) = replaying {
                println!("{}: {}", property, what);
                println!("VIOLATION property={} replay={}", property, path);
                1
            } else {
                report(property, cases, &what, n, tier, run_seed, replay_dir, evidence, &slots)
            }
        }
    };
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_dir(&dir);
    code
}

fn report(property: &str, cases: Vec<(String, u64)>, what: &str, n: u64, tier: &str, run_seed: u64, replay_dir: &str, evidence: Option<&str>, slots: &std::path::Path) -> i32 {
    let _ = std::fs::create_dir_all(replay_dir);
    let path_of = |seed: u64| format!("{}/{}-{:016x}.json", replay_dir, property, seed);
    let mut culprit = None;
    if what.contains("does not return") {
        culprit = cases.first().cloned();
    }
    let write = |part: &str, seed: u64, confirmed: bool| {
        let path = path_of(seed);
        let doc = serde_json::json!({
            "property": property, "part": part, "case_seed": seed.to_string(), "what": what,
            "reproduced_alone": confirmed, "cases_running": cases.iter().map(|c| format!("{} {}", c.0, c.1)).collect::<Vec<_>>(),
            "replay_cmd": format!("/verif/check.sh {} replay {}", property, path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        path
    };
    if culprit.is_none() {
        for (part, seed) in &cases {
            let path = write(part, *seed, true);
            let again = child(&["--property".into(), property.into(), "--replay".into(), path.clone()], slots);
            if matches!(again, Ok(End::Broken(..)) | Ok(End::Code(1))) {
                culprit = Some((part.clone(), *seed));
                break;
            }
            let _ = std::fs::remove_file(&path);
        }
    }
    let confirmed = culprit.is_some();
    let Some((part, seed)) = culprit.or_else(|| cases.first().cloned()) else {
        println!("ERROR: {} outside of any case", what);
        return 2;
    };
    let path = write(&part, seed, confirmed);
    if let Some(e) = evidence {
        let doc = serde_json::json!({
            "property": property, "tier": tier, "seed": run_seed, "level": "exploration",
            "coverage": { "evaluations": n, "distinct_nontrivial": 0, "rule": "the run crashed or hung: every case begun until then is counted", "samples": [format!("{} case seed {}", part, seed)] },
            "assumptions": [], "wall_s": 0.0, "violations": 1,
        });
        let _ = std::fs::write(e, serde_json::to_string_pretty(&doc).unwrap());
    }
    println!("{}: {} (part {}, case seed {})", property, what, part, seed);
    println!("VIOLATION property={} replay={}", property, path);
    1
}
