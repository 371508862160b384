//! Runs the cases of a check in parallel, collects the verdicts and writes the evidence.

use crate::rng::{hash_str, mix};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one case observed.
#[derive(Default)]
pub struct Case {
    /// (property ids this refutes, description)
    pub violations: Vec<(&'static [&'static str], String)>,
    /// Hash of the executed interleaving / script: cases with the same hash are the same case.
    pub sig: u64,
    pub nontrivial: bool,
    pub inconclusive: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
    /// Human readable description of the case.
    pub desc: Vec<String>,
    pub want_desc: bool,
}

impl Case {
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.want_desc {
            let s = s();
            self.desc.push(s);
        }
    }

    pub fn fail(&mut self, props: &'static [&'static str], msg: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push((props, msg.into()));
        }
    }

    pub fn mix_sig(&mut self, x: u64) {
        self.sig = mix(self.sig, x);
    }
}

pub struct Part {
    pub name: &'static str,
    /// Maximum number of cases
    pub cases: u64,
    /// Share of the time budget
    pub weight: f64,
    pub run: Box<dyn Fn(u64, &mut Case) + Sync>,
}

pub fn part(name: &'static str, cases: u64, weight: f64, run: impl Fn(u64, &mut Case) + Sync + 'static) -> Part {
    Part { name, cases, weight, run: Box::new(run) }
}

pub struct Config {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub seconds: f64,
    pub threads: usize,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub min_distinct: usize,
    /// What external tools reported (see sanitizers.py)
    pub external: Option<serde_json::Value>,
}

thread_local! {
    static PANIC_INFO: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_INFO.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{} at {}", msg, loc));
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    PANIC_INFO.with(|p| p.borrow_mut().take())
}

/// Marks a panic which was raised on purpose by the harness (it is not a verdict about the code).
pub struct HarnessPanic;

pub fn run_one(part: &Part, property: &'static str, seed: u64, want_desc: bool) -> Case {
    let run = &*part.run;
    crate::supervise::enter(part.name, seed);
    let mut case = Case { want_desc, ..Case::default() };
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| run(seed, &mut case)));
    if r.is_err() {
        let msg = take_panic().unwrap_or_else(|| "unknown panic".into());
        if msg.contains("/verif/") || msg.contains("harness/src") || msg.starts_with("HARNESS") || msg.contains(" at src/") {
            case.inconclusive = Some(format!("harness panic: {}", msg));
        } else {
            case.violations.push((leak_slice(property), format!("panic: {}", msg)));
        }
    }
    take_panic();
    crate::supervise::leave(part.name, seed);
    case
}

fn leak_slice(p: &'static str) -> &'static [&'static str] {
    Box::leak(vec![p].into_boxed_slice())
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    distinct: HashSet<u64>,
    inconclusive: u64,
    inconclusive_why: BTreeMap<String, u64>,
    counters: BTreeMap<&'static str, u64>,
    per_part: BTreeMap<&'static str, u64>,
    violations: Vec<(String, u64, String)>,
    other: u64,
    other_what: std::collections::BTreeMap<String, u64>,
}

/// Exit code: 0 held, 1 violated, 2 error.
pub fn run_parts(cfg: &Config, property: &'static str, parts: Vec<Part>) -> i32 {
    let start = Instant::now();
    let total_weight: f64 = parts.iter().map(|p| p.weight).sum();
    let mut acc = Acc::default();
    let mut samples: Vec<serde_json::Value> = vec![];

    for part in &parts {
        let budget = Duration::from_secs_f64(cfg.seconds * part.weight / total_weight);
        let pstart = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let shared = Mutex::new(Acc::default());
        let base = mix(mix(cfg.seed, hash_str(property)), hash_str(part.name));

        std::thread::scope(|scope| {
            for _ in 0..cfg.threads {
                scope.spawn(|| {
                    let mut local = Acc::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= part.cases || stop.load(Ordering::Relaxed) || (i > 200 && pstart.elapsed() > budget) {
                            break;
                        }
                        let seed = mix(base, i);
                        let case = run_one(part, property, seed, false);
                        local.evaluations += 1;
                        if case.nontrivial {
                            if local.distinct.len() < 8_000_000 {
                                local.distinct.insert(mix(case.sig, hash_str(part.name)));
                            }
                        }
                        if let Some(why) = case.inconclusive {
                            local.inconclusive += 1;
                            *local.inconclusive_why.entry(why).or_insert(0) += 1;
                        }
                        for (k, v) in case.counters {
                            *local.counters.entry(k).or_insert(0) += v;
                        }
                        for (props, msg) in case.violations {
                            if props.contains(&property) {
                                local.violations.push((part.name.to_string(), seed, msg));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            } else {
                                local.other += 1;
                                if local.other_what.len() < 20 {
                                    let what: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(100).collect();
                                    *local.other_what.entry(format!("{:?} {}", props, what)).or_insert(0) += 1;
                                }
                            }
                        }
                    }
                    let mut s = shared.lock().unwrap();
                    s.evaluations += local.evaluations;
                    s.distinct.extend(local.distinct);
                    s.inconclusive += local.inconclusive;
                    for (k, v) in local.inconclusive_why {
                        *s.inconclusive_why.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in local.counters {
                        *s.counters.entry(k).or_insert(0) += v;
                    }
                    s.violations.extend(local.violations);
                    s.other += local.other;
                    for (k, v) in local.other_what {
                        *s.other_what.entry(k).or_insert(0) += v;
                    }
                });
            }
        });

        let s = shared.into_inner().unwrap();
        acc.evaluations += s.evaluations;
        *acc.per_part.entry(part.name).or_insert(0) += s.evaluations;
        acc.distinct.extend(s.distinct);
        acc.inconclusive += s.inconclusive;
        for (k, v) in s.inconclusive_why {
            *acc.inconclusive_why.entry(k).or_insert(0) += v;
        }
        for (k, v) in s.counters {
            *acc.counters.entry(k).or_insert(0) += v;
        }
        acc.other += s.other;
        for (k, v) in s.other_what {
            *acc.other_what.entry(k).or_insert(0) += v;
        }
        acc.violations.extend(s.violations);

        // A sample of what was run
        let mut shown = 0;
        for i in 0..6 {
            let seed = mix(base, i);
            let case = run_one(part, property, seed, true);
            if case.nontrivial || i == 5 {
                let mut d = case.desc;
                d.truncate(60);
                samples.push(serde_json::json!({ "part": part.name, "case_seed": seed, "events": d }));
                shown += 1;
                if shown == 1 {
                    break;
                }
            }
        }
    }

    acc.violations.sort_by(|a, b| a.1.cmp(&b.1));
    let mut violated = !acc.violations.is_empty();

    if let Some((part_name, seed, msg)) = acc.violations.first() {
        let part = parts.iter().find(|p| p.name == part_name).unwrap();
        let case = run_one(part, property, *seed, true);
        let path = format!("{}/{}-{:016x}.json", cfg.replay_dir, property, seed);
        let _ = std::fs::create_dir_all(&cfg.replay_dir);
        let doc = serde_json::json!({
            "property": property,
            "part": part_name,
            "case_seed": seed.to_string(),
            "what": msg,
            "rerun_violations": case.violations.iter().map(|v| v.1.clone()).collect::<Vec<_>>(),
            "events": case.desc,
            "replay_cmd": format!("/verif/check.sh {} replay {}", property, path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: {}", property, msg);
        println!("VIOLATION property={} replay={}", property, path);
    }

    let mut external_cases = 0;
    if let Some(ext) = &cfg.external {
        for t in ext["tools"].as_object().into_iter().flat_map(|t| t.values()) {
            external_cases += t["cases"].as_u64().unwrap_or(0);
        }
        for (i, v) in ext["violations"].as_array().into_iter().flatten().enumerate().take(3) {
            let path = format!("{}/{}-{}-{}.json", cfg.replay_dir, property, v["tool"].as_str().unwrap_or("tool"), i);
            let _ = std::fs::create_dir_all(&cfg.replay_dir);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
            println!("{}: {}: {}", property, v["tool"].as_str().unwrap_or("?"), v["what"].as_str().unwrap_or("?"));
            println!("VIOLATION property={} replay={}", property, path);
            violated = true;
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut assumptions = cfg.assumptions.clone();
    if cfg!(not(feature = "sched")) {
        assumptions.push("the hooks could not be compiled in: the concurrent parts ran as free running threads".into());
    }
    let doc = serde_json::json!({
        "property": property,
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.evaluations + external_cases,
            "distinct_nontrivial": acc.distinct.len(),
            "rule": cfg.rule,
            "samples": samples,
            "cases_per_part": acc.per_part,
            "sanitizers": cfg.external.as_ref().map(|e| e["tools"].clone()),
            "observed": acc.counters,
            "inconclusive_cases": acc.inconclusive,
            "inconclusive_reasons": acc.inconclusive_why.iter().take(5).collect::<BTreeMap<_, _>>(),
            "violations_of_other_properties_seen": acc.other,
            "violations_of_other_properties_samples": acc.other_what,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": acc.violations.len() + cfg.external.as_ref().and_then(|e| e["violations"].as_array()).map_or(0, |v| v.len()),
    });
    if let Some(path) = &cfg.evidence {
        if let Some(dir) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        if let Err(e) = std::fs::write(path, serde_json::to_string_pretty(&doc).unwrap()) {
            eprintln!("cannot write evidence {}: {}", path, e);
            return 2;
        }
    }

    println!(
        "{} tier={} seed={} evaluations={} distinct={} inconclusive={} other={} wall={:.1}s",
        property, cfg.tier, cfg.seed, acc.evaluations, acc.distinct.len(), acc.inconclusive, acc.other, wall
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("{:?}\n{:?}\n{:?}", acc.per_part, acc.counters, acc.inconclusive_why);
    }

    if violated {
        1
    } else if acc.inconclusive * 2 > acc.evaluations {
        println!("ERROR: most cases were inconclusive: {:?}", acc.inconclusive_why.iter().next());
        2
    } else if acc.distinct.len() < cfg.min_distinct {
        println!("ERROR: observed only {} distinct cases", acc.distinct.len());
        2
    } else {
        0
    }
}
