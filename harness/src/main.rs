//! Runtime monitors for futures-signals. One binary, one sub-check per property.

mod alloc;
mod conc;
mod ctx;
mod lin;
mod rng;
mod sched;
mod st;
mod supervise;
mod util;

use ctx::{part, Config, Part};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

struct Check {
    id: &'static str,
    rule: &'static str,
    quick_s: f64,
    thorough_s: f64,
    parts: fn(thorough: bool) -> Vec<Part>,
}

const MANY: u64 = u64::MAX;

use st::expr as e;
use st::tree::{Grammar, Kind::*, M_KINDS, S_KINDS, V_KINDS};

fn tree(name: &'static str, props: st::Props, roots: &'static [st::tree::Kind], depth: (usize, usize), max_len: usize, weight: f64) -> Part {
    part(name, MANY, weight, st::tree::run(Grammar { props, roots, depth, max_len }))
}

const TREE: &str = "a case is one random pipeline of adapters over random scripted and real sources with random batches of changes (also while polling), endings and partial or spurious polls; distinct = distinct (pipeline, changes, poll results); non-trivial = at least three polls";

const FUT: &str = "a case is one adapter or consumer with futures and streams which finish when the monitor decides, with random changes of the source (also while polling); distinct = distinct sequences of changes, finished futures and poll results; non-trivial = at least two or three polls";

const SEQ: &str = "a case is one random history of operations (also invalid ones), listeners which come and go, and polls; distinct = distinct sequences of operations, contents and poll results; non-trivial = at least three operations";

fn checks() -> Vec<Check> {
    const CONC: &str = "a case is one execution of a random concurrent workload under a seeded schedule (a decision at every lock and atomic operation); distinct = distinct executed sequences of (task, operation); non-trivial = at least two context switches";
    const CONCSEQ: &str = "a case is one execution of a random concurrent workload under a seeded schedule (a decision at every lock and atomic operation), or one long single-threaded history; distinct = distinct executed sequences of (task, operation), or of changes and poll results; non-trivial = at least two context switches, or three changes";
    vec![
        Check { id: "C01", rule: CONCSEQ, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("mutable", MANY, 1.0, conc::mutable::run), part("long histories", MANY, 0.15, st::long::run(0))] },
        Check { id: "C02", rule: CONCSEQ, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("mutable", MANY, 1.0, conc::mutable::run), part("long histories", MANY, 0.15, st::long::run(0))] },
        Check { id: "C03", rule: CONC, quick_s: 25.0, thorough_s: 760.0, parts: |_| vec![part("mutable", MANY, 1.0, conc::mutable::run)] },
        Check { id: "C04", rule: SEQ, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![part("mutable operations", MANY, 1.0, st::prims::run), part("coarse equality", MANY, 0.1, st::prims::coarse), part("long histories", MANY, 0.25, st::long::run(0))] },
        Check { id: "C05", rule: CONCSEQ, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("channel", MANY, 1.0, conc::channel::run), part("long histories", MANY, 0.15, st::long::run(1))] },
        Check { id: "C06", rule: CONCSEQ, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("channel", MANY, 1.0, conc::channel::run), part("long histories", MANY, 0.15, st::long::run(1))] },
        Check { id: "C07", rule: CONCSEQ, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("broadcaster", MANY, 1.0, conc::broadcaster::run), part("long histories", MANY, 0.15, st::long::run(2))] },
        Check { id: "C08", rule: CONC, quick_s: 25.0, thorough_s: 560.0, parts: |_| vec![part("cancelable", MANY, 1.0, conc::cancel::run)] },
        Check {
            id: "C09",
            rule: "a case is one client program under Miri, ThreadSanitizer or AddressSanitizer/LeakSanitizer, or one monitored history with a ledger of every value; distinct = distinct histories of the latter (executed sequences of operations); non-trivial = at least two context switches or three operations",
            quick_s: 40.0,
            thorough_s: 160.0,
            parts: |_| {
                vec![
                    part("channel", MANY, 1.0, conc::channel::run),
                    part("cancelable", MANY, 1.0, conc::cancel::run),
                    part("mutable_vec", MANY, 0.7, conc::coll::run_vec),
                    part("mutable_btree_map", MANY, 0.7, conc::coll::run_map),
                    part("mutable_vec operations", MANY, 0.5, st::coll::run_vec),
                    part("mutable_btree_map operations", MANY, 0.5, st::coll::run_map),
                    part("plain values", MANY, 0.3, st::plain::run),
                    part("map_future", MANY, 0.3, st::fut::map_future),
                    part("throttle", MANY, 0.3, st::fut::throttle),
                    part("from_future and from_stream", MANY, 0.3, st::fut::from_fut_stream),
                    part("consumers", MANY, 0.3, st::fut::consumers),
                    part("delay_remove", MANY, 0.3, st::fut::delay_remove),
                ]
            },
        },
        Check {
            id: "C10",
            rule: CONC,
            quick_s: 30.0,
            thorough_s: 760.0,
            parts: |_| {
                vec![
                    part("mutable", MANY, 1.0, conc::mutable::run),
                    part("channel", MANY, 1.0, conc::channel::run),
                    part("broadcaster", MANY, 1.0, conc::broadcaster::run),
                    part("cancelable", MANY, 1.0, conc::cancel::run),
                    part("mutable_vec", MANY, 1.0, conc::coll::run_vec),
                    part("mutable_btree_map", MANY, 1.0, conc::coll::run_map),
                    part("everything", MANY, 1.0, conc::mixed::run),
                    part("closures which use the handles", MANY, 1.0, conc::reentrant::run),
                    part("mutable_vec of numbers", MANY, 0.5, conc::coll::run_vec_copy),
                    part("mutable_btree_map of numbers", MANY, 0.5, conc::coll::run_map_copy),
                ]
            },
        },
        Check { id: "C11", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("map_ref", &["C11"], &[Many(e::Many::Ref), Many(e::Many::Mut), Many(e::Many::And), Many(e::Many::Or), Un(e::Un::Not)], (1, 1), 4, 1.0)] },
        Check {
            id: "C12",
            rule: TREE,
            quick_s: 20.0,
            thorough_s: 760.0,
            parts: |_| {
                vec![part("exact sequences", MANY, 0.7, st::seq::run), part("coarse equality", MANY, 0.05, st::prims::coarse), tree(
                    "value combinators",
                    &["C12"],
                    &[
                        Un(e::Un::Map), Un(e::Un::Inspect), Un(e::Un::Eq), Un(e::Un::Neq), Un(e::Un::Dedupe), Un(e::Un::DedupeCloned), Un(e::Un::DedupeMap), Un(e::Un::Boxed),
                        Un(e::Un::Debug), Un(e::Un::OptionSome), Un(e::Un::ResultOk), Un(e::Un::ByMut), Keep(e::Keep::FilterMap), Keep(e::Keep::FilterMap), Keep(e::Keep::StopIf), Keep(e::Keep::First), ConstS,
                    ],
                    (1, 1),
                    4,
                    1.0,
                )]
            },
        },
        Check { id: "C13", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("switch and flatten", &["C13"], &[Switch, FlattenS], (1, 1), 4, 1.0)] },
        Check { id: "C14", rule: FUT, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![
            part("map_future", MANY, 1.0, st::fut::map_future),
            part("throttle", MANY, 1.0, st::fut::throttle),
            part("from_future and from_stream", MANY, 0.5, st::fut::from_fut_stream),
        ] },
        Check { id: "C15", rule: FUT, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![
            part("consumers", MANY, 1.0, st::fut::consumers),
            part("list and map consumers", MANY, 0.5, st::fut::list_consumers),
        ] },
        Check { id: "C16", rule: TREE, quick_s: 40.0, thorough_s: 760.0, parts: |_| vec![
            tree("signal pipelines", &["C16"], S_KINDS, (1, 4), 4, 1.0),
            tree("signal vec pipelines", &["C16"], V_KINDS, (1, 4), 4, 1.5),
            tree("signal map pipelines", &["C16"], M_KINDS, (1, 4), 4, 0.5),
            part("everything", MANY, 1.0, conc::mixed::run),
            part("closures which use the handles", MANY, 0.3, conc::reentrant::run),
        ] },
        Check { id: "C17", rule: SEQ, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![part("mutable_vec operations", MANY, 1.0, st::coll::run_vec), part("long histories", MANY, 0.2, st::longcoll::run(0))] },
        Check { id: "C18", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("map and filter", &["C18"], &[Map, Filter, Filter, FilterMap, FilterMap], (1, 1), 7, 1.0)] },
        Check { id: "C19", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("map_signal and filter_signal", &["C19"], &[MapSignal, FilterSignal, FilterSignal], (1, 1), 6, 1.0)] },
        Check { id: "C20", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("sort", &["C20"], &[Sort], (1, 1), 9, 1.0)] },
        Check { id: "C21", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("chain", &["C21"], &[Chain], (1, 1), 5, 1.0), tree("flatten", &["C21"], &[Flatten], (1, 1), 4, 1.0)] },
        Check { id: "C22", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![
            part("index signals", MANY, 1.5, st::misc::enumerate),
            tree("enumerate", &["C22"], &[Enumerate], (1, 1), 7, 1.0),
        ] },
        Check { id: "C23", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("aggregates", &["C23"], &[Agg(e::Agg::Len), Agg(e::Agg::IsEmpty), Agg(e::Agg::IsEmpty), Agg(e::Agg::Sum), Agg(e::Agg::Cloned), Agg(e::Agg::Map)], (1, 1), 6, 1.0)] },
        Check { id: "C24", rule: FUT, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![part("delay_remove", MANY, 1.0, st::fut::delay_remove)] },
        Check { id: "C25", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("conversions", &["C25"], &[SwitchVec, SwitchVec, SwitchVec, ToSignalVec, Always, FromStream, MapAlways], (1, 1), 5, 1.0)] },
        Check { id: "C26", rule: SEQ, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![part("mutable_btree_map operations", MANY, 1.0, st::coll::run_map), part("long histories", MANY, 0.2, st::longcoll::run(1))] },
        Check { id: "C27", rule: TREE, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![tree("signal maps", &["C27"], &[MapValue, MapValueSignal, MapValueSignal, Key, Key, Keys, Entries, MapAlways], (1, 1), 4, 1.0), part("long histories", MANY, 0.15, st::longcoll::run(1))] },
        Check {
            id: "C28",
            rule: CONCSEQ,
            quick_s: 30.0,
            thorough_s: 760.0,
            parts: |_| {
                vec![
                    part("mutable_vec", MANY, 1.0, conc::coll::run_vec),
                    part("mutable_vec of numbers", MANY, 0.7, conc::coll::run_vec_copy),
                    part("mutable_btree_map", MANY, 1.0, conc::coll::run_map),
                    part("mutable_btree_map of numbers", MANY, 0.7, conc::coll::run_map_copy),
                    part("long vec histories", MANY, 0.25, st::longcoll::run(0)),
                    part("long map histories", MANY, 0.25, st::longcoll::run(1)),
                ]
            },
        },
        Check { id: "C29", rule: SEQ, quick_s: 12.0, thorough_s: 600.0, parts: |_| vec![part("serde", MANY, 1.0, st::misc::serde)] },
        Check { id: "C30", rule: SEQ, quick_s: 20.0, thorough_s: 760.0, parts: |_| vec![part("dropped listeners", MANY, 1.5, st::misc::drops), part("memory", MANY, 0.5, st::misc::memory)] },
    ]
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut property = String::new();
    let mut tier = "quick".to_string();
    let mut seed = 1u64;
    let mut evidence = None;
    let mut replay_dir = "/verif/replays".to_string();
    let mut replay: Option<String> = None;
    let mut sanitizers: Option<String> = None;
    let mut seconds: Option<f64> = None;
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("missing value");
        match a.as_str() {
            "--property" => property = val(),
            "--tier" => tier = val(),
            "--seed" => seed = val().parse().unwrap_or(1),
            "--evidence" => evidence = Some(val()),
            "--replay-dir" => replay_dir = val(),
            "--replay" => replay = Some(val()),
            "--seconds" => seconds = val().parse().ok(),
            "--sanitizers" => sanitizers = Some(val()),
            "--threads" => threads = val().parse().unwrap(),
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
    }
    if std::env::var_os("FSVERIF_SLOTS").is_none() && std::env::var_os("FSVERIF_DIRECT").is_none() {
        let args: Vec<String> = std::env::args().skip(1).collect();
        std::process::exit(supervise::supervise(&property, &args, &tier, seed, &replay_dir, evidence.as_deref(), replay.as_deref()));
    }
    supervise::watchdog();
    ctx::install_panic_hook();
    let checks = checks();
    let Some(check) = checks.iter().find(|c| c.id == property) else {
        eprintln!("unknown property {}", property);
        std::process::exit(2);
    };
    let thorough = tier == "thorough";
    let mut parts = (check.parts)(thorough);
    if let Ok(only) = std::env::var("FSVERIF_PART") {
        // For development
        parts.retain(|p| p.name == only);
    }

    if let Some(path) = replay {
        let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
        if let Some(cmd) = doc["cmd"].as_str() {
            println!("{}", cmd);
            let ok = std::process::Command::new("sh").args(["-c", cmd]).status().map_or(false, |s| s.success());
            if !ok {
                println!("VIOLATION property={} replay={}", check.id, path);
            }
            std::process::exit(!ok as i32);
        }
        let part = parts.iter().find(|p| Some(p.name) == doc["part"].as_str()).expect("unknown part");
        let seed: u64 = doc["case_seed"].as_str().unwrap().parse().unwrap();
        let case = ctx::run_one(part, check.id, seed, true);
        for l in &case.desc {
            println!("{}", l);
        }
        println!("inconclusive: {:?}", case.inconclusive);
        let mut code = 0;
        for (p, m) in &case.violations {
            println!("{:?}: {}", p, m);
            if p.contains(&check.id) {
                code = 1;
            }
        }
        if code == 1 {
            println!("VIOLATION property={} replay={}", check.id, path);
        }
        std::process::exit(code);
    }

    let mut external = None;
    if let Some(script) = sanitizers {
        let out = std::env::temp_dir().join(format!("fsverif-sanitizers-{}.json", std::process::id()));
        let family = match check.id {
            "C01" => Some("conv_mutable_write"),
            "C02" => Some("conv_mutable_end"),
            "C05" => Some("conv_channel_send"),
            "C06" => Some("conv_channel_end"),
            "C07" => Some("conv_broadcaster"),
            "C08" => Some("conv_cancelable"),
            _ => None,
        };
        let status = std::process::Command::new("python3").arg(&script).arg(&tier).arg(seed.to_string()).arg(&out).args(family).status();
        external = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
        let _ = std::fs::remove_file(&out);
        if !status.map_or(false, |s| s.success()) || external.is_none() {
            println!("ERROR: the sanitizers gave no answer");
            std::process::exit(2);
        }
    }
    let cfg = Config {
        external,
        property: property.clone(),
        tier,
        seed,
        seconds: seconds.unwrap_or(if thorough { check.thorough_s } else { check.quick_s }),
        threads,
        evidence,
        replay_dir,
        rule: check.rule.to_string(),
        assumptions: vec![],
        min_distinct: 50,
    };
    std::process::exit(ctx::run_parts(&cfg, check.id, parts));
}
