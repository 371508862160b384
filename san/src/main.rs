//! Client programs of futures-signals made of safe code only, to be run under Miri, ThreadSanitizer and
//! AddressSanitizer/LeakSanitizer. The programs do not synchronize on their own (relaxed counters only, and
//! the joins at the end of a case), so that every value which crosses threads is ordered by the crate alone.
//!
//! Usage: fssan SEED CASES SECONDS [FAMILY]

#![forbid(unsafe_code)]

mod conv;
mod rng;
mod single;
mod threads;
mod traits;
mod val;

use rng::{mix, Rng};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

const FAMILIES: &[(&str, fn(&mut Rng))] = &[
    ("mutable", threads::mutable),
    ("channel", threads::channel),
    ("channel_pair", threads::channel_pair),
    ("broadcaster", threads::broadcaster),
    ("cancelable", threads::cancelable),
    ("mutable_vec", threads::mutable_vec),
    ("mutable_map", threads::mutable_map),
    ("migrating", threads::migrating),
    ("plain", threads::plain),
    ("signals", single::signals),
    ("vecs", single::vecs),
    ("maps", single::maps),
];

/// For Miri only, since nothing else notices that they hang
const CONVERGENCE: &[(&str, fn(&mut Rng))] = &[
    ("conv_mutable_write", conv::mutable_write),
    ("conv_mutable_end", conv::mutable_end),
    ("conv_channel_send", conv::channel_send),
    ("conv_channel_end", conv::channel_end),
    ("conv_broadcaster", conv::broadcaster),
    ("conv_cancelable", conv::cancelable),
];

/// Apart from the rest, since it leaves memory behind on purpose
const PANICS: &[(&str, fn(&mut Rng))] = &[("panics", single::panics)];

fn list(only: Option<&str>) -> &'static [(&'static str, fn(&mut Rng))] {
    match only {
        Some("panics") => PANICS,
        Some(o) if o.starts_with("conv_") => CONVERGENCE,
        _ => FAMILIES,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = args.first().and_then(|x| x.parse().ok()).unwrap_or(1);
    let cases: u64 = args.get(1).and_then(|x| x.parse().ok()).unwrap_or(11);
    let seconds: u64 = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    let only = args.get(3);

    let bad = if only.map_or(false, |o| o.starts_with("conv_")) { vec![] } else { traits::verdict() };
    for b in &bad {
        println!("FSSAN-VIOLATION {}", b);
    }
    let mut failed = !bad.is_empty();

    let start = Instant::now();
    let mut done: BTreeMap<&str, u64> = BTreeMap::new();
    let mut i = 0;
    while i < cases && (seconds == 0 || start.elapsed() < Duration::from_secs(seconds)) {
        let list = list(only.map(|x| &**x));
        let (name, f) = list[((seed + i) % list.len() as u64) as usize];
        let case = mix(seed, i);
        i += 1;
        if only.map_or(false, |o| o != name) {
            continue;
        }
        if std::env::var_os("FSSAN_TRACE").is_some() {
            println!("case {} {} of seed {}", i - 1, name, seed);
        }
        val::begin();
        f(&mut Rng::new(case));
        if let Some(problem) = val::verdict() {
            println!("FSSAN-VIOLATION {} (family {}, seed {}, case {})", problem, name, seed, i - 1);
            failed = true;
        }
        *done.entry(name).or_default() += 1;
    }
    let (values, polls, items, wakes) = val::totals();
    let list: Vec<String> = done.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!(
        "FSSAN-DONE {{\"panics\":{},\"cases\":{{{}}},\"probes\":{},\"values\":{},\"polls\":{},\"items\":{},\"wakes\":{}}}",
        val::panics(), list.join(","), traits::PROBES, values, polls, items, wakes
    );
    if failed {
        std::process::exit(1);
    }
}
