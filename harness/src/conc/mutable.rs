//! Mutable: writers, readers, swaps, signals and handle drops on several threads.

use super::*;
use crate::lin::{linearizable, Op};
use crate::sched::point;
use futures_signals::signal::{Mutable, ReadOnlyMutable, Signal};
use std::pin::Pin;

#[derive(Clone, Debug)]
enum MOp {
    Get(usize, u64),
    Set(usize, u64),
    Replace(usize, u64, u64),
    ReplaceWith { i: usize, tmp: Option<u64>, new: u64, saw: u64, ret: u64 },
    Swap(usize, usize),
    SetIf { i: usize, v: u64, saw: u64, arg: u64, accept: bool },
    SetNeq(usize, u64),
    LockW { i: usize, v: u64, saw: u64 },
}

type St = [u64; 2];

fn apply(s: &St, op: &MOp) -> Option<St> {
    let mut n = *s;
    match op {
        MOp::Get(i, v) => {
            if s[*i] != *v {
                return None;
            }
        }
        MOp::Set(i, v) => n[*i] = *v,
        MOp::Replace(i, v, old) => {
            if s[*i] != *old {
                return None;
            }
            n[*i] = *v;
        }
        MOp::ReplaceWith { i, tmp, new, saw, ret } => {
            if s[*i] != *saw || *ret != tmp.unwrap_or(*saw) {
                return None;
            }
            n[*i] = *new;
        }
        MOp::Swap(i, j) => n.swap(*i, *j),
        MOp::SetIf { i, v, saw, arg, accept } => {
            if s[*i] != *saw || *arg != *v {
                return None;
            }
            if *accept {
                n[*i] = *v;
            }
        }
        MOp::SetNeq(i, v) => n[*i] = *v,
        MOp::LockW { i, v, saw } => {
            if s[*i] != *saw {
                return None;
            }
            n[*i] = *v;
        }
    }
    Some(n)
}

type Sig = Pin<Box<dyn Signal<Item = u64> + Send>>;

pub fn make_signal(m: &ReadOnlyMutable<u64>, kind: usize) -> Sig {
    match kind % 3 {
        0 => Box::pin(m.signal()),
        1 => Box::pin(m.signal_cloned()),
        _ => Box::pin(m.signal_ref(|x| {
            let a = *x;
            point("signal_ref");
            // The value cannot change while the closure looks at it
            if *x == a { a } else { u64::MAX }
        })),
    }
}

const ALL: &[&str] = &["C01", "C02", "C03", "C10"];

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let two = rng.flip();
    let keep = rng.chance(1, 2);
    let init: St = [100, 200];
    let m: Vec<Mutable<u64>> = vec![Mutable::new(init[0]), Mutable::new(init[1])];
    let ro: Vec<ReadOnlyMutable<u64>> = m.iter().map(|m| m.read_only()).collect();
    let hist: Shared<Vec<Op<MOp>>> = shared(vec![]);
    let mut tasks: Vec<Task> = vec![];
    let mut logs: Vec<(usize, Shared<Log<u64>>)> = vec![];

    let writers = rng.range(1, 3);
    let consumers = rng.range(1, 3);
    let max_ops = rng.range(1, 4);

    for w in 0..writers {
        let name = format!("writer{}", w);
        let mut r = rng.fork();
        let mut handles: Vec<Mutable<u64>> = m.clone();
        let hist = hist.clone();
        let n = r.range(1, max_ops);
        tasks.push(task(name.clone(), move || {
            for k in 0..n {
                let i = if two { r.below(2) } else { 0 };
                let v = 1000 * (w as u64 + 1) + 10 * k as u64;
                let h = &handles[i];
                let call = sched::now();
                let op = match r.below(13) {
                    0 => {
                        match r.below(6) {
                            0 => debug(h),
                            1 => debug(&h.read_only()),
                            2 => {
                                let _ = serde_json::to_string(h);
                            }
                            _ => {}
                        }
                        MOp::Get(i, h.get())
                    }
                    1 => MOp::Get(i, h.get_cloned()),
                    2 | 3 | 4 => {
                        h.set(v);
                        MOp::Set(i, v)
                    }
                    5 => MOp::Replace(i, v, h.replace(v)),
                    6 => {
                        let tmp = if r.flip() { Some(v + 1) } else { None };
                        let mut saw = 0;
                        let ret = h.replace_with(|x| {
                            saw = *x;
                            point("closure");
                            if let Some(t) = tmp {
                                *x = t;
                            }
                            v
                        });
                        MOp::ReplaceWith { i, tmp, new: v, saw, ret }
                    }
                    7 | 8 => {
                        let j = if r.chance(1, 5) { i } else { 1 - i };
                        h.swap(&handles[j]);
                        MOp::Swap(i, j)
                    }
                    9 => {
                        let accept = r.flip();
                        let (mut saw, mut arg) = (0, 0);
                        h.set_if(v, |old, new| {
                            saw = *old;
                            arg = *new;
                            point("closure");
                            accept
                        });
                        MOp::SetIf { i, v, saw, arg, accept }
                    }
                    10 => {
                        let v = if r.flip() { v } else { *r.pick(&[100, 200, 1000, 2000]) };
                        h.set_neq(v);
                        MOp::SetNeq(i, v)
                    }
                    11 => {
                        let mut g = h.lock_mut();
                        let saw = *g;
                        point("locked");
                        *g = v;
                        if r.flip() {
                            point("locked");
                        }
                        drop(g);
                        MOp::LockW { i, v, saw }
                    }
                    _ => {
                        let saw = if r.flip() {
                            let g = h.lock_ref();
                            let a = *g;
                            point("locked");
                            if *g == a { a } else { u64::MAX }
                        } else {
                            *h.lock_mut()
                        };
                        MOp::Get(i, saw)
                    }
                };
                let ret = sched::now();
                hist.lock().unwrap().push(Op { op, call, ret, who: name.clone() });
                if r.chance(1, 6) {
                    let c = handles[0].clone();
                    point("cloned");
                    handles[0] = c;
                }
                point("next");
            }
        }));
    }

    for c in 0..consumers {
        let i = if two { rng.below(2) } else { 0 };
        let name = format!("consumer{}", c);
        let log = shared(Log { name: name.clone(), ..Log::default() });
        logs.push((i, log.clone()));
        let mut opts = Opts::random(&mut rng);
        let kind = rng.below(3);
        let early = rng.flip();
        let mut sig = if early { Some(make_signal(&ro[i], kind)) } else { None };
        // Holding a handle while creating the signal, or only a read only one
        let mut handle = if !early && rng.flip() { Some(m[i].clone()) } else { None };
        let r = ro[i].clone();
        tasks.push(task(name, move || {
            if sig.is_none() {
                sig = Some(match &handle {
                    Some(h) => make_signal(&h.read_only(), kind),
                    None => make_signal(&r, kind),
                });
                handle.take();
            }
            let mut sig = sig.unwrap();
            consume(&log, &mut opts, |cx| sig.as_mut().poll_change(cx));
        }));
    }

    // The controller checks at quiescence and performs the last changes
    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);
    {
        let problems = problems.clone();
        let logs = logs.clone();
        let hist = hist.clone();
        let mut held = if keep { Some(m) } else { drop(m); None };
        let mut r = rng.fork();
        let ro = ro.clone();
        let mut log_late = vec![];
        for (i, l) in &logs {
            log_late.push((*i, l.clone()));
        }
        tasks.push(task("controller", move || {
            sched::wait_idle();
            let check = |alive: bool, problems: &Shared<Vec<(&'static [&'static str], String)>>| {
                for (i, l) in &logs {
                    let call = sched::now();
                    let current = ro[*i].get();
                    let ret = sched::now();
                    hist.lock().unwrap().push(Op { op: MOp::Get(*i, current), call, ret, who: "controller".into() });
                    let l = l.lock().unwrap();
                    if l.quit {
                        continue;
                    }
                    let last = l.values.last().map(|v| v.2);
                    let mut p = problems.lock().unwrap();
                    if l.ended && alive {
                        p.push((&["C02"], format!("{} ended although a handle is alive", l.name)));
                    } else if !l.ended && !alive {
                        p.push((&["C02"], format!("{} did not end although all handles are gone (last value {:?})", l.name, last)));
                    }
                    if last != Some(current) {
                        if alive {
                            p.push((&["C01"], format!("{} is asleep with {:?} although the value is {}", l.name, last, current)));
                        } else {
                            p.push((&["C01", "C02"], format!("{} finished with {:?} although the last value is {}", l.name, last, current)));
                        }
                    }
                }
            };
            check(held.is_some(), &problems);
            if let Some(m) = held.take() {
                let call = sched::now();
                for i in 0..2 {
                    match r.below(3) {
                        0 => {
                            m[i].set(9000 + i as u64);
                            let ret = sched::now();
                            hist.lock().unwrap().push(Op { op: MOp::Set(i, 9000 + i as u64), call, ret, who: "controller".into() });
                        }
                        1 => {
                            let old = m[i].replace(9100);
                            let ret = sched::now();
                            hist.lock().unwrap().push(Op { op: MOp::Replace(i, 9100, old), call, ret, who: "controller".into() });
                        }
                        _ => {}
                    }
                }
                drop(m);
                point("dropped");
                sched::wait_idle();
                check(false, &problems);
            }
        }));
    }
    drop(ro);

    let (ok, _) = execute(case, &mut rng, tasks, ALL);
    if !ok {
        return;
    }
    for (p, msg) in problems.lock().unwrap().drain(..) {
        case.fail(p, msg);
    }

    let mut ops = hist.lock().unwrap().clone();
    case.count("operations", ops.len() as u64);
    for (i, l) in &logs {
        let l = l.lock().unwrap();
        case.count("values_delivered", l.values.len() as u64);
        case.count("polls", l.polls);
        case.count("ends", l.ended as u64);
        for (call, ret, v) in &l.values {
            ops.push(Op { op: MOp::Get(*i, *v), call: *call, ret: *ret, who: l.name.clone() });
        }
    }
    ops.sort_by_key(|o| o.call);
    if case.want_desc {
        for o in &ops {
            case.note(|| format!("[{}..{}] {} {:?}", o.call, o.ret, o.who, o.op));
        }
    }
    match linearizable(init, &ops, apply) {
        Some(true) => {}
        Some(false) => {
            let h: Vec<String> = ops.iter().map(|o| format!("[{}..{}] {} {:?}", o.call, o.ret, o.who, o.op)).collect();
            case.fail(&["C03"], format!("history is not linearizable: {}", h.join("; ")));
        }
        None => case.count("linearizability_undecided", 1),
    }
}
