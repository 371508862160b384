//! channel: senders sending, cloning, dropping and closing on several threads, one receiver.

use super::*;
use crate::sched::point;
use crate::util::{Ledger, Tracked};
use futures_signals::signal::{channel, Sender, Signal};
use std::pin::Pin;

#[derive(Clone, Debug)]
enum Ev {
    Send { v: u64, ok: bool, same: bool },
    Close,
    Clone,
    DropSender,
}

#[derive(Clone, Debug)]
struct Rec {
    ev: Ev,
    call: u64,
    ret: u64,
    who: String,
}

const ALL: &[&str] = &["C05", "C06", "C10"];

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let ledger = Ledger::new();
    let (tx, rx) = channel(Tracked::new(1, &ledger));
    let hist: Shared<Vec<Rec>> = shared(vec![]);
    let log: Shared<Log<u64>> = shared(Log { name: "receiver".into(), ..Log::default() });
    let receiver_gone: Shared<Option<u64>> = shared(None);
    let mut tasks = vec![];
    let closers = rng.chance(1, 3);
    let keep = rng.chance(1, 3);
    let senders = rng.range(1, 3);
    let max_ops = rng.range(1, 4);
    let rx_quits = rng.chance(1, 6);

    for s in 0..senders {
        let name = format!("sender{}", s);
        let mut own: Vec<Sender<Tracked>> = vec![tx.clone()];
        let mut r = rng.fork();
        let hist = hist.clone();
        let ledger = ledger.clone();
        let n = r.range(1, max_ops);
        tasks.push(task(name.clone(), move || {
            let rec = |ev: Ev, call: u64| {
                let ret = sched::now();
                hist.lock().unwrap().push(Rec { ev, call, ret, who: name.clone() });
            };
            for k in 0..n {
                if own.is_empty() {
                    break;
                }
                let i = r.below(own.len());
                match r.below(if closers { 10 } else { 9 }) {
                    0..=5 => {
                        let v = 1000 * (s as u64 + 1) + k as u64;
                        let value = Tracked::new(v, &ledger);
                        let call = sched::now();
                        let res = own[i].send(value);
                        let (ok, same) = match &res {
                            Ok(()) => (true, true),
                            Err(e) => (false, e.get() == v),
                        };
                        rec(Ev::Send { v, ok, same }, call);
                    }
                    6 | 7 => {
                        let call = sched::now();
                        let c = own[i].clone();
                        own.push(c);
                        rec(Ev::Clone, call);
                    }
                    8 => {
                        let c = own.remove(i);
                        let call = sched::now();
                        drop(c);
                        rec(Ev::DropSender, call);
                    }
                    _ => {
                        let call = sched::now();
                        own[i].close();
                        rec(Ev::Close, call);
                    }
                }
                point("next");
            }
            for c in own {
                let call = sched::now();
                drop(c);
                rec(Ev::DropSender, call);
            }
        }));
    }

    {
        let log = log.clone();
        let gone = receiver_gone.clone();
        let mut opts = Opts::random(&mut rng);
        if !rx_quits {
            opts.quit_after = usize::MAX;
        } else {
            opts.quit_after = rng.range(0, 3);
        }
        tasks.push(task("receiver", move || {
            let mut rx = rx;
            consume(&log, &mut opts, |cx| match Pin::new(&mut rx).poll_change(cx) {
                Poll::Ready(Some(v)) => Poll::Ready(Some(v.get())),
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            });
            drop(rx);
            *gone.lock().unwrap() = Some(sched::now());
        }));
    }

    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);
    {
        let problems = problems.clone();
        let log = log.clone();
        let hist = hist.clone();
        let ledger = ledger.clone();
        let gone = receiver_gone.clone();
        let held = if keep { Some(tx) } else { drop(tx); None };
        let mut r = rng.fork();
        tasks.push(task("controller", move || {
            sched::wait_idle();
            let check = |alive: bool, what: &str| {
                let l = log.lock().unwrap();
                let h = hist.lock().unwrap();
                if l.quit {
                    return;
                }
                let closes: Vec<&Rec> = h.iter().filter(|r| matches!(r.ev, Ev::Close)).collect();
                let mut p = problems.lock().unwrap();
                let should_end = !alive || !closes.is_empty();
                if l.ended && !should_end {
                    p.push((&["C06"], format!("the receiver ended although a sender is alive and open ({})", what)));
                }
                if !l.ended && should_end {
                    p.push((&["C06"], format!("the receiver did not end although {} ({})", if alive { "the channel was closed" } else { "all senders are gone" }, what)));
                }
                match l.values.last() {
                    None => p.push((&["C05"], format!("the receiver got no value at all ({})", what))),
                    Some((call, _, last)) => {
                        // The last received value must not be older than a successful send
                        let own = h.iter().find(|r| matches!(r.ev, Ev::Send { v, .. } if v == *last));
                        for s in h.iter() {
                            if let Ev::Send { v, ok: true, .. } = s.ev {
                                // Sends which overlap a close may get lost
                                if closes.iter().any(|c| c.call < s.ret) {
                                    continue;
                                }
                                let newer = match own {
                                    Some(o) => o.ret < s.call,
                                    None => true,
                                };
                                if v != *last && newer {
                                    p.push((
                                        if l.ended { &["C05", "C06"] } else { &["C05"] },
                                        format!("the receiver {} with {} (polled at {}) although {} was sent later, during [{}..{}] ({})", if l.ended { "ended" } else { "is asleep" }, last, call, v, s.call, s.ret, what),
                                    ));
                                }
                            }
                        }
                    }
                }
            };
            check(held.is_some(), "all tasks are done");
            if let Some(tx) = held {
                let mut send = |v: u64| {
                    let call = sched::now();
                    let res = tx.send(Tracked::new(v, &ledger));
                    let (ok, same) = match &res {
                        Ok(()) => (true, true),
                        Err(e) => (false, e.get() == v),
                    };
                    hist.lock().unwrap().push(Rec { ev: Ev::Send { v, ok, same }, call, ret: sched::now(), who: "controller".into() });
                    (ok, same)
                };
                let gone_now = gone.lock().unwrap().is_some();
                let closed = hist.lock().unwrap().iter().any(|r| matches!(r.ev, Ev::Close));
                let (ok, same) = send(9000);
                let mut bad = |m: &str| problems.lock().unwrap().push((&["C06"], m.to_string()));
                if (gone_now || closed) && ok {
                    bad("send succeeded although the channel was closed or the receiver was dropped");
                }
                if !gone_now && !closed && !ok {
                    bad("send failed although the channel is open");
                }
                if !same {
                    bad("a failed send returned a different value");
                }
                if closed || gone_now {
                    // Clones of closed senders stay closed
                    let c = tx.clone();
                    let c2 = c.clone();
                    if c2.send(Tracked::new(9001, &ledger)).is_ok() {
                        bad("a clone of a sender of a closed channel can send");
                    }
                    drop(c);
                    if c2.send(Tracked::new(9002, &ledger)).is_ok() {
                        bad("dropping a clone reopened a closed channel");
                    }
                    drop(c2);
                    if tx.send(Tracked::new(9003, &ledger)).is_ok() {
                        bad("dropping clones reopened a closed channel");
                    }
                }
                if r.flip() {
                    sched::wait_idle();
                    check(true, "after a further send");
                }
                drop(tx);
                sched::wait_idle();
                check(false, "after dropping the last sender");
            }
        }));
    }

    let (ok, _) = execute(case, &mut rng, tasks, ALL);
    if !ok {
        return;
    }
    for (p, msg) in problems.lock().unwrap().drain(..) {
        case.fail(p, msg);
    }

    let h = hist.lock().unwrap().clone();
    let l = log.lock().unwrap().clone();
    case.count("operations", h.len() as u64);
    case.count("values_delivered", l.values.len() as u64);
    case.count("polls", l.polls);
    case.count("ends", l.ended as u64);
    if case.want_desc {
        for r in &h {
            case.note(|| format!("[{}..{}] {} {:?}", r.call, r.ret, r.who, r.ev));
        }
        for v in &l.values {
            case.note(|| format!("[{}..{}] received {}", v.0, v.1, v.2));
        }
        case.note(|| format!("ended: {}", l.ended));
    }

    // Values: sent, at most once, never older than an earlier one
    for (i, (call, ret, v)) in l.values.iter().enumerate() {
        let sent = h.iter().find(|r| matches!(r.ev, Ev::Send { v: x, .. } if x == *v));
        match sent {
            None if *v == 1 => {
                if i != 0 {
                    case.fail(&["C05"], "the initial value was delivered after another value");
                }
            }
            None => case.fail(&["C05"], format!("received {} which was never sent", v)),
            Some(s) => {
                if let Ev::Send { ok: false, .. } = s.ev {
                    case.fail(&["C05"], format!("received {} although sending it failed", v));
                }
                if *ret < s.call {
                    case.fail(&["C05"], format!("received {} during [{}..{}] before it was sent", v, call, ret));
                }
                for (_, _, w) in &l.values[..i] {
                    if w == v {
                        case.fail(&["C05"], format!("{} was delivered twice", v));
                    }
                    if let Some(o) = h.iter().find(|r| matches!(r.ev, Ev::Send { v: x, .. } if x == *w)) {
                        if s.ret < o.call {
                            case.fail(&["C05"], format!("{} was delivered after {} although it was sent before", v, w));
                        }
                    }
                }
            }
        }
    }

    // Closing
    let gone = receiver_gone.lock().unwrap().unwrap_or(u64::MAX);
    for s in &h {
        if let Ev::Send { v, ok, same } = s.ev {
            if !same {
                case.fail(&["C06"], format!("failed send of {} handed back a different value", v));
            }
            if ok && h.iter().any(|c| matches!(c.ev, Ev::Close) && c.ret < s.call) {
                case.fail(&["C06"], format!("{} was sent successfully after close had returned", v));
            }
            if !ok && !h.iter().any(|c| matches!(c.ev, Ev::Close) && c.call < s.ret) && gone == u64::MAX {
                case.fail(&["C06"], format!("sending {} failed although nobody closed the channel", v));
            }
        }
    }

    drop(h);
    if let Some(v) = ledger.verdict() {
        case.fail(&["C05", "C09"], v);
    }
}
