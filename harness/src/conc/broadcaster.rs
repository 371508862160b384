//! Broadcaster: one changing input, children polled, created and dropped on several threads.

use super::*;
use crate::sched::point;
use futures_signals::map_ref;
use futures_signals::signal::{channel, Broadcaster, Mutable, Sender, Signal, SignalExt};
use std::pin::Pin;

type Input = Pin<Box<dyn Signal<Item = u64> + Send + Sync>>;
/// The input of the Broadcaster, which can be looked at
struct Named(Input);

impl Signal for Named {
    type Item = u64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u64>> {
        self.0.as_mut().poll_change(cx)
    }
}

impl std::fmt::Debug for Named {
    fn fmt(&self, fmt: &mut std::fmt::Formatter) -> std::fmt::Result {
        point("debug");
        fmt.write_str("input")
    }
}

trait Printable: Signal<Item = u64> + std::fmt::Debug {}

impl<A: Signal<Item = u64> + std::fmt::Debug> Printable for A {}

type Child = Pin<Box<dyn Printable + Send>>;

fn child(b: &Broadcaster<Named>, kind: usize) -> Child {
    match kind % 3 {
        0 => Box::pin(b.signal()),
        1 => Box::pin(b.signal_cloned()),
        _ => Box::pin(b.signal_ref(|x| {
            let a = *x;
            point("signal_ref");
            if *x == a { a } else { u64::MAX }
        })),
    }
}

enum Source {
    Mutable(Mutable<u64>),
    Channel(Sender<u64>, Shared<u64>),
}

impl Source {
    fn bump(&self) -> u64 {
        match self {
            Source::Mutable(m) => {
                let mut g = m.lock_mut();
                *g += 1;
                *g
            }
            Source::Channel(s, n) => {
                let v = {
                    let mut n = n.lock().unwrap();
                    *n += 1;
                    *n
                };
                let _ = s.send(v);
                v
            }
        }
    }
    fn clone(&self) -> Source {
        match self {
            Source::Mutable(m) => Source::Mutable(m.clone()),
            Source::Channel(s, n) => Source::Channel(s.clone(), n.clone()),
        }
    }
}

/// Delivers every number up to the latest one, so that several values are ready at once
struct Stepper {
    input: Input,
    now: u64,
    target: u64,
    ended: bool,
}

impl Signal for Stepper {
    type Item = u64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u64>> {
        while !self.ended {
            match self.input.as_mut().poll_change(cx) {
                Poll::Ready(Some(x)) => self.target = x,
                Poll::Ready(None) => self.ended = true,
                Poll::Pending => break,
            }
        }
        if self.now < self.target {
            self.now += 1;
            Poll::Ready(Some(self.now))
        } else if self.ended {
            Poll::Ready(None)
        } else {
            Poll::Pending
        }
    }
}

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let use_channel = rng.chance(1, 3);
    let (source, signal): (Source, Input) = if use_channel {
        let (s, r) = channel(1u64);
        (Source::Channel(s, shared(1)), Box::pin(r))
    } else {
        let m = Mutable::new(1u64);
        let s = m.signal();
        (Source::Mutable(m), Box::pin(s))
    };
    let shape = rng.below(8);
    let mut outer = None;
    let (shape, signal): (_, Input) = match shape {
        0 => ("map", Box::pin(signal.map(|x| x))),
        1 => ("several ready values", Box::pin(Stepper { input: signal, now: 0, target: 0, ended: false })),
        2 | 3 => {
            // A Broadcaster of a Broadcaster, whose own children are consumed too
            let b = Broadcaster::new(Named(signal));
            let s = b.signal();
            outer = Some(b);
            ("nested", Box::pin(s))
        }
        4 => {
            let b = Broadcaster::new(Named(signal));
            let (l, r) = (b.signal(), b.signal_cloned());
            ("diamond", Box::pin(map_ref! { l, r => (*l).min(*r) }))
        }
        _ => ("plain", signal),
    };
    case.note(|| format!("input: {}, {}", if use_channel { "channel" } else { "Mutable" }, shape));
    let bc = Broadcaster::new(Named(signal));
    let keep = rng.flip();
    // With a channel there is only one writer, so that the values arrive in order
    let writers = if use_channel { 1 } else { rng.range(1, 2) };
    let consumers = rng.range(2, 3);
    let max_ops = rng.range(1, 4);
    let latest: Shared<u64> = shared(1);
    let mut logs: Vec<Shared<Log<u64>>> = vec![];
    let mut tasks = vec![];

    for w in 0..writers {
        let src = source.clone();
        let mut r = rng.fork();
        let n = r.range(1, max_ops);
        let latest = latest.clone();
        tasks.push(task(format!("writer{}", w), move || {
            for _ in 0..n {
                let v = src.bump();
                let mut l = latest.lock().unwrap();
                *l = v.max(*l);
                drop(l);
                point("next");
            }
        }));
    }

    for c in 0..consumers {
        let name = format!("child{}", c);
        let log = shared(Log { name: name.clone(), ..Log::default() });
        logs.push(log.clone());
        let second = shared(Log { name: format!("child{}b", c), ..Log::default() });
        let use_second = rng.chance(1, 4);
        let mut opts = Opts::random(&mut rng);
        let mut opts2 = Opts::random(&mut rng);
        let kind = rng.below(6);
        if use_second {
            logs.push(second.clone());
            opts.quit_after = rng.range(0, 2);
        }
        let early = rng.flip();
        let b = match &outer {
            Some(o) if c == 0 => o.clone(),
            _ => bc.clone(),
        };
        let mut sig = if early { Some(child(&b, kind)) } else { None };
        tasks.push(task(name, move || {
            if kind == 5 {
                debug(&b);
            }
            let mut s = match sig.take() {
                Some(s) => s,
                None => child(&b, kind),
            };
            consume(&log, &mut opts, |cx| {
                if kind == 4 {
                    debug(&s);
                }
                s.as_mut().poll_change(cx)
            });
            if use_second {
                // A later child, optionally while the old one is still there
                let mut t = child(&b, kind + 1);
                if kind > 2 {
                    drop(s);
                }
                drop(b);
                consume(&second, &mut opts2, |cx| t.as_mut().poll_change(cx));
            }
        }));
    }

    drop(outer);
    let stepping = shape == "several ready values";
    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);
    {
        let problems = problems.clone();
        let logs = logs.clone();
        let latest = latest.clone();
        let mut r = rng.fork();
        let held = if keep { Some(source) } else { drop(source); None };
        tasks.push(task("controller", move || {
            let mut bc = Some(bc);
            if r.chance(1, 4) {
                bc = None;
            }
            sched::wait_idle();
            let check = |alive: bool| {
                let current = *latest.lock().unwrap();
                for l in &logs {
                    let l = l.lock().unwrap();
                    if l.quit || (l.polls == 0) {
                        continue;
                    }
                    let last = l.values.last().map(|v| v.2);
                    let mut p = problems.lock().unwrap();
                    if l.ended && alive {
                        p.push((&["C07"], format!("{} ended although the input has not", l.name)));
                    }
                    if !l.ended && !alive {
                        p.push((&["C07"], format!("{} did not end although the input has (last value {:?})", l.name, last)));
                    }
                    if last != Some(current) {
                        p.push((&["C07"], format!("{} {} with {:?} although the input's latest value is {}", l.name, if l.ended { "ended" } else { "is asleep" }, last, current)));
                    }
                }
            };
            check(held.is_some());
            let late = |bc: &Broadcaster<Named>, kind: usize, what: &str| {
                let current = *latest.lock().unwrap();
                let mut s = child(bc, kind);
                let w = TaskWaker::new();
                let waker = w.waker();
                let mut v = s.as_mut().poll_change(&mut Context::from_waker(&waker));
                if stepping {
                    while let x @ Poll::Ready(Some(_)) = s.as_mut().poll_change(&mut Context::from_waker(&waker)) {
                        v = x;
                    }
                }
                if v != Poll::Ready(Some(current)) {
                    problems.lock().unwrap().push((&["C07"], format!("a child created {} first delivered {:?} instead of {}", what, v, current)));
                }
            };
            if let Some(bc) = &bc {
                late(bc, r.below(3), "at rest");
            }
            if let Some(src) = held {
                if r.flip() {
                    let v = src.bump();
                    *latest.lock().unwrap() = v;
                }
                if r.flip() {
                    sched::wait_idle();
                    check(true);
                }
                drop(src);
                sched::wait_idle();
                check(false);
            }
            if let Some(bc) = &bc {
                late(bc, r.below(3), "after the end");
            }
        }));
    }

    let (ok, _) = execute(case, &mut rng, tasks, &["C07", "C10"]);
    if !ok {
        return;
    }
    for (p, msg) in problems.lock().unwrap().drain(..) {
        case.fail(p, msg);
    }
    let max = *latest.lock().unwrap();
    for l in &logs {
        let l = l.lock().unwrap();
        case.count("values_delivered", l.values.len() as u64);
        case.count("polls", l.polls);
        case.count("ends", l.ended as u64);
        case.count("operations", l.values.len() as u64);
        case.note(|| format!("{}: {:?} ended {}", l.name, l.values, l.ended));
        for w in l.values.windows(2) {
            if w[1].2 < w[0].2 {
                case.fail(&["C07"], format!("{} went back from {} to {}", l.name, w[0].2, w[1].2));
            }
        }
        for v in &l.values {
            if v.2 < 1 || v.2 > max {
                case.fail(&["C07"], format!("{} delivered {} which the input never had", l.name, v.2));
            }
        }
    }
}
