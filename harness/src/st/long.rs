//! Long histories of the basic sources: many changes which a listener doesn't poll in between, many
//! handles and many listeners, so that nothing depends on how often something was counted.

use super::{count, event, problems, report, trace, with_case, Props, Step, Task};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal::{channel, Broadcaster, Mutable, Sender, Signal, SignalExt};
use std::pin::Pin;
use std::task::Poll;

type Sig = Pin<Box<dyn Signal<Item = i64>>>;

struct Listener {
    s: Sig,
    task: Task,
    dirty: bool,
}

impl Listener {
    fn new(s: impl Signal<Item = i64> + 'static) -> Self {
        Listener { s: Box::pin(s), task: Task::new(), dirty: true }
    }

    /// Polls until it waits
    fn follow(&mut self, rng: &mut Rng, value: i64, ended: bool, props: Props, end: Props) {
        if self.task.ended {
            return;
        }
        if !self.task.wants() {
            if self.dirty {
                report(props, format!("a listener was not woken for {}", value));
            } else if ended {
                report(end, "a listener was not woken for the end");
            }
            return;
        }
        let mut items = 0;
        let mut last = None;
        for _ in 0..10 {
            let s = &mut self.s;
            match self.task.force(rng, |cx| {
                let p = s.as_mut().poll_change(cx);
                let step = Step::of(&p);
                if let Poll::Ready(Some(v)) = p {
                    last = Some(v);
                }
                step
            }) {
                Step::Item => items += 1,
                Step::Pending if self.task.wants() => {}
                _ => break,
            }
        }
        if self.dirty && last != Some(value) {
            report(props, format!("a listener got {:?} instead of {}", last, value));
        }
        if !self.dirty && items != 0 {
            report(props, format!("a listener got {:?} again", last));
        }
        self.dirty = false;
        if self.task.ended != ended {
            report(end, if ended { "a listener did not end" } else { "a listener ended too early" });
        }
    }
}

/// Numbers around the places where something small overflows
pub fn many(rng: &mut Rng, rare: u64) -> usize {
    let x = match rng.below(6) {
        0..=2 => rng.range(1, 5),
        3 => rng.range(6, 40),
        4 => *rng.pick(&[127, 128, 129, 255, 256, 257, 512]),
        _ => rng.range(41, 300),
    };
    if rng.chance(1, rare) {
        *rng.pick(&[65_535, 65_536, 65_537])
    } else {
        x
    }
}

enum Source {
    Mutable(Vec<Mutable<i64>>),
    Channel(Vec<Sender<i64>>),
    Broadcast(Mutable<i64>, Broadcaster<Sig>),
}

const VALUE: [Props; 3] = [&["C01", "C04"], &["C05"], &["C07"]];
const END: [Props; 3] = [&["C02"], &["C06"], &["C07"]];

/// `only`: 0 Mutable, 1 channel, 2 Broadcaster
pub fn run(only: usize) -> impl Fn(u64, &mut Case) + Sync + 'static {
    move |seed, case| with_case(case, |case| run_case(only, seed, case))
}

fn run_case(which: usize, seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let (props, end) = (VALUE[which], END[which]);
    let mut value = 0;
    let mut ls = vec![];
    let mut source = match which {
        0 => Source::Mutable(vec![Mutable::new(value)]),
        1 => {
            let (s, r) = channel(value);
            ls.push(Listener::new(r));
            Source::Channel(vec![s])
        }
        _ => {
            let m = Mutable::new(value);
            let b = (Box::pin(m.signal()) as Sig).broadcast();
            Source::Broadcast(m, b)
        }
    };
    let limit = if rng.chance(1, 4) { many(rng, 1_000_000) } else { rng.range(1, 4) };
    let blocks = rng.range(2, 8);
    let rare = 60 * blocks as u64;
    for _ in 0..blocks {
        // Listeners come and go
        if which != 1 {
            let n = rng.below(limit + 1);
            event(|| format!("{} listeners", n));
            while ls.len() > n {
                ls.swap_remove(rng.below(ls.len()));
            }
            while ls.len() < n {
                ls.push(match &source {
                    Source::Mutable(h) => {
                        let m = &h[rng.below(h.len())];
                        match rng.below(4) {
                            0 => Listener::new(m.signal()),
                            1 => Listener::new(m.signal_cloned()),
                            2 => Listener::new(m.signal_ref(|x| *x)),
                            _ => Listener::new(m.read_only().signal()),
                        }
                    }
                    Source::Broadcast(_, b) => match rng.below(3) {
                        0 => Listener::new(b.signal()),
                        1 => Listener::new(b.signal_cloned()),
                        _ => Listener::new(b.signal_ref(|x| *x)),
                    },
                    Source::Channel(_) => unreachable!(),
                });
            }
        }
        trace(ls.len() as u64);
        // Handles too
        let n = if rng.flip() { many(rng, rare) } else { 1 };
        event(|| format!("{} handles", n));
        match &mut source {
            Source::Mutable(h) => {
                while h.len() > n {
                    h.swap_remove(rng.below(h.len()));
                }
                while h.len() < n {
                    let x = h[rng.below(h.len())].clone();
                    h.push(x);
                }
            }
            Source::Channel(h) => {
                while h.len() > n {
                    h.swap_remove(rng.below(h.len()));
                }
                while h.len() < n {
                    let x = h[rng.below(h.len())].clone();
                    h.push(x);
                }
            }
            Source::Broadcast(..) => {}
        }
        count("handles", n as u64);
        // The first few listeners follow each change, the others don't
        let changes = if rng.chance(1, 6) { 0 } else { many(rng, rare) };
        let follow = rng.below(ls.len().min(3) + 1);
        let every = if rng.flip() { 1 } else { rng.range(1, 9) };
        event(|| format!("{} changes, {} follow every {}", changes, follow, every));
        count("operations", changes as u64);
        trace(changes as u64);
        for i in 0..changes {
            value += 1;
            match &source {
                Source::Mutable(h) => h[i % h.len()].set(value),
                Source::Channel(h) => {
                    if h[i % h.len()].send(value).is_err() {
                        report(end, "sending failed although nothing was closed");
                    }
                }
                Source::Broadcast(m, _) => m.set(value),
            }
            for l in &mut ls {
                l.dirty = true;
            }
            if i % every == 0 {
                for l in &mut ls[..follow] {
                    l.follow(rng, value, false, props, end);
                }
            }
            if problems() {
                return;
            }
        }
        let all = rng.chance(2, 3);
        for l in &mut ls {
            if all || rng.flip() {
                l.follow(rng, value, false, props, end);
            }
        }
        count("quiescent_points", 1);
        if problems() {
            return;
        }
    }
    // The end
    match source {
        Source::Channel(mut h) => {
            if h.len() > 1 && rng.flip() {
                let s = h.swap_remove(rng.below(h.len()));
                s.close();
                if rng.flip() {
                    drop(s);
                    h.push(h[0].clone());
                }
                for s in &h {
                    if s.send(-1) != Err(-1) {
                        report(end, "sending did not fail after the channel was closed");
                    }
                    if problems() {
                        return;
                    }
                }
                ls[0].follow(rng, value, true, props, end);
            }
        }
        Source::Mutable(h) => drop(h),
        Source::Broadcast(m, b) => {
            if rng.flip() {
                drop(b);
            }
            drop(m);
        }
    }
    for l in &mut ls {
        l.follow(rng, value, true, props, end);
    }
    count("quiescent_points", 1);
    case.nontrivial = value >= 3;
}
