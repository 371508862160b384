//! C14, C15, C24: adapters and consumers which involve futures and streams.

use super::gate::{Delay, Gate};
use super::out::OutS;
use super::src::*;
use super::{count, event, problems, report, trace, with_case, Chaos, ChaosRef, Props, Step, Task};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_core::Stream;
use futures_signals::signal::{from_future, from_stream, Signal, SignalExt};
use futures_signals::signal_map::SignalMapExt;
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

const P14: Props = &["C14"];
const P15: Props = &["C15"];
const P24: Props = &["C24"];

const KINDS: [CellKind; 8] = [
    CellKind::Latest,
    CellKind::Latest,
    CellKind::Queue,
    CellKind::Queue,
    CellKind::Mutable,
    CellKind::MutableRef,
    CellKind::Broadcast,
    CellKind::Channel,
];

fn gen_value(rng: &mut Rng) -> i64 {
    if rng.flip() {
        rng.below(4) as i64
    } else {
        rng.below(1000) as i64
    }
}

/// All gates made so far, in order.
type Gates = Rc<RefCell<Vec<Rc<Gate>>>>;

struct World {
    chaos: ChaosRef,
    cell: Rc<CellSrc>,
    gates: Gates,
}

impl World {
    fn new(rng: &mut Rng) -> World {
        let chaos: ChaosRef = Rc::new(Chaos::default());
        let cell = CellSrc::new(0, *rng.pick(&KINDS), gen_value(rng), &chaos);
        let gates: Gates = Rc::default();
        World { chaos, cell, gates }
    }

    fn install(&self, rng: &mut Rng) {
        if rng.flip() {
            let one_in = *rng.pick(&[2, 5]);
            let cell = Rc::downgrade(&self.cell);
            let gates = Rc::downgrade(&self.gates);
            self.chaos.install(
                rng.fork(),
                one_in,
                Box::new(move |rng| {
                    if let (Some(cell), Some(gates)) = (cell.upgrade(), gates.upgrade()) {
                        step(&cell, &gates, rng);
                    }
                }),
            );
        }
    }

    fn done(&self) {
        self.chaos.clear();
    }
}

fn open_one(gates: &Gates, rng: &mut Rng) -> bool {
    let closed: Vec<Rc<Gate>> = match gates.try_borrow() {
        Ok(g) => g.iter().filter(|g| !g.is_open()).cloned().collect(),
        Err(_) => return false,
    };
    if closed.is_empty() {
        return false;
    }
    let g = if rng.flip() { closed.last().unwrap().clone() } else { closed[rng.below(closed.len())].clone() };
    event(|| format!("future for {} finishes", g.value));
    trace(g.value as u64 ^ 0x6a7e);
    count("futures_finished", 1);
    g.open();
    true
}

fn step(cell: &CellSrc, gates: &Gates, rng: &mut Rng) {
    if rng.chance(2, 5) && open_one(gates, rng) {
        return;
    }
    let v = gen_value(rng);
    cell.set(v, rng);
}

fn make(gates: &Gates, value: i64, open: bool, name: &'static str, props: Props, chaos: &ChaosRef) -> super::gate::GateFut {
    let (g, f) = Gate::new(value, open, name, props, chaos);
    event(|| format!("  a future is made for {} open={}", value, open));
    gates.borrow_mut().push(g);
    f
}

// ---------------------------------------------------------------------------

pub fn map_future(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let w = World::new(rng);
        let (gates, chaos) = (w.gates.clone(), w.chaos.clone());
        let mut open_rng = rng.fork();
        let open_in = *rng.pick(&[2, 5, 1000]);
        let args = Rc::new(RefCell::new(vec![]));
        let args2 = args.clone();
        let delivered = Rc::new(Cell::new(0u64));
        let d2 = delivered.clone();
        let input = Counted { inner: w.cell.sub(), n: d2 };
        let s = input.map_future(move |v| {
            args2.borrow_mut().push(v);
            make(&gates, v * 2 + 1, open_rng.chance(1, open_in), "the future of map_future", P14, &chaos)
        });
        let mut out = OutS::polled(Box::pin(s), P14);
        w.install(rng);

        let mut seen = 0;
        let mut taken: Vec<usize> = vec![];
        let rounds = rng.range(2, 8);
        for round in 0..rounds {
            let last = round + 1 == rounds;
            for _ in 0..rng.below(4) {
                step(&w.cell, &w.gates, rng);
                if rng.chance(1, 3) {
                    let made = w.gates.borrow().len();
                    w.chaos.budget.set(2);
                    out.once(rng, false);
                    w.chaos.budget.set(0);
                    map_future_seen(&out, &mut seen, &mut taken, &w, made);
                }
            }
            if last {
                w.cell.end();
                while open_one(&w.gates, rng) {}
            } else if rng.chance(1, 8) {
                w.cell.end();
            }
            w.chaos.budget.set(rng.below(3) as u32);
            let mut n = 0;
            loop {
                let made = w.gates.borrow().len();
                let force = rng.chance(1, 40);
                if !out.once(rng, force) && !force {
                    break;
                }
                map_future_seen(&out, &mut seen, &mut taken, &w, made);
                n += 1;
                if n > 5000 {
                    report(P14, "map_future did not settle");
                    break;
                }
            }
            w.chaos.budget.set(0);
            if problems() {
                return;
            }
            // quiescent
            count("quiescent_points", 1);
            let g = w.gates.borrow();
            let a = args.borrow();
            if a.last() != Some(&w.cell.value.get()) {
                report(P14, format!("map_future has not called its closure with the newest value {}, but with {:?}", w.cell.value.get(), a.last()));
            }
            if a.len() as u64 != delivered.get() {
                report(P14, format!("map_future called its closure {} times for {} values", a.len(), delivered.get()));
            }
            let newest = g.len() - 1;
            for (i, x) in g.iter().enumerate() {
                if i < newest && !x.dropped.get() {
                    report(P14, "map_future has not dropped a superseded future");
                }
            }
            let x = &g[newest];
            if x.is_open() {
                if out.last != Some(Some(x.value)) || taken.last() != Some(&newest) {
                    report(P14, format!("map_future carries {:?} although the newest future has finished with {}", out.last, x.value));
                }
                if !x.dropped.get() {
                    report(P14, "map_future has not dropped the finished future");
                }
            } else if taken.is_empty() && out.last != Some(None) {
                report(P14, format!("map_future carries {:?} although nothing has finished", out.last));
            }
            let ended = w.cell.ended.get() && x.is_open();
            if ended != out.out.task.ended {
                report(P14, format!("map_future: ended = {} instead of {}", out.out.task.ended, ended));
            }
            if problems() {
                return;
            }
        }
        case.nontrivial = out.out.task.polls >= 3;
        w.done();
        drop(out);
        for g in w.gates.borrow().iter() {
            if !g.dropped.get() {
                report(&["C14", "C09"], "a future is left after dropping map_future");
            }
        }
    })
}

/// Checks what one poll delivered. `made` = number of futures made before that poll
fn map_future_seen(out: &OutS<Option<i64>>, seen: &mut usize, taken: &mut Vec<usize>, w: &World, made: usize) {
    let g = w.gates.borrow();
    let new = &out.history[*seen..];
    for (k, v) in new.iter().enumerate() {
        match v {
            None => {
                if *seen + k != 0 {
                    report(P14, "map_future delivered none again");
                }
            }
            Some(v) => {
                let i = g.len() - 1;
                let _ = made;
                if g[i].value != *v || !g[i].done.get() {
                    report(P14, format!("map_future delivered {}, which is not the output of the newest future", v));
                } else if taken.last() == Some(&i) {
                    report(P14, "map_future delivered an output twice");
                }
                taken.push(i);
            }
        }
    }
    *seen = out.history.len();
}

struct Counted {
    inner: SigI,
    n: Rc<Cell<u64>>,
}

impl Signal for Counted {
    type Item = i64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> Poll<Option<i64>> {
        let p = self.inner.as_mut().poll_change(cx);
        if let Poll::Ready(Some(_)) = &p {
            self.n.set(self.n.get() + 1);
        }
        p
    }
}

// ---------------------------------------------------------------------------

pub fn throttle(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let w = World::new(rng);
        let (gates, chaos) = (w.gates.clone(), w.chaos.clone());
        let mut open_rng = rng.fork();
        let open_in = *rng.pick(&[2, 5, 1000]);
        let s = w.cell.sub().throttle(move || Delay(make(&gates, 0, open_rng.chance(1, open_in), "the delay of throttle", P14, &chaos)));
        let mut task = Task::new();
        let mut s = Box::pin(s);
        w.install(rng);

        let mut last = None;
        let mut items = 0u64;
        let mut sent = vec![w.cell.value.get()]; // only used for a queue
        let queue = w.cell.kind == CellKind::Queue;
        let mut poll_once = |rng: &mut Rng, task: &mut Task, last: &mut Option<i64>, items: &mut u64, force: bool| -> bool {
            if !force && !task.wants() || task.ended {
                return false;
            }
            let closed_before = w.gates.borrow().iter().any(|g| !g.is_open());
            let made = w.gates.borrow().len();
            let mut got = None;
            let step = task.force(rng, |cx| {
                let p = s.as_mut().poll_change(cx);
                if let Poll::Ready(Some(v)) = &p {
                    got = Some(*v);
                }
                Step::of(&p)
            });
            event(|| format!("  poll -> {:?} {:?}", step, got));
            if let Some(v) = got {
                // (a delay may finish while it is polled)
                if closed_before && w.gates.borrow()[..made].iter().any(|g| !g.is_open()) {
                    report(P14, "throttle delivered a value before the delay has passed");
                }
                if w.gates.borrow().len() != made + 1 {
                    report(P14, "throttle did not start one delay for the delivered value");
                }
                *last = Some(v);
                *items += 1;
            } else if *items == 0 {
                report(P14, "throttle did not deliver the first value at once");
            }
            true
        };
        let rounds = rng.range(2, 8);
        for round in 0..rounds {
            let fin = round + 1 == rounds;
            for _ in 0..rng.below(4) {
                step(&w.cell, &w.gates, rng);
                if rng.chance(1, 3) {
                    w.chaos.budget.set(2);
                    let force = rng.chance(1, 10);
                    poll_once(rng, &mut task, &mut last, &mut items, force);
                    w.chaos.budget.set(0);
                }
            }
            if fin || rng.chance(1, 8) {
                w.cell.end();
            }
            w.chaos.budget.set(rng.below(3) as u32);
            let mut n = 0;
            loop {
                if !poll_once(rng, &mut task, &mut last, &mut items, false) && !(fin && open_one(&w.gates, rng)) {
                    break;
                }
                n += 1;
                if n > 5000 {
                    report(P14, "throttle did not settle");
                    break;
                }
            }
            w.chaos.budget.set(0);
            if problems() {
                return;
            }
            count("quiescent_points", 1);
            trace(items);
            let delayed = w.gates.borrow().iter().any(|g| !g.is_open());
            if !delayed {
                if last != Some(w.cell.value.get()) {
                    report(P14, format!("throttle carries {:?} instead of the newest value {} after the delay", last, w.cell.value.get()));
                }
                if task.ended != w.cell.ended.get() {
                    report(P14, format!("throttle: ended = {} although the input's is {}", task.ended, w.cell.ended.get()));
                }
            } else if task.ended && !w.cell.ended.get() {
                report(P14, "throttle ended although its input has not");
            }
            if problems() {
                return;
            }
        }
        let _ = (&mut sent, queue);
        case.nontrivial = task.polls >= 3;
        drop(s);
        w.done();
        for g in w.gates.borrow().iter() {
            if !g.dropped.get() {
                report(&["C14", "C09"], "a delay is left after dropping throttle");
            }
        }
    })
}

// ---------------------------------------------------------------------------

pub fn from_fut_stream(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let chaos: ChaosRef = Rc::new(Chaos::default());
        let polls;
        if rng.flip() {
            let open = rng.flip();
            let (gate, f) = Gate::new(7 + rng.below(9) as i64, open, "the future of from_future", P14, &chaos);
            let mut out = OutS::new(Box::pin(from_future(f)), rng, P14);
            let g2 = gate.clone();
            if rng.flip() {
                chaos.install(rng.fork(), 3, Box::new(move |_| g2.open()));
            }
            chaos.budget.set(1);
            let rounds = rng.range(1, 6);
            for round in 0..rounds {
                if round + 1 == rounds || rng.chance(1, 4) {
                    gate.open();
                }
                let force = rng.flip();
                out.once(rng, force);
                if out.last.is_none() {
                    report(P14, "from_future did not deliver anything at first");
                }
                out.settle(rng);
                let expect: &[Option<i64>] = if gate.is_open() { &[None, Some(gate.value)] } else { &[None] };
                let ok = out.history == expect || (gate.is_open() && out.history[..] == expect[1..]);
                if !ok {
                    report(P14, format!("from_future delivered {:?}, the future has finished = {}", out.history, gate.is_open()));
                }
                if out.out.task.ended != gate.is_open() {
                    report(P14, "from_future does not end exactly after its future has finished");
                }
                if problems() {
                    return;
                }
                trace(out.history.len() as u64 ^ (gate.is_open() as u64) << 9);
            }
            polls = out.out.task.polls;
            chaos.clear();
            drop(out);
            if !gate.dropped.get() {
                report(&["C14", "C09"], "from_future has not dropped its future");
            }
        } else {
            let live = Rc::new(Cell::new(0));
            let n0 = rng.below(4);
            let initial: VecDeque<i64> = (0..n0 as i64).collect();
            let mut items: i64 = n0 as i64;
            let sub = Sub::new("a stream", initial, false, &live, &chaos);
            let first_item = n0 > 0;
            let mut out = OutS::new(Box::pin(from_stream(SubHandle(sub.clone()))), rng, P14);
            // A poll hands over the newest item which is there, so none is left behind it
            fn newest(out: &mut OutS<Option<i64>>, pushed: &Cell<i64>, rng: &mut Rng) -> bool {
                let (before, there) = (out.history.len(), pushed.get());
                let r = out.once(rng, false);
                if out.history.len() > before && there > 0 && out.last < Some(Some(there - 1)) {
                    report(P14, format!("from_stream delivered {:?} while newer items were ready", out.last));
                }
                r
            }
            let mut ended = false;
            let pushed = Rc::new(Cell::new(items));
            if rng.flip() {
                let (s2, p2) = (Rc::downgrade(&sub), pushed.clone());
                chaos.install(
                    rng.fork(),
                    3,
                    Box::new(move |_| {
                        if let Some(s) = s2.upgrade() {
                            s.push(p2.get(), false);
                            p2.set(p2.get() + 1);
                        }
                    }),
                );
            }
            let rounds = rng.range(2, 8);
            for round in 0..rounds {
                if round > 0 && !ended {
                    for _ in 0..rng.below(4) {
                        sub.push(pushed.get(), false);
                        pushed.set(pushed.get() + 1);
                        if rng.chance(1, 3) {
                            newest(&mut out, &pushed, rng);
                        }
                    }
                    if rng.chance(1, 5) || round + 1 == rounds {
                        sub.end();
                        ended = true;
                    }
                }
                chaos.budget.set(if ended { 0 } else { rng.below(3) as u32 });
                while newest(&mut out, &pushed, rng) {}
                chaos.budget.set(0);
                while newest(&mut out, &pushed, rng) {}
                items = pushed.get();
                let expect = if items > 0 { Some(items - 1) } else { None };
                if out.last != Some(expect) {
                    report(P14, format!("from_stream carries {:?} instead of {:?}", out.last, expect));
                }
                if out.out.task.ended != ended {
                    report(P14, "from_stream does not end exactly when the stream does");
                }
                if first_item && out.history[0].is_none() {
                    // allowed: it may also start with none
                }
                let mut prev = -1;
                for (i, v) in out.history.iter().enumerate() {
                    match v {
                        None if i > 0 => report(P14, "from_stream delivered none again"),
                        Some(v) if *v <= prev => report(P14, "from_stream delivered an older item"),
                        Some(v) => prev = *v,
                        None => {}
                    }
                }
                if problems() {
                    return;
                }
                trace(out.history.len() as u64 ^ (items as u64) << 20);
            }
            polls = out.out.task.polls;
            chaos.clear();
        }
        case.nontrivial = polls >= 3;
    })
}

// ---------------------------------------------------------------------------

/// for_each with slow futures, to_future, wait_for
pub fn consumers(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        match rng.below(5) {
            0 | 1 => for_each(rng, case),
            2 => to_future(rng, case),
            3 => wait_for(rng, case),
            _ => sample(rng, case),
        }
    })
}

fn for_each(rng: &mut Rng, case: &mut Case) {
    let w = World::new(rng);
    let (gates, chaos) = (w.gates.clone(), w.chaos.clone());
    let mut open_rng = rng.fork();
    let open_in = *rng.pick(&[1, 2, 5]);
    let passed: Rc<RefCell<Vec<i64>>> = Rc::default();
    let p2 = passed.clone();
    let history: Rc<RefCell<Vec<i64>>> = Rc::default();
    let source = Watched { inner: w.cell.sub(), log: history.clone() };
    let mut f = Box::pin(source.for_each(move |v| {
        if gates.borrow().iter().any(|g| !g.done.get()) {
            report(P15, "for_each called its closure before the previous future had finished");
        }
        p2.borrow_mut().push(v);
        Delay(make(&gates, v, open_rng.chance(1, open_in), "the future of for_each", P15, &chaos))
    }));
    w.install(rng);
    let mut task = Task::new();
    let rounds = rng.range(2, 8);
    for round in 0..rounds {
        let fin = round + 1 == rounds;
        for _ in 0..rng.below(4) {
            step(&w.cell, &w.gates, rng);
            if rng.chance(1, 3) {
                w.chaos.budget.set(2);
                let force = rng.chance(1, 10);
                poll_future(rng, &mut task, &mut f, force);
                w.chaos.budget.set(0);
            }
        }
        if fin || rng.chance(1, 8) {
            w.cell.end();
        }
        w.chaos.budget.set(rng.below(3) as u32);
        let mut n = 0;
        while poll_future(rng, &mut task, &mut f, false).is_some() || (fin && open_one(&w.gates, rng)) {
            n += 1;
            if n > 5000 {
                return report(P15, "for_each did not settle");
            }
        }
        w.chaos.budget.set(0);
        count("quiescent_points", 1);
        let busy = w.gates.borrow().iter().any(|g| !g.is_open());
        let passed = passed.borrow();
        if *passed != *history.borrow() {
            report(P15, "for_each did not pass exactly the delivered values to its closure in order");
        }
        if !busy {
            if passed.last() != Some(&w.cell.value.get()) {
                report(P15, format!("for_each ended up with {:?} instead of {}", passed.last(), w.cell.value.get()));
            }
            if task.ended != w.cell.ended.get() {
                report(P15, format!("for_each: finished = {} although the signal's end is {}", task.ended, w.cell.ended.get()));
            }
        } else if task.ended {
            report(P15, "for_each finished before its last future had");
        }
        trace(passed.len() as u64);
        if problems() {
            return;
        }
    }
    case.nontrivial = task.polls >= 3;
    w.done();
    drop(f);
    for g in w.gates.borrow().iter() {
        if !g.dropped.get() {
            report(&["C15", "C09"], "a future is left after dropping for_each");
        }
    }
}

/// None: not polled
fn poll_future<F: Future>(rng: &mut Rng, task: &mut Task, f: &mut Pin<Box<F>>, force: bool) -> Option<Option<F::Output>> {
    if !force && !task.wants() || task.ended {
        return None;
    }
    let mut r = None;
    task.force(rng, |cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => {
            r = Some(v);
            Step::End
        }
        Poll::Pending => Step::Pending,
    });
    Some(r)
}

struct Watched {
    inner: SigI,
    log: Rc<RefCell<Vec<i64>>>,
}

impl Signal for Watched {
    type Item = i64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> Poll<Option<i64>> {
        let p = self.inner.as_mut().poll_change(cx);
        if let Poll::Ready(Some(v)) = &p {
            self.log.borrow_mut().push(*v);
        }
        p
    }
}

fn to_future(rng: &mut Rng, case: &mut Case) {
    let w = World::new(rng);
    let mut f = Box::pin(w.cell.sub().to_future());
    w.install(rng);
    let mut task = Task::new();
    let mut result = None;
    let rounds = rng.range(1, 7);
    for round in 0..rounds {
        for _ in 0..rng.below(4) {
            step(&w.cell, &w.gates, rng);
            if rng.chance(1, 3) {
                w.chaos.budget.set(2);
                let force = rng.chance(1, 10);
                if let Some(Some(r)) = poll_future(rng, &mut task, &mut f, force) {
                    result = Some(r);
                }
                w.chaos.budget.set(0);
            }
        }
        if round + 1 == rounds || rng.chance(1, 5) {
            w.cell.end();
        }
        w.chaos.budget.set(rng.below(3) as u32);
        while let Some(r) = poll_future(rng, &mut task, &mut f, false) {
            if r.is_some() {
                result = r;
            }
        }
        w.chaos.budget.set(0);
        count("quiescent_points", 1);
        trace(task.polls);
        let expect = if w.cell.ended.get() { Some(w.cell.value.get()) } else { None };
        if result != expect {
            report(P15, format!("to_future has {:?} instead of {:?}", result, expect));
        }
        if problems() {
            return;
        }
    }
    case.nontrivial = task.polls >= 2;
    w.done();
}

fn wait_for(rng: &mut Rng, case: &mut Case) {
    let w = World::new(rng);
    let target = rng.below(4) as i64;
    let log: Rc<RefCell<Vec<i64>>> = Rc::default();
    let mut f = Box::pin(Watched { inner: w.cell.sub(), log: log.clone() }.wait_for(target));
    w.install(rng);
    let mut task = Task::new();
    let mut result: Option<Option<i64>> = None;
    let rounds = rng.range(1, 7);
    for round in 0..rounds {
        for _ in 0..rng.below(4) {
            step(&w.cell, &w.gates, rng);
            if rng.chance(1, 3) {
                w.chaos.budget.set(2);
                let force = rng.chance(1, 10);
                if let Some(Some(r)) = poll_future(rng, &mut task, &mut f, force) {
                    result = Some(r);
                }
                w.chaos.budget.set(0);
            }
        }
        if round + 1 == rounds || rng.chance(1, 5) {
            w.cell.end();
        }
        w.chaos.budget.set(rng.below(3) as u32);
        while let Some(r) = poll_future(rng, &mut task, &mut f, false) {
            if r.is_some() {
                result = r;
            }
        }
        w.chaos.budget.set(0);
        count("quiescent_points", 1);
        trace(task.polls);
        let log = log.borrow();
        let hit = log.iter().position(|v| *v == target);
        match &result {
            Some(Some(v)) => {
                if *v != target || hit != Some(log.len() - 1) {
                    report(P15, format!("wait_for({}) resolved to {} after the values {:?}", target, v, log));
                }
            }
            Some(None) => {
                if hit.is_some() || !w.cell.ended.get() {
                    report(P15, format!("wait_for({}) resolved to none after the values {:?}", target, log));
                }
            }
            None => {
                if hit.is_some() || w.cell.ended.get() || w.cell.value.get() == target {
                    report(P15, format!("wait_for({}) is not resolved after the values {:?}, the current one is {}", target, log, w.cell.value.get()));
                }
            }
        }
        if problems() {
            return;
        }
    }
    case.nontrivial = task.polls >= 2;
    w.done();
}

fn sample(rng: &mut Rng, case: &mut Case) {
    let w = World::new(rng);
    let live = Rc::new(Cell::new(0));
    let sub = Sub::new("a stream", VecDeque::new(), false, &live, &w.chaos);
    let mut s = Box::pin(w.cell.sub().sample_stream_cloned(SubHandle(sub.clone())));
    w.install(rng);
    let mut task = Task::new();
    let mut next = 0i64;
    let mut got = 0i64;
    let mut ended = false;
    let mut poll_once = |rng: &mut Rng, task: &mut Task, got: &mut i64, force: bool| -> bool {
        if !force && !task.wants() || task.ended {
            return false;
        }
        let budget = w.chaos.budget.get();
        let mut item = None;
        task.force(rng, |cx| {
            let p = s.as_mut().poll_next(cx);
            let st = Step::of(&p);
            if let Poll::Ready(Some(v)) = p {
                item = Some(v);
            }
            st
        });
        if let Some((v, i)) = item {
            event(|| format!("  -> {:?}", (v, i)));
            if i != *got {
                report(P15, format!("the sampling stream delivered item {} instead of {}", i, got));
            }
            *got = i + 1;
            // values change during the poll only with chaos
            let after = w.cell.value.get();
            if w.chaos.budget.get() == budget && v != after {
                report(P15, format!("the sampling stream paired an item with {} instead of the current {}", v, after));
            }
        }
        true
    };
    let rounds = rng.range(2, 8);
    for round in 0..rounds {
        for _ in 0..rng.below(5) {
            if rng.flip() {
                step(&w.cell, &w.gates, rng);
            } else if !ended {
                event(|| format!("item {}", next));
                sub.push(next, false);
                next += 1;
            }
            if rng.chance(1, 3) {
                w.chaos.budget.set(2);
                let force = rng.chance(1, 10);
                poll_once(rng, &mut task, &mut got, force);
                w.chaos.budget.set(0);
            }
        }
        if rng.chance(1, 6) {
            w.cell.end();
        }
        if !ended && (round + 1 == rounds || rng.chance(1, 8)) {
            sub.end();
            ended = true;
        }
        w.chaos.budget.set(rng.below(2) as u32);
        let mut n = 0;
        while poll_once(rng, &mut task, &mut got, false) {
            n += 1;
            if n > 5000 {
                return report(P15, "the sampling stream did not settle");
            }
        }
        w.chaos.budget.set(0);
        count("quiescent_points", 1);
        trace(got as u64);
        if got != next {
            report(P15, format!("the sampling stream delivered {} of {} items", got, next));
        }
        if task.ended != ended {
            report(P15, "the sampling stream does not end exactly when the stream does");
        }
        if problems() {
            return;
        }
    }
    case.nontrivial = task.polls >= 3;
    w.done();
}

/// for_each over lists and maps with slow futures
pub fn list_consumers(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let chaos: ChaosRef = Rc::new(Chaos::default());
        let gates: Gates = Rc::default();
        let g2 = gates.clone();
        let c2 = chaos.clone();
        let mut open_rng = rng.fork();
        let open_in = *rng.pick(&[1, 2, 5]);
        let mut slow = move || {
            if g2.borrow().iter().any(|g| !g.done.get()) {
                report(P15, "for_each called its closure before the previous future had finished");
            }
            Delay(make(&g2, 0, open_rng.chance(1, open_in), "the future of for_each", P15, &c2))
        };
        let real = rng.flip();
        let is_vec = rng.flip();
        let max = 6;
        let vec = VecSrc::new(0, real, (0..rng.below(4) as i64).collect(), max, rng.fork(), &chaos);
        let map = MapSrc::new(0, real, (0..rng.below(3) as i64).map(|k| (k, k)).collect(), KEYS, rng.fork(), &chaos);
        let list: Rc<RefCell<Vec<i64>>> = Rc::default();
        let entries: Rc<RefCell<BTreeMap<i64, i64>>> = Rc::default();
        let (l2, e2) = (list.clone(), entries.clone());
        let mut f: Pin<Box<dyn Future<Output = ()>>> = if is_vec {
            Box::pin(vec.sub().for_each(move |d| {
                if let Err(e) = apply_vec(d, &mut l2.borrow_mut()) {
                    report(P15, format!("for_each passed an {}", e));
                }
                slow()
            }))
        } else {
            Box::pin(map.sub().for_each(move |d| {
                if let Err(e) = apply_map(d, &mut e2.borrow_mut()) {
                    report(P15, format!("for_each passed an invalid diff: {}", e));
                }
                slow()
            }))
        };
        let mut task = Task::new();
        let rounds = rng.range(2, 8);
        let mut ended = false;
        for round in 0..rounds {
            let fin = round + 1 == rounds;
            for _ in 0..rng.below(5) {
                if rng.chance(1, 3) {
                    open_one(&gates, rng);
                } else if is_vec {
                    vec.mutate(rng, &mut gen_value);
                } else {
                    map.mutate(rng, &mut gen_value);
                }
                if rng.chance(1, 3) {
                    poll_unit(rng, &mut task, &mut f);
                }
            }
            if fin || rng.chance(1, 8) {
                ended = true;
                vec.end();
                map.end();
            }
            while poll_unit(rng, &mut task, &mut f) || (fin && open_one(&gates, rng)) {}
            count("quiescent_points", 1);
            let busy = gates.borrow().iter().any(|g| !g.is_open());
            if !busy {
                if is_vec && *list.borrow() != *vec.values.borrow() {
                    report(P15, format!("for_each rebuilt {:?} instead of {:?}", list.borrow(), vec.values.borrow()));
                }
                if !is_vec && *entries.borrow() != *map.values.borrow() {
                    report(P15, format!("for_each rebuilt {:?} instead of {:?}", entries.borrow(), map.values.borrow()));
                }
                if task.ended != ended {
                    report(P15, "for_each does not finish exactly when its input ends");
                }
            } else if task.ended {
                report(P15, "for_each finished before its last future had");
            }
            trace(gates.borrow().len() as u64);
            if problems() {
                return;
            }
        }
        case.nontrivial = task.polls >= 3;
    })
}

fn poll_unit(rng: &mut Rng, task: &mut Task, f: &mut Pin<Box<dyn Future<Output = ()>>>) -> bool {
    task.step(rng, |cx| match f.as_mut().poll(cx) {
        Poll::Ready(()) => Step::End,
        Poll::Pending => Step::Pending,
    })
}

// ---------------------------------------------------------------------------

const SLOT: i64 = 1000;

fn slot(v: i64) -> i64 {
    v / SLOT
}

/// delay_remove: values are (slot, version), each update gives a new version
pub fn delay_remove(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let chaos: ChaosRef = Rc::new(Chaos::default());
        let gates: Gates = Rc::default();
        let max = if rng.chance(1, 12) { 30 } else { 7 };
        let next = Rc::new(Cell::new(1i64));
        let n0 = rng.below(max - 2);
        let initial: Vec<i64> = (0..n0)
            .map(|_| {
                let v = next.get() * SLOT;
                next.set(next.get() + 1);
                v
            })
            .collect();
        let src = VecSrc::new(0, false, initial, max, rng.fork(), &chaos);
        let (g2, c2) = (gates.clone(), chaos.clone());
        let mut open_rng = rng.fork();
        let open_in = *rng.pick(&[2, 4, 1000]);
        let s = src.scripted().delay_remove(move |v| Delay(make(&g2, *v, open_rng.chance(1, open_in), "the future of delay_remove", P24, &c2)));
        let mut s = Box::pin(s);
        let mut task = Task::new();
        let mut replica: Vec<i64> = vec![];
        // slots which an input Move has moved since the last quiescent point
        let moved: Rc<RefCell<Vec<i64>>> = Rc::default();
        // the whole list was replaced since the last quiescent point
        let mut snapshot: Vec<i64> = vec![];

        let mutate = {
            let (next, moved, src) = (next.clone(), moved.clone(), Rc::downgrade(&src));
            move |rng: &mut Rng| {
                let Some(src) = src.upgrade() else { return };
                if src.ended.get() {
                    return;
                }
                let mut fresh = || {
                    let v = next.get() * SLOT;
                    next.set(next.get() + 1);
                    v
                };
                let values = src.values.borrow().clone();
                let len = values.len();
                let d = loop {
                    match rng.below(20) {
                        0 => break VecDiff::Replace { values: (0..rng.below(max / 2 + 1)).map(|_| fresh()).collect() },
                        1..=5 if len < max => break VecDiff::InsertAt { index: rng.below(len + 1), value: fresh() },
                        6..=7 if len > 0 => {
                            let index = rng.below(len);
                            break VecDiff::UpdateAt { index, value: values[index] + 1 };
                        }
                        8..=12 if len > 0 => break VecDiff::RemoveAt { index: rng.below(len) },
                        13..=14 if len > 0 => {
                            let old_index = rng.below(len);
                            moved.borrow_mut().push(slot(values[old_index]));
                            break VecDiff::Move { old_index, new_index: rng.below(len) };
                        }
                        15 if len < max => break VecDiff::Push { value: fresh() },
                        16..=17 if len > 0 => break VecDiff::Pop {},
                        18 => break VecDiff::Clear {},
                        _ => {}
                    }
                };
                count("source_changes", 1);
                src.push(d);
            }
        };
        if rng.flip() {
            let m = mutate.clone();
            let g = Rc::downgrade(&gates);
            chaos.install(
                rng.fork(),
                *rng.pick(&[2, 6]),
                Box::new(move |rng| {
                    if rng.flip() {
                        m(rng)
                    } else if let Some(g) = g.upgrade() {
                        open_one(&g, rng);
                    }
                }),
            );
        }

        let mut polls = |rng: &mut Rng, task: &mut Task, replica: &mut Vec<i64>, force: bool| -> bool {
            if !force && !task.wants() || task.ended {
                return false;
            }
            let mut got = None;
            let st = task.force(rng, |cx| {
                let p = s.as_mut().poll_vec_change(cx);
                let st = Step::of(&p);
                if let Poll::Ready(Some(d)) = p {
                    got = Some(d);
                }
                st
            });
            if st == Step::End {
                event(|| "  -> end".into());
            }
            if let Some(d) = got {
                event(|| format!("  -> {:?}", d));
                let before = replica.clone();
                count(super::out::diff_name(&d), 1);
                if let Err(e) = apply_vec(d, replica) {
                    report(P24, format!("delay_remove delivered an {}", e));
                    return false;
                }
                let input = src.values.borrow();
                for v in &before {
                    if replica.iter().any(|x| slot(*x) == slot(*v)) {
                        continue;
                    }
                    // it has left
                    if input.iter().any(|x| slot(*x) == slot(*v)) {
                        report(P24, format!("delay_remove removed the item {} which is still in its input", v));
                    }
                    // the future of its newest version
                    let g = gates.borrow().iter().rev().find(|g| slot(g.value) == slot(*v)).cloned();
                    if !g.is_some_and(|g| g.is_open()) {
                        report(P24, format!("delay_remove removed the item {} before its future has finished", v));
                    }
                }
            }
            true
        };

        let rounds = rng.range(2, 9);
        for round in 0..rounds {
            let fin = round + 1 == rounds;
            for _ in 0..rng.below(5) {
                if rng.chance(1, 3) {
                    open_one(&gates, rng);
                } else {
                    mutate(rng);
                }
                if rng.chance(1, 3) {
                    chaos.budget.set(2);
                    let force = rng.chance(1, 10);
                    polls(rng, &mut task, &mut replica, force);
                    chaos.budget.set(0);
                }
            }
            if fin || rng.chance(1, 10) {
                src.end();
            }
            if fin && rng.flip() {
                while open_one(&gates, rng) {}
            }
            chaos.budget.set(rng.below(3) as u32);
            let mut n = 0;
            while polls(rng, &mut task, &mut replica, false) && !problems() {
                n += 1;
                if n > 5000 {
                    report(P24, "delay_remove did not settle");
                }
            }
            chaos.budget.set(0);
            if problems() {
                return;
            }
            count("quiescent_points", 1);
            let input = src.values.borrow().clone();
            let present: Vec<i64> = replica.iter().copied().filter(|v| input.iter().any(|x| slot(*x) == slot(*v))).collect();
            if present != input {
                report(P24, format!("delay_remove has {:?} of the input {:?}", present, input));
            }
            let removing: Vec<i64> = replica.iter().copied().filter(|v| !input.contains(v)).collect();
            for v in &removing {
                let g = gates.borrow().iter().rev().find(|g| slot(g.value) == slot(*v)).cloned().unwrap();
                if g.is_open() {
                    report(P24, format!("delay_remove kept the removed item {} although its future has finished", v));
                }
                if g.value != *v {
                    report(P24, "delay_remove kept an old version of a removed item");
                }
            }
            // relative order
            let moved_now = std::mem::take(&mut *moved.borrow_mut());
            let common: Vec<i64> = snapshot.iter().map(|v| slot(*v)).filter(|s| !moved_now.contains(s) && replica.iter().any(|x| slot(*x) == *s)).collect();
            let now: Vec<i64> = replica.iter().map(|v| slot(*v)).filter(|s| common.contains(s)).collect();
            if common != now {
                report(P24, format!("delay_remove reordered items which were not moved: {:?} -> {:?}", common, now));
            }
            snapshot = replica.clone();
            let ended = src.ended.get() && removing.is_empty();
            if task.ended != ended {
                report(P24, format!("delay_remove: ended = {} instead of {}", task.ended, ended));
            }
            trace(replica.iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
            count("items_being_removed", removing.len() as u64);
            if problems() {
                return;
            }
        }
        case.nontrivial = task.polls >= 3;
        chaos.clear();
        drop(polls);
        drop(s);
        for g in gates.borrow().iter() {
            if !g.dropped.get() {
                report(&["C24", "C09"], "a future is left after dropping delay_remove");
            }
        }
    })
}
