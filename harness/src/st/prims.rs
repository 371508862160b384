//! C04: a Mutable against a plain variable, with exact wake-ups.

use super::{count, event, problems, report, trace, with_case, Props, Step, Task};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal::{Mutable, ReadOnlyMutable, Signal, SignalExt};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

const P: Props = &["C04"];

struct Listener {
    of: usize,
    kind: usize,
    s: Pin<Box<dyn Signal<Item = i64>>>,
    task: Task,
    /// It has something to deliver
    dirty: bool,
    /// A change which leaves the value the same may or may not be delivered
    maybe: bool,
    wakes: u64,
    id: usize,
    calls: Rc<RefCell<u64>>,
    delivered: u64,
}

struct One {
    handles: Vec<Mutable<i64>>,
    readers: Vec<ReadOnlyMutable<i64>>,
    value: i64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Effect {
    Nothing,
    Changed,
    Maybe,
    Closed,
}

fn view(kind: usize, v: i64) -> i64 {
    match kind {
        2 => v * 3 + 1,
        _ => v,
    }
}

fn subscribe(m: &ReadOnlyMutable<i64>, h: Option<&Mutable<i64>>, kind: usize, calls: &Rc<RefCell<u64>>) -> Pin<Box<dyn Signal<Item = i64>>> {
    let calls = calls.clone();
    let f = move |x: &i64| {
        *calls.borrow_mut() += 1;
        *x * 3 + 1
    };
    match (kind, h) {
        (0, Some(h)) => Box::pin(h.signal()),
        (0, None) => Box::pin(m.signal()),
        (1, Some(h)) => Box::pin(h.signal_cloned()),
        (1, None) => Box::pin(m.signal_cloned()),
        (2, Some(h)) => Box::pin(h.signal_ref(f)),
        (2, None) => Box::pin(m.signal_ref(f)),
        (_, _) => Box::pin(m.clone().signal().boxed_local()),
    }
}

pub fn run(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let n = rng.range(1, 3);
        let mut all: Vec<One> = (0..n)
            .map(|i| {
                let v = gen(rng);
                let m = match rng.below(3) {
                    0 => Mutable::new(v),
                    1 => Mutable::from(v),
                    _ => {
                        let m: Mutable<i64> = Default::default();
                        if m.get() != 0 {
                            report(P, "the default Mutable does not have the default value");
                        }
                        m.set(v);
                        m
                    }
                };
                event(|| format!("m{} = {}", i, v));
                One { readers: vec![m.read_only()], handles: vec![m], value: v }
            })
            .collect();
        let mut ls: Vec<Listener> = vec![];
        let mut next_id = 0;
        let steps = rng.range(5, 60);
        for _ in 0..steps {
            let i = rng.below(n);
            for l in ls.iter_mut() {
                l.wakes = l.task.flag.wakes();
            }
            let mut effects = vec![Effect::Nothing; n];
            if all[i].handles.is_empty() || rng.chance(1, 3) {
                // something with the signals
                match rng.below(6) {
                    0 | 1 if ls.len() < 12 => {
                        let kind = rng.below(4);
                        let calls = Rc::new(RefCell::new(0));
                        let o = &all[i];
                        let r = &o.readers[rng.below(o.readers.len())];
                        let h = if o.handles.is_empty() || rng.flip() { None } else { Some(&o.handles[rng.below(o.handles.len())]) };
                        event(|| format!("listener {} of m{} kind {}", next_id, i, kind));
                        ls.push(Listener {
                            of: i,
                            kind,
                            s: subscribe(r, h, kind, &calls),
                            task: Task::new(),
                            dirty: true,
                            maybe: false,
                            wakes: 0,
                            id: next_id,
                            calls,
                            delivered: 0,
                        });
                        next_id += 1;
                        count("listeners", 1);
                    }
                    2 if !ls.is_empty() => {
                        let l = ls.swap_remove(rng.below(ls.len()));
                        event(|| format!("drop listener {}", l.id));
                        count("listeners_dropped", 1);
                        drop(l);
                    }
                    3 => {
                        // reading
                        let o = &all[i];
                        let r = &o.readers[rng.below(o.readers.len())];
                        let ok = match rng.below(5) {
                            0 => r.get() == o.value,
                            1 => r.get_cloned() == o.value,
                            2 => *r.lock_ref() == o.value,
                            3 => format!("{:?}", r) == format!("ReadOnlyMutable({})", o.value),
                            _ => r.clone().get() == o.value,
                        };
                        if !ok {
                            report(P, "a read-only handle does not read the current value");
                        }
                    }
                    _ if !ls.is_empty() => {
                        let k = rng.below(ls.len());
                        let force = rng.flip();
                        poll(&mut ls[k], &all, rng, force);
                    }
                    _ => {}
                }
            } else {
                operate(rng, &mut all, i, &mut effects);
            }
            // Exactly those are woken which have to be
            for l in ls.iter_mut() {
                let woken = l.task.flag.wakes() != l.wakes;
                match effects[l.of] {
                    Effect::Nothing => {
                        if woken {
                            report(P, format!("listener {} was woken although nothing changed", l.id));
                        }
                    }
                    Effect::Changed => {
                        l.dirty = true;
                        // (once it has been woken the waker is gone until the next poll)
                        if !l.task.wants() && !l.task.ended {
                            report(P, format!("listener {} was not woken by a change", l.id));
                        }
                    }
                    Effect::Maybe => l.maybe = true,
                    Effect::Closed => {
                        if !l.task.wants() && !l.task.ended {
                            report(P, format!("listener {} was not woken by the drop of the last handle", l.id));
                        }
                    }
                }
            }
            if problems() {
                return;
            }
        }
        // everything is delivered in the end
        for o in all.iter_mut() {
            o.handles.clear();
        }
        for l in ls.iter_mut() {
            while l.task.wants() && !problems() {
                poll(l, &all, rng, false);
            }
            if !l.task.ended && !problems() {
                report(P, format!("listener {} did not end after the last handle was dropped", l.id));
            }
        }
        case.nontrivial = next_id > 0;
    })
}

fn gen(rng: &mut Rng) -> i64 {
    let n = if rng.flip() { 3 } else { 1000 };
    rng.below(n) as i64
}

fn poll(l: &mut Listener, all: &[One], rng: &mut Rng, force: bool) {
    if l.task.ended || !force && !l.task.wants() {
        return;
    }
    let o = &all[l.of];
    let mut got = None;
    let s = &mut l.s;
    let step = l.task.force(rng, |cx| {
        let p = s.as_mut().poll_change(cx);
        if let Poll::Ready(Some(v)) = &p {
            got = Some(*v);
        }
        Step::of(&p)
    });
    event(|| format!("  listener {} -> {:?} {:?}", l.id, step, got));
    count("listener_polls", 1);
    l.wakes = l.task.flag.wakes();
    match got {
        Some(v) => {
            l.delivered += 1;
            if !l.dirty && !l.maybe {
                report(P, format!("listener {} delivered {} although nothing changed", l.id, v));
            }
            if v != view(l.kind, o.value) {
                report(P, format!("listener {} delivered {} instead of {}", l.id, v, view(l.kind, o.value)));
            }
            l.dirty = false;
            l.maybe = false;
            if l.kind == 2 && *l.calls.borrow() != l.delivered {
                report(P, "the closure of signal_ref is not called exactly once for each delivered value");
            }
        }
        None => {
            if l.dirty {
                report(P, format!("listener {} did not deliver the changed value, but {:?}", l.id, step));
            }
            l.maybe = false;
            let end = o.handles.is_empty();
            if (step == Step::End) != end {
                report(P, format!("listener {}: {:?} although there are {} handles", l.id, step, o.handles.len()));
            }
        }
    }
}

fn operate(rng: &mut Rng, all: &mut [One], i: usize, effects: &mut [Effect]) {
    let n = all.len();
    let v = gen(rng);
    let j = rng.below(n);
    let op = rng.below(20);
    count("operations", 1);
    trace(op as u64 * 1000 + v as u64);
    let k = rng.below(all[i].handles.len());
    let old = all[i].value;
    let m = all[i].handles[k].clone();
    macro_rules! same {
        ($what:expr, $got:expr, $expect:expr) => {{
            let (g, e) = ($got, $expect);
            if g != e {
                report(P, format!("{} gave {:?} instead of {:?}", $what, g, e));
            }
        }};
    }
    match op {
        0 | 1 => {
            event(|| format!("m{}.set({})", i, v));
            m.set(v);
            all[i].value = v;
            effects[i] = Effect::Changed;
        }
        2 | 3 => {
            event(|| format!("m{}.set_neq({})", i, v));
            m.set_neq(v);
            if v != old {
                all[i].value = v;
                effects[i] = Effect::Changed;
            }
        }
        4 | 5 => {
            let accept = rng.flip();
            event(|| format!("m{}.set_if({}) accept={}", i, v, accept));
            let mut args = vec![];
            m.set_if(v, |a, b| {
                args.push((*a, *b));
                accept
            });
            same!("the closure of set_if", args, vec![(old, v)]);
            if accept {
                all[i].value = v;
                effects[i] = Effect::Changed;
            }
        }
        6 => {
            event(|| format!("m{}.replace({})", i, v));
            same!("replace", m.replace(v), old);
            all[i].value = v;
            effects[i] = Effect::Changed;
        }
        7 => {
            event(|| format!("m{}.replace_with({})", i, v));
            let add = rng.below(2) as i64;
            let r = m.replace_with(|x| {
                *x += add;
                v + *x
            });
            same!("replace_with", r, old + add);
            all[i].value = v + old + add;
            effects[i] = Effect::Changed;
        }
        8 | 9 => {
            let h = if i == j { m.clone() } else if let Some(h) = all[j].handles.first() { h.clone() } else { return };
            event(|| format!("m{}.swap(m{})", i, j));
            m.swap(&h);
            if i == j {
                effects[i] = Effect::Maybe;
            } else {
                let (a, b) = (all[i].value, all[j].value);
                all[i].value = b;
                all[j].value = a;
                effects[i] = Effect::Changed;
                effects[j] = Effect::Changed;
            }
        }
        10 => {
            event(|| format!("*m{}.lock_mut() = {}", i, v));
            let mut l = m.lock_mut();
            same!("the lock", *l, old);
            *l = v;
            if rng.flip() {
                *l += 1;
            }
            all[i].value = *l;
            drop(l);
            effects[i] = Effect::Changed;
        }
        11 => {
            event(|| format!("m{}.lock_mut() without a change", i));
            let l = m.lock_mut();
            same!("the lock", *l, old);
            drop(l);
        }
        12 => {
            same!("get", m.get(), old);
            same!("get_cloned", m.get_cloned(), old);
            same!("lock_ref", *m.lock_ref(), old);
            same!("Debug", format!("{:?}", m), format!("Mutable({})", old));
        }
        13 => {
            let l = m.lock_ref();
            let r = m.read_only();
            same!("lock_ref", *l, old);
            drop(l);
            same!("read_only", r.get(), old);
            if all[i].readers.len() < 4 {
                all[i].readers.push(r);
            }
        }
        14 | 15 if all[i].handles.len() < 4 => {
            event(|| format!("clone m{}", i));
            all[i].handles.push(m.clone());
        }
        16 if all[i].readers.len() > 1 => {
            all[i].readers.pop();
        }
        17 | 18 if all[i].handles.len() > 1 || rng.chance(1, 4) => {
            event(|| format!("drop a handle of m{}", i));
            all[i].handles.swap_remove(k);
            if all[i].handles.is_empty() {
                effects[i] = Effect::Closed;
            }
        }
        _ => {}
    }
    drop(m);
    let o = &all[i];
    if let Some(h) = o.handles.first() {
        same!("get after the operation", h.get(), o.value);
    }
}

// ---------------------------------------------------------------------------

/// Equal when the keys are; the tag tells which one it is. A negative key isn't even equal to itself.
#[derive(Clone, Copy, Debug)]
pub struct Coarse {
    pub key: i64,
    pub tag: u64,
}

impl PartialEq for Coarse {
    fn eq(&self, other: &Coarse) -> bool {
        self.key >= 0 && self.key == other.key
    }
}

/// `set_neq` and the deduplicating adapters, with values whose equality says little
pub fn coarse(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let mut tag = 0;
        let mut gen = |rng: &mut Rng| {
            tag += 1;
            Coarse { key: rng.below(4) as i64 - 1, tag }
        };
        let mut value = gen(rng);
        let m = Mutable::new(value);
        let mut follow = m.signal();
        let mut dedupe = m.signal().dedupe();
        let mut dedupe_cloned = m.signal_cloned().dedupe_cloned();
        let (mut dirty, mut old) = (true, [None::<Coarse>; 2]);
        let mut tasks = [Task::new(), Task::new(), Task::new()];
        for _ in 0..rng.range(5, 60) {
            let new = gen(rng);
            event(|| format!("{:?}", new));
            match rng.below(3) {
                0 => {
                    m.set(new);
                    value = new;
                    dirty = true;
                }
                _ => {
                    m.set_neq(new);
                    if value != new {
                        value = new;
                        dirty = true;
                    }
                }
            }
            count("coarse_operations", 1);
            if m.get().tag != value.tag {
                report(P, format!("the value is {:?} instead of {:?}", m.get(), value));
                return;
            }
            if rng.flip() {
                continue;
            }
            let mut got = [None; 3];
            for (i, g) in got.iter_mut().enumerate() {
                tasks[i].force(rng, |cx| {
                    let p = match i {
                        0 => Pin::new(&mut follow).poll_change(cx),
                        1 => Pin::new(&mut dedupe).poll_change(cx),
                        _ => Pin::new(&mut dedupe_cloned).poll_change(cx),
                    };
                    if let Poll::Ready(x) = &p {
                        *g = *x;
                    }
                    Step::of(&p)
                });
            }
            let expect = if dirty { Some(value) } else { None };
            if got[0].map(|x| x.tag) != expect.map(|x| x.tag) {
                report(P, format!("the signal gave {:?} instead of {:?}", got[0], expect));
            }
            for i in 0..2 {
                let e = expect.filter(|x| old[i].as_ref() != Some(x));
                if got[i + 1].map(|x| x.tag) != e.map(|x| x.tag) {
                    report(&["C12"], format!("dedupe gave {:?} instead of {:?}", got[i + 1], e));
                }
                if e.is_some() {
                    old[i] = e;
                }
            }
            dirty = false;
            if problems() {
                return;
            }
            trace(value.tag);
        }
        case.nontrivial = true;
    })
}
