//! Long histories of the collections: many changes which a listener hasn't polled yet, many listeners
//! and many handles.

use super::long::many;
use super::src::{apply_map, apply_vec};
use super::{count, event, problems, report, trace, with_case, Props, Step, Task};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal_map::{MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::{Context, Poll};

const VEC: Props = &["C17", "C28"];
const MAP: Props = &["C26", "C28"];
const LIST: Props = &["C27", "C28"];

enum Follower {
    /// What it should have: the list, filtered if `.2`
    Vec(Pin<Box<dyn SignalVec<Item = i64>>>, Vec<i64>, bool),
    Map(Pin<Box<dyn SignalMap<Key = i64, Value = i64>>>, BTreeMap<i64, i64>),
    Keys(Pin<Box<dyn SignalVec<Item = i64>>>, Vec<i64>),
    Entries(Pin<Box<dyn SignalVec<Item = (i64, i64)>>>, Vec<(i64, i64)>),
}

fn kept(x: &i64) -> bool {
    x % 3 != 0
}

fn vec_step<T>(s: &mut Pin<Box<dyn SignalVec<Item = T>>>, list: &mut Vec<T>, cx: &mut Context, bad: &mut Option<String>) -> Step {
    let p = s.as_mut().poll_vec_change(cx);
    let step = Step::of(&p);
    if let Poll::Ready(Some(d)) = p {
        if let Err(e) = apply_vec(d, list) {
            *bad = Some(e);
        }
    }
    step
}

impl Follower {
    fn step(&mut self, cx: &mut Context, bad: &mut Option<String>) -> Step {
        match self {
            Follower::Vec(s, l, _) | Follower::Keys(s, l) => vec_step(s, l, cx, bad),
            Follower::Entries(s, l) => vec_step(s, l, cx, bad),
            Follower::Map(s, m) => {
                let p = s.as_mut().poll_map_change(cx);
                let step = Step::of(&p);
                if let Poll::Ready(Some(d)) = p {
                    if let Err(e) = apply_map(d, m) {
                        *bad = Some(e);
                    }
                }
                step
            }
        }
    }

    fn props(&self) -> Props {
        match self {
            Follower::Vec(..) => VEC,
            Follower::Map(..) => MAP,
            _ => LIST,
        }
    }

    fn equals(&self, v: &[i64], m: &BTreeMap<i64, i64>) -> bool {
        match self {
            Follower::Vec(_, l, false) => l == v,
            Follower::Vec(_, l, true) => l.iter().eq(v.iter().filter(|x| kept(x))),
            Follower::Map(_, r) => r == m,
            Follower::Keys(_, l) => l.iter().eq(m.keys()),
            Follower::Entries(_, l) => l.iter().map(|(k, v)| (k, v)).eq(m.iter()),
        }
    }
}

struct Listener {
    f: Follower,
    task: Task,
    /// Diffs which it may have to receive
    backlog: usize,
}

impl Listener {
    fn follow(&mut self, rng: &mut Rng, v: &[i64], m: &BTreeMap<i64, i64>, ended: bool) {
        let props = self.f.props();
        if self.task.ended {
            return;
        }
        let mut bad = None;
        let mut polls = self.backlog + 20;
        while self.task.wants() && bad.is_none() {
            if polls == 0 {
                report(props, format!("a listener is still not done after {} changes were received", self.task.items));
                return;
            }
            polls -= 1;
            let f = &mut self.f;
            self.task.force(rng, |cx| f.step(cx, &mut bad));
        }
        self.backlog = 0;
        if let Some(e) = bad {
            report(props, e);
        } else if !self.f.equals(v, m) {
            report(props, format!("a listener {} without having the contents, after {} diffs", if self.task.ended { "ended" } else { "is asleep" }, self.task.items));
        } else if self.task.ended != ended {
            report(props, if ended { "a listener did not end" } else { "a listener ended too early" });
        }
    }
}

/// 0: MutableVec, 1: MutableBTreeMap
pub fn run(which: usize) -> impl Fn(u64, &mut Case) + Sync + 'static {
    move |seed, case| with_case(case, |case| run_case(which, seed, case))
}

fn run_case(which: usize, seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut model = vec![];
    let mut map = BTreeMap::new();
    let mut vs = vec![MutableVec::<i64>::new()];
    let mut ms = vec![MutableBTreeMap::<i64, i64>::new()];
    let mut ls: Vec<Listener> = vec![];
    let blocks = rng.range(2, 7);
    let rare = 250 * blocks as u64;
    let limit = if rng.chance(1, 4) { many(rng, 1_000_000) } else { rng.range(1, 4) };
    let size = if rng.chance(1, 3) { rng.range(20, 300) } else { rng.range(2, 8) };
    let mut total = 0;
    let mut next = 0;
    for _ in 0..blocks {
        let n = rng.below(limit + 1);
        while ls.len() > n {
            ls.swap_remove(rng.below(ls.len()));
        }
        while ls.len() < n {
            let v = &vs[rng.below(vs.len())];
            let m = &ms[rng.below(ms.len())];
            let f = if which == 0 {
                match rng.below(4) {
                    0 => Follower::Vec(Box::pin(v.signal_vec()), vec![], false),
                    1 => Follower::Vec(Box::pin(v.signal_vec_cloned()), vec![], false),
                    2 => Follower::Vec(Box::pin(v.signal_vec().map(|x| x)), vec![], false),
                    _ => Follower::Vec(Box::pin(v.signal_vec_cloned().filter(kept)), vec![], true),
                }
            } else {
                match rng.below(5) {
                    0 => Follower::Map(Box::pin(m.signal_map()), BTreeMap::new()),
                    1 => Follower::Map(Box::pin(m.signal_map_cloned()), BTreeMap::new()),
                    2 => Follower::Map(Box::pin(m.signal_map().map_value(|x| x)), BTreeMap::new()),
                    3 => Follower::Keys(Box::pin(m.signal_vec_keys()), vec![]),
                    _ => Follower::Entries(Box::pin(m.entries_cloned()), vec![]),
                }
            };
            ls.push(Listener { f, task: Task::new(), backlog: 0 });
        }
        let h = if rng.flip() { many(rng, rare).min(300) } else { 1 };
        while vs.len() > h {
            vs.swap_remove(rng.below(vs.len()));
            ms.swap_remove(rng.below(ms.len()));
        }
        while vs.len() < h {
            let (x, y) = (vs[rng.below(vs.len())].clone(), ms[rng.below(ms.len())].clone());
            vs.push(x);
            ms.push(y);
        }
        // With many listeners and items these are expensive
        let mut changes = if rng.chance(1, 6) { 0 } else { many(rng, rare) };
        while changes > 1000 && changes * ls.len() > 400_000 {
            changes /= 2;
        }
        let follow = rng.below(ls.len().min(3) + 1);
        let every = if rng.flip() { 1 } else { rng.range(1, 9) };
        event(|| format!("{} listeners, {} handles, {} changes, {} follow every {}", ls.len(), h, changes, follow, every));
        count("operations", changes as u64);
        trace((changes * 1000 + ls.len()) as u64);
        for i in 0..changes {
            next += 1;
            let mut diffs = 1;
            if which == 0 {
                let mut l = vs[i % vs.len()].lock_mut();
                let n = model.len();
                match rng.below(if n >= size { 14 } else { 9 }) {
                    _ if n == 0 => {
                        l.push(next);
                        model.push(next);
                    }
                    0..=2 => {
                        l.push(next);
                        model.push(next);
                    }
                    3 => {
                        let x = rng.below(n + 1);
                        l.insert_cloned(x, next);
                        model.insert(x, next);
                    }
                    4 | 5 => {
                        let x = rng.below(n);
                        l.set(x, next);
                        model[x] = next;
                    }
                    6 | 7 => {
                        let (x, y) = (rng.below(n), rng.below(n));
                        l.move_from_to(x, y);
                        let z = model.remove(x);
                        model.insert(y, z);
                    }
                    8 if rng.chance(1, 30) => {
                        let values: Vec<i64> = (0..rng.below(size + 1) as i64).map(|x| x + next).collect();
                        l.replace(values.clone());
                        model = values;
                    }
                    9 if rng.chance(1, 5) => {
                        let x = rng.below(n + 1);
                        diffs = n - x + 1;
                        l.truncate(x);
                        model.truncate(x);
                    }
                    10 | 11 => {
                        l.pop();
                        model.pop();
                    }
                    _ => {
                        let x = rng.below(n);
                        l.remove(x);
                        model.remove(x);
                    }
                }
            } else {
                let mut l = ms[i % ms.len()].lock_mut();
                let k = rng.below(size) as i64;
                match rng.below(8) {
                    0..=2 => {
                        l.insert(k, next);
                        map.insert(k, next);
                    }
                    3 | 4 => {
                        l.insert_cloned(k, next);
                        map.insert(k, next);
                    }
                    5 if rng.chance(1, 30) => {
                        let values: BTreeMap<i64, i64> = (0..rng.below(size + 1) as i64).map(|x| (x, next)).collect();
                        l.replace(values.clone());
                        map = values;
                    }
                    6 if rng.chance(1, 40) => {
                        l.clear();
                        map.clear();
                    }
                    _ => {
                        l.remove(&k);
                        map.remove(&k);
                    }
                }
            }
            total += 1;
            for l in &mut ls {
                l.backlog += diffs;
            }
            if i % every == 0 {
                for l in &mut ls[..follow] {
                    l.follow(rng, &model, &map, false);
                }
            }
            if problems() {
                return;
            }
        }
        let all = rng.chance(1, 2);
        for l in &mut ls {
            if all || rng.flip() {
                l.follow(rng, &model, &map, false);
            }
        }
        count("quiescent_points", 1);
        if problems() {
            return;
        }
    }
    drop(vs);
    drop(ms);
    for l in &mut ls {
        l.follow(rng, &model, &map, true);
    }
    count("quiescent_points", 1);
    case.nontrivial = total >= 3;
}
