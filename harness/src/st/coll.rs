//! C17, C26: the reactive collections against the plain ones.

use super::src::{apply_map, apply_vec};
use super::{count, event, problems, report, trace, with_case, Props, Step, Task};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, SignalMap};
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, MutableVecLockRef, SignalVec, VecDiff};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

const P17: Props = &["C17"];
const P26: Props = &["C26"];

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
}

/// A value which isn't Copy, and which counts.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tok(pub i64);

impl Tok {
    pub fn new(x: i64) -> Tok {
        LIVE.with(|l| l.set(l.get() + 1));
        Tok(x)
    }
    pub fn live() -> i64 {
        LIVE.with(|l| l.get())
    }
    pub fn reset() {
        LIVE.with(|l| l.set(0));
        CLONES.with(|c| c.set(0));
    }
    pub fn clones() -> u64 {
        CLONES.with(|c| c.get())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        CLONES.with(|c| c.set(c.get() + 1));
        Tok::new(self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

pub trait Item: Clone + PartialEq + Eq + PartialOrd + Ord + Hash + Debug + Sized + 'static {
    fn make(x: i64) -> Self;
    fn push(l: &mut MutableVecLockMut<Self>, x: Self, rng: &mut Rng);
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, copy: bool);
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, copy: bool);
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>, rng: &mut Rng);
    fn signal(m: &MutableVec<Self>, rng: &mut Rng) -> Pin<Box<dyn SignalVec<Item = Self>>>;
    fn map_insert(l: &mut MutableBTreeMapLockMut<Self, Self>, k: Self, v: Self, rng: &mut Rng) -> Option<Self>;
    fn map_replace(l: &mut MutableBTreeMapLockMut<Self, Self>, m: BTreeMap<Self, Self>, rng: &mut Rng);
    fn map_signal(m: &MutableBTreeMap<Self, Self>, rng: &mut Rng) -> Pin<Box<dyn SignalMap<Key = Self, Value = Self>>>;
}

impl Item for i64 {
    fn make(x: i64) -> i64 {
        x
    }
    fn push(l: &mut MutableVecLockMut<i64>, x: i64, rng: &mut Rng) {
        if rng.flip() {
            l.push(x)
        } else {
            l.push_cloned(x)
        }
    }
    fn insert(l: &mut MutableVecLockMut<i64>, i: usize, x: i64, copy: bool) {
        if copy {
            l.insert(i, x)
        } else {
            l.insert_cloned(i, x)
        }
    }
    fn set(l: &mut MutableVecLockMut<i64>, i: usize, x: i64, copy: bool) {
        if copy {
            l.set(i, x)
        } else {
            l.set_cloned(i, x)
        }
    }
    fn replace(l: &mut MutableVecLockMut<i64>, v: Vec<i64>, rng: &mut Rng) {
        if rng.flip() {
            l.replace(v)
        } else {
            l.replace_cloned(v)
        }
    }
    fn signal(m: &MutableVec<i64>, rng: &mut Rng) -> Pin<Box<dyn SignalVec<Item = i64>>> {
        if rng.flip() {
            Box::pin(m.signal_vec())
        } else {
            Box::pin(m.signal_vec_cloned())
        }
    }
    fn map_insert(l: &mut MutableBTreeMapLockMut<i64, i64>, k: i64, v: i64, rng: &mut Rng) -> Option<i64> {
        if rng.flip() {
            l.insert(k, v)
        } else {
            l.insert_cloned(k, v)
        }
    }
    fn map_replace(l: &mut MutableBTreeMapLockMut<i64, i64>, m: BTreeMap<i64, i64>, rng: &mut Rng) {
        if rng.flip() {
            l.replace(m)
        } else {
            l.replace_cloned(m)
        }
    }
    fn map_signal(m: &MutableBTreeMap<i64, i64>, rng: &mut Rng) -> Pin<Box<dyn SignalMap<Key = i64, Value = i64>>> {
        if rng.flip() {
            Box::pin(m.signal_map())
        } else {
            Box::pin(m.signal_map_cloned())
        }
    }
}

impl Item for Tok {
    fn make(x: i64) -> Tok {
        Tok::new(x)
    }
    fn push(l: &mut MutableVecLockMut<Tok>, x: Tok, _: &mut Rng) {
        l.push_cloned(x)
    }
    fn insert(l: &mut MutableVecLockMut<Tok>, i: usize, x: Tok, _: bool) {
        l.insert_cloned(i, x)
    }
    fn set(l: &mut MutableVecLockMut<Tok>, i: usize, x: Tok, _: bool) {
        l.set_cloned(i, x)
    }
    fn replace(l: &mut MutableVecLockMut<Tok>, v: Vec<Tok>, _: &mut Rng) {
        l.replace_cloned(v)
    }
    fn signal(m: &MutableVec<Tok>, _: &mut Rng) -> Pin<Box<dyn SignalVec<Item = Tok>>> {
        Box::pin(m.signal_vec_cloned())
    }
    fn map_insert(l: &mut MutableBTreeMapLockMut<Tok, Tok>, k: Tok, v: Tok, _: &mut Rng) -> Option<Tok> {
        l.insert_cloned(k, v)
    }
    fn map_replace(l: &mut MutableBTreeMapLockMut<Tok, Tok>, m: BTreeMap<Tok, Tok>, _: &mut Rng) {
        l.replace_cloned(m)
    }
    fn map_signal(m: &MutableBTreeMap<Tok, Tok>, _: &mut Rng) -> Pin<Box<dyn SignalMap<Key = Tok, Value = Tok>>> {
        Box::pin(m.signal_map_cloned())
    }
}

// ---------------------------------------------------------------------------

struct VecListener<T: Item> {
    s: Pin<Box<dyn SignalVec<Item = T>>>,
    task: Task,
    list: Vec<T>,
    /// Follows by `apply_to_vec`
    plain: Vec<T>,
    /// Follows by `apply_vec_diff`
    mirror: Option<MutableVec<T>>,
    id: usize,
}

impl<T: Item> VecListener<T> {
    fn poll(&mut self, rng: &mut Rng, force: bool) -> bool {
        if self.task.ended || !force && !self.task.wants() {
            return false;
        }
        let mut got = None;
        let s = &mut self.s;
        self.task.force(rng, |cx| {
            let p = s.as_mut().poll_vec_change(cx);
            let st = Step::of(&p);
            if let Poll::Ready(Some(d)) = p {
                got = Some(d);
            }
            st
        });
        if let Some(d) = got {
            event(|| format!("  listener {} -> {:?}", self.id, d));
            count(super::out::diff_name(&d), 1);
            if let Err(e) = apply_vec(d.clone(), &mut self.list) {
                report(P17, format!("a listener received an {}", e));
                self.task.ended = true;
                return false;
            }
            if let Some(m) = &self.mirror {
                let mut l = m.lock_mut();
                let d = d.clone();
                if catch_unwind(AssertUnwindSafe(|| MutableVecLockMut::apply_vec_diff(&mut l, d))).is_err() {
                    report(P17, "apply_vec_diff panicked for a valid diff");
                }
                if l.as_slice() != &self.list[..] {
                    report(P17, format!("apply_vec_diff gave {:?} instead of {:?}", &l[..], self.list));
                }
            }
            let plain = &mut self.plain;
            if catch_unwind(AssertUnwindSafe(|| d.apply_to_vec(plain))).is_err() {
                report(P17, "apply_to_vec panicked for a valid diff");
            }
            if self.plain != self.list {
                report(P17, format!("apply_to_vec gave {:?} instead of {:?}", self.plain, self.list));
            }
        }
        true
    }
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn run_vec(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        if seed & 1 == 0 {
            vec_case::<i64>(seed, case)
        } else {
            Tok::reset();
            vec_case::<Tok>(seed, case);
            if Tok::live() != 0 && !problems() {
                report(&["C17", "C09", "C30"], format!("{} values are left after dropping everything", Tok::live()));
            }
        }
    })
}

fn vec_case<T: Item>(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut fresh = 0i64;
    let mut make = |rng: &mut Rng| {
        fresh += 1;
        T::make(if rng.flip() { rng.below(4) as i64 } else { fresh + 10 })
    };
    // Once in a while everything is bigger than what fits into small buffers or simple algorithms
    let large = rng.chance(1, 15);
    let max = if large { *rng.pick(&[40, 150]) } else { *rng.pick(&[3, 6, 12]) };
    let (listeners, batch) = if large { (12, *rng.pick(&[10, 50, 200])) } else { (5, 5) };
    count("large_cases", large as u64);
    let initial: Vec<T> = (0..rng.below(max + 1)).map(|_| make(rng)).collect();
    let mut model = initial.clone();
    let m: MutableVec<T> = match rng.below(4) {
        0 => MutableVec::new_with_values(initial),
        1 => MutableVec::from(initial),
        2 => {
            model.clear();
            match rng.below(3) {
                0 => MutableVec::new(),
                1 => MutableVec::default(),
                _ => MutableVec::with_capacity(5),
            }
        }
        _ => MutableVec::from(initial.as_slice()),
    };
    event(|| format!("vec = {:?}", model));
    let mut handles = vec![m];
    let mut ls: Vec<VecListener<T>> = vec![];
    let mut next_id = 0;
    let rounds = rng.range(2, 10);
    let mut ops = 0;
    for _ in 0..rounds {
        match rng.below(6) {
            0..=2 if ls.len() < listeners => {
                let h = &handles[rng.below(handles.len())];
                event(|| format!("listener {}", next_id));
                ls.push(VecListener {
                    s: T::signal(h, rng),
                    task: Task::new(),
                    list: vec![],
                    plain: vec![],
                    mirror: if rng.flip() { Some(MutableVec::new()) } else { None },
                    id: next_id,
                });
                next_id += 1;
            }
            3 if !ls.is_empty() => {
                let l = ls.swap_remove(rng.below(ls.len()));
                event(|| format!("drop listener {}", l.id));
            }
            4 if handles.len() < 3 => {
                let h = handles[0].clone();
                handles.push(h);
            }
            5 if handles.len() > 1 => {
                handles.swap_remove(rng.below(handles.len()));
            }
            _ => {}
        }
        {
            let h = &handles[rng.below(handles.len())];
            let mut lock = h.lock_mut();
            for _ in 0..rng.below(batch) {
                ops += 1;
                vec_op(rng, &mut lock, &mut model, &mut make, max);
                if lock.as_slice() != &model[..] {
                    report(P17, format!("the vec is {:?} instead of {:?}", &lock[..], model));
                }
                if problems() {
                    return;
                }
            }
        }
        let h = &handles[rng.below(handles.len())];
        read_vec(rng, h, &model);
        for l in ls.iter_mut() {
            let mode = rng.below(4);
            for _ in 0..match mode { 0 => 0, 1 => 1, _ => 100_000 } {
                let force = rng.chance(1, 60);
                if !l.poll(rng, force) && !force {
                    break;
                }
            }
            if mode > 1 && l.list != model {
                report(P17, format!("listener {} rebuilt {:?} instead of {:?}", l.id, l.list, model));
            }
            if l.task.ended {
                report(P17, "a listener ended although a handle is alive");
            }
            if problems() {
                return;
            }
        }
        count("quiescent_points", 1);
        trace(hash(&model));
    }
    drop(handles);
    for l in ls.iter_mut() {
        while l.poll(rng, false) {}
        if l.list != model {
            report(P17, format!("listener {} rebuilt {:?} instead of {:?} at the end", l.id, l.list, model));
        }
        if !l.task.ended {
            report(P17, format!("listener {} did not end after the last handle was dropped", l.id));
        }
    }
    case.nontrivial = ops >= 3;
}

/// Runs both; both must panic, or give the same.
fn both<R: PartialEq + Debug>(what: impl Fn() -> String, a: impl FnOnce() -> R, b: impl FnOnce() -> R, props: Props) {
    event(&what);
    let x = catch_unwind(AssertUnwindSafe(a));
    let y = catch_unwind(AssertUnwindSafe(b));
    match (x, y) {
        (Ok(x), Ok(y)) => {
            if x != y {
                report(props, format!("{} gave {:?} instead of {:?}", what(), x, y));
            }
        }
        (Err(_), Err(_)) => count("expected_panics", 1),
        (Err(_), Ok(_)) => report(props, format!("{} panicked", what())),
        (Ok(_), Err(_)) => report(props, format!("{} did not panic", what())),
    }
}

fn vec_op<T: Item>(rng: &mut Rng, l: &mut MutableVecLockMut<T>, model: &mut Vec<T>, make: &mut impl FnMut(&mut Rng) -> T, max: usize) {
    let len = model.len();
    // mostly valid, sometimes not
    let wild = rng.chance(1, 8);
    let op = rng.below(24);
    trace(op as u64);
    count("operations", 1);
    let at = |rng: &mut Rng, n: usize| if wild { rng.below(len + 3) } else { rng.below(n.max(1)) };
    let full = len >= max;
    match op {
        0..=2 if !full => {
            let x = make(rng);
            event(|| format!("push {:?}", x));
            model.push(x.clone());
            T::push(l, x, rng);
        }
        3..=5 if !full => {
            let (i, x, copy) = (at(rng, len + 1), make(rng), rng.flip());
            let y = x.clone();
            both(|| format!("insert({}) copy={}", i, copy), || T::insert(l, i, x, copy), || model.insert(i, y), P17);
        }
        6..=7 => {
            let (i, x, copy) = (at(rng, len), make(rng), rng.flip());
            let y = x.clone();
            both(|| format!("set({}) copy={}", i, copy), || T::set(l, i, x, copy), || model[i] = y, P17);
        }
        8..=9 => {
            let i = at(rng, len);
            both(|| format!("remove({})", i), || l.remove(i), || model.remove(i), P17);
        }
        10 => both(|| "pop".into(), || l.pop(), || model.pop(), P17),
        11 if rng.chance(1, 3) => {
            event(|| "clear".into());
            l.clear();
            model.clear();
        }
        12..=13 => {
            let (a, b) = (at(rng, len), at(rng, len));
            if a == b && a >= len {
                return; // may be ignored or not
            }
            both(
                || format!("move_from_to({}, {})", a, b),
                || l.move_from_to(a, b),
                || {
                    assert!(a < model.len() && b < model.len());
                    let x = model.remove(a);
                    model.insert(b, x);
                },
                P17,
            );
        }
        14 => {
            let (a, b) = (at(rng, len), at(rng, len));
            if a == b && a >= len {
                return;
            }
            both(|| format!("swap({}, {})", a, b), || l.swap(a, b), || model.swap(a, b), P17);
        }
        15..=16 => {
            let mask = rng.next();
            let (mut i, mut seen) = (0, vec![]);
            event(|| format!("retain {:x}", mask & 0xfff));
            l.retain(|x| {
                seen.push(x.clone());
                i += 1;
                mask >> (i % 60) & 1 == 1
            });
            if seen != *model {
                report(P17, "retain did not call its closure exactly once for each value in order");
            }
            let mut i = 0;
            model.retain(|_| {
                i += 1;
                mask >> (i % 60) & 1 == 1
            });
        }
        17..=18 => {
            let (a, b) = if wild { (rng.below(len + 3), rng.below(len + 3)) } else { let a = rng.below(len + 1); (a, rng.range(a, len)) };
            let range: (Bound<usize>, Bound<usize>) = match rng.below(7) {
                0 => (Bound::Unbounded, Bound::Unbounded),
                1 => (Bound::Unbounded, Bound::Excluded(b)),
                2 => (Bound::Included(a), Bound::Unbounded),
                3 if b > 0 => (Bound::Included(a), Bound::Included(b - 1)),
                4 if a > 0 => (Bound::Excluded(a - 1), Bound::Excluded(b)),
                5 if wild => (Bound::Excluded(usize::MAX), Bound::Unbounded),
                6 if wild => (Bound::Unbounded, Bound::Included(usize::MAX)),
                _ => (Bound::Included(a), Bound::Excluded(b)),
            };
            let (k, back) = (rng.below(4), rng.flip());
            fn take<T>(mut d: std::vec::Drain<T>, k: usize, back: bool) -> Vec<T> {
                let mut r = vec![];
                if k == 3 {
                    r.extend(d);
                } else {
                    for _ in 0..k {
                        r.extend(if back { d.next_back() } else { d.next() });
                    }
                }
                r
            }
            both(|| format!("drain({:?}) taking {}", range, k), || take(l.drain(range), k, back), || take(model.drain(range), k, back), P17);
        }
        19 => {
            let n = rng.below(len + 3);
            event(|| format!("truncate({})", n));
            l.truncate(n);
            model.truncate(n);
        }
        20 => {
            event(|| "reverse".into());
            l.reverse();
            model.reverse();
        }
        21 if !full => {
            let new: Vec<T> = (0..rng.below(max - len + 1)).map(|_| make(rng)).collect();
            event(|| format!("extend {:?}", new));
            model.extend(new.iter().cloned());
            l.extend(new);
        }
        22 => {
            let new: Vec<T> = (0..rng.below(max + 1)).map(|_| make(rng)).collect();
            event(|| format!("replace {:?}", new));
            *model = new.clone();
            T::replace(l, new, rng);
        }
        _ => {
            match rng.below(3) {
                0 => l.reserve(rng.below(10)),
                1 => l.reserve_exact(rng.below(10)),
                _ => l.shrink_to_fit(),
            }
            if l.capacity() < l.len() {
                report(P17, "the capacity is less than the length");
            }
        }
    }
}

fn read_vec<T: Item>(rng: &mut Rng, m: &MutableVec<T>, model: &[T]) {
    let l = m.lock_ref();
    let ok = match rng.below(9) {
        7 => {
            // comparisons of locks
            let mut other = model.to_vec();
            match rng.below(7) {
                0 => drop(other.pop()),
                1 => other.reverse(),
                2 => other.push(T::make(0)),
                3 => other.truncate(rng.below(model.len() + 1)),
                // of another length, and with another order than that
                4 | 5 => {
                    other.rotate_left(rng.below(model.len() + 1));
                    other.truncate(rng.below(model.len() + 1));
                    if rng.flip() {
                        other.insert(rng.below(other.len() + 1), T::make(rng.below(6) as i64));
                    }
                }
                _ => {}
            }
            let o = MutableVec::new_with_values(other.clone());
            let locks = {
                let (o1, o2) = (MutableVec::new_with_values(other.clone()), MutableVec::new_with_values(model.to_vec()));
                let (x, y) = (o1.lock_mut(), o2.lock_mut());
                x.cmp(&y) == other[..].cmp(model) && y.partial_cmp(&x) == model.partial_cmp(&other[..]) && (x == y) == (other == model)
            };
            let (lr, same) = (o.lock_ref(), other.as_slice() == model);
            locks && (l == lr) == same && (l != lr) != same && l.partial_cmp(&lr) == model.partial_cmp(&other[..]) && l.cmp(&lr) == model.cmp(&other[..]) && (l == &other[..]) == same && (l != &other[..]) != same
        }
        8 => {
            let o = MutableVec::new_with_values(model.iter().rev().cloned().collect());
            let lm = o.lock_mut();
            let rev: Vec<T> = model.iter().rev().cloned().collect();
            *Borrow::<[T]>::borrow(&l) == *model && *Borrow::<[T]>::borrow(&lm) == rev[..] && hash(&lm) == hash(&rev) && *AsRef::<[T]>::as_ref(&lm) == rev[..] && lm == &rev[..] && (lm != model) == (rev != model) && *lm.as_slice() == rev[..] && lm.capacity() >= lm.len()
        }
        0 => l.len() == model.len() && l.is_empty() == model.is_empty(),
        1 => l.iter().eq(model.iter()),
        2 => {
            let (a, b) = (rng.below(model.len() + 1), rng.below(model.len() + 1));
            a > b || l[a..b] == model[a..b]
        }
        3 => l == model && *AsRef::<[T]>::as_ref(&l) == *model && AsRef::<MutableVecLockRef<T>>::as_ref(&l)[..] == *model,
        4 => hash(&l) == hash(&model.to_vec()),
        5 => {
            let fmt = format!("{:?}", m);
            fmt == format!("MutableVec({:?})", model)
        }
        _ => l.first() == model.first() && l.last() == model.last() && l.get(1) == model.get(1),
    };
    if !ok {
        report(P17, format!("reading the vec gave something else than {:?}", model));
    }
}

// ---------------------------------------------------------------------------

struct MapListener<T: Item> {
    s: Pin<Box<dyn SignalMap<Key = T, Value = T>>>,
    task: Task,
    map: BTreeMap<T, T>,
    id: usize,
}

impl<T: Item> MapListener<T> {
    fn poll(&mut self, rng: &mut Rng, force: bool) -> bool {
        if self.task.ended || !force && !self.task.wants() {
            return false;
        }
        let mut got = None;
        let s = &mut self.s;
        self.task.force(rng, |cx| {
            let p = s.as_mut().poll_map_change(cx);
            let st = Step::of(&p);
            if let Poll::Ready(Some(d)) = p {
                got = Some(d);
            }
            st
        });
        if let Some(d) = got {
            event(|| format!("  listener {} -> {:?}", self.id, d));
            count(
                match &d {
                    MapDiff::Replace { .. } => "diff_replace",
                    MapDiff::Insert { .. } => "diff_insert",
                    MapDiff::Update { .. } => "diff_update",
                    MapDiff::Remove { .. } => "diff_remove",
                    MapDiff::Clear {} => "diff_clear",
                },
                1,
            );
            if let Err(e) = apply_map(d, &mut self.map) {
                report(P26, format!("a listener received an invalid diff: {}", e));
                self.task.ended = true;
                return false;
            }
        }
        true
    }
}

pub fn run_map(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        if seed & 1 == 0 {
            map_case::<i64>(seed, case)
        } else {
            Tok::reset();
            map_case::<Tok>(seed, case);
            if Tok::live() != 0 && !problems() {
                report(&["C26", "C09", "C30"], format!("{} values are left after dropping everything", Tok::live()));
            }
        }
    })
}

fn map_case<T: Item>(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let large = rng.chance(1, 15);
    let keys = if large { *rng.pick(&[40, 150]) } else { *rng.pick(&[2i64, 4, 9]) };
    let (listeners, batch) = if large { (12, *rng.pick(&[10, 50, 200])) } else { (5, 5) };
    count("large_cases", large as u64);
    let mut fresh = 0;
    let mut make = move |rng: &mut Rng| {
        fresh += 1;
        T::make(if rng.flip() { rng.below(4) as i64 } else { fresh + 10 })
    };
    let mut gen_map = {
        let mut make = make.clone();
        move |rng: &mut Rng| {
            let mut m = BTreeMap::new();
            for k in 0..keys {
                if rng.flip() {
                    m.insert(T::make(k), make(rng));
                }
            }
            m
        }
    };
    let initial = if rng.flip() { gen_map(rng) } else { BTreeMap::new() };
    let mut model = initial.clone();
    let m: MutableBTreeMap<T, T> = match rng.below(4) {
        0 => MutableBTreeMap::with_values(initial),
        1 => MutableBTreeMap::from(initial),
        2 => {
            model.clear();
            MutableBTreeMap::new()
        }
        _ => {
            model.clear();
            MutableBTreeMap::default()
        }
    };
    event(|| format!("map = {:?}", model));
    let mut handles = vec![m];
    let mut ls: Vec<MapListener<T>> = vec![];
    let mut next_id = 0;
    let rounds = rng.range(2, 10);
    let mut ops = 0;
    for _ in 0..rounds {
        match rng.below(6) {
            0..=2 if ls.len() < listeners => {
                let h = &handles[rng.below(handles.len())];
                event(|| format!("listener {}", next_id));
                ls.push(MapListener { s: T::map_signal(h, rng), task: Task::new(), map: BTreeMap::new(), id: next_id });
                next_id += 1;
            }
            3 if !ls.is_empty() => {
                let l = ls.swap_remove(rng.below(ls.len()));
                event(|| format!("drop listener {}", l.id));
            }
            4 if handles.len() < 3 => {
                let h = handles[0].clone();
                handles.push(h);
            }
            5 if handles.len() > 1 => {
                handles.swap_remove(rng.below(handles.len()));
            }
            _ => {}
        }
        {
            let h = &handles[rng.below(handles.len())];
            let mut l = h.lock_mut();
            for _ in 0..rng.below(batch) {
                ops += 1;
                let k = T::make(rng.below(keys as usize) as i64);
                let op = rng.below(12);
                trace(op as u64);
                count("operations", 1);
                match op {
                    0..=5 => {
                        let v = make(rng);
                        let (k2, v2) = (k.clone(), v.clone());
                        both(|| format!("insert({:?}, {:?})", k, v), || T::map_insert(&mut l, k2, v2, rng), || model.insert(k.clone(), v.clone()), P26);
                    }
                    6..=9 => both(|| format!("remove({:?})", k), || l.remove(&k), || model.remove(&k), P26),
                    10 => {
                        event(|| "clear".into());
                        l.clear();
                        model.clear();
                    }
                    _ => {
                        let new = gen_map(rng);
                        event(|| format!("replace {:?}", new));
                        model = new.clone();
                        T::map_replace(&mut l, new, rng);
                    }
                }
                if *l != model {
                    report(P26, format!("the map is {:?} instead of {:?}", *l, model));
                }
                if problems() {
                    return;
                }
            }
        }
        {
            let h = &handles[rng.below(handles.len())];
            let l = h.lock_ref();
            let k = T::make(rng.below(keys as usize + 1) as i64);
            let ok = match rng.below(7) {
                6 => {
                    // comparisons of locks
                    let mut other = model.clone();
                    match rng.below(4) {
                        0 => drop(other.remove(&k)),
                        1 => drop(other.insert(k.clone(), T::make(0))),
                        _ => {}
                    }
                    let o = MutableBTreeMap::with_values(other.clone());
                    let same = other == model;
                    let ok = {
                        let lr = o.lock_ref();
                        (l == lr) == same && (l != lr) != same && (l == other) == same && (l != other) != same && l.partial_cmp(&other) == model.partial_cmp(&other) && l.partial_cmp(&lr) == model.partial_cmp(&other) && l.cmp(&lr) == model.cmp(&other)
                    };
                    let lm = o.lock_mut();
                    ok && lm == other && (lm != model) != same && hash(&lm) == hash(&other)
                }
                0 => l.len() == model.len() && l.is_empty() == model.is_empty(),
                1 => l.iter().eq(model.iter()),
                2 => l.get(&k) == model.get(&k) && l.contains_key(&k) == model.contains_key(&k),
                3 => {
                    both(|| format!("index {:?}", k), || l[&k].clone(), || model[&k].clone(), P26);
                    hash(&l) == hash(&model)
                }
                4 => format!("{:?}", h) == format!("MutableBTreeMap({:?})", model),
                _ => l.keys().eq(model.keys()) && l.range(k.clone()..).eq(model.range(k.clone()..)),
            };
            if !ok {
                report(P26, format!("reading the map gave something else than {:?}", model));
            }
        }
        for l in ls.iter_mut() {
            let mode = rng.below(4);
            for _ in 0..match mode { 0 => 0, 1 => 1, _ => 100_000 } {
                let force = rng.chance(1, 60);
                if !l.poll(rng, force) && !force {
                    break;
                }
            }
            if mode > 1 && l.map != model {
                report(P26, format!("listener {} rebuilt {:?} instead of {:?}", l.id, l.map, model));
            }
            if l.task.ended {
                report(P26, "a listener ended although a handle is alive");
            }
            if problems() {
                return;
            }
        }
        count("quiescent_points", 1);
        trace(hash(&model));
    }
    drop(handles);
    for l in ls.iter_mut() {
        while l.poll(rng, false) {}
        if l.map != model {
            report(P26, format!("listener {} rebuilt {:?} instead of {:?} at the end", l.id, l.map, model));
        }
        if !l.task.ended {
            report(P26, format!("listener {} did not end after the last handle was dropped", l.id));
        }
    }
    case.nontrivial = ops >= 3;
}
