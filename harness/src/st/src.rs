//! Sources: scripted ones which are strict about the poll protocol, and the crate's own.

use super::{count, event, report, trace, ChaosRef, PROTOCOL};
use crate::rng::Rng;
use futures_signals::signal::{always, channel, Broadcaster, Mutable, Sender, Signal, SignalExt};
use futures_signals::signal_map::{always as map_always, MapDiff, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{always as vec_always, MutableVec, SignalVec, SignalVecExt, VecDiff};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub type SigI = Pin<Box<dyn Signal<Item = i64>>>;
pub type VecI = Pin<Box<dyn SignalVec<Item = i64>>>;
pub type MapI = Pin<Box<dyn SignalMap<Key = i64, Value = i64>>>;

/// One subscription to a scripted source: a queue of things to deliver.
pub struct Sub<D> {
    queue: RefCell<VecDeque<D>>,
    ended: Cell<bool>,
    finished: Cell<bool>,
    waker: RefCell<Option<Waker>>,
    live: Rc<Cell<i64>>,
    chaos: ChaosRef,
    name: &'static str,
}

impl<D> Sub<D> {
    pub fn new(name: &'static str, initial: VecDeque<D>, ended: bool, live: &Rc<Cell<i64>>, chaos: &ChaosRef) -> Rc<Self> {
        live.set(live.get() + 1);
        Rc::new(Sub {
            queue: RefCell::new(initial),
            ended: Cell::new(ended),
            finished: Cell::new(false),
            waker: RefCell::new(None),
            live: live.clone(),
            chaos: chaos.clone(),
            name,
        })
    }

    pub fn poll(&self, cx: &mut Context) -> Poll<Option<D>> {
        if self.finished.get() {
            report(PROTOCOL, format!("{} was polled after it reported its end", self.name));
            return Poll::Ready(None);
        }
        self.chaos.point();
        count("source_polls", 1);
        let item = self.queue.borrow_mut().pop_front();
        let r = if let Some(v) = item {
            count("source_deliveries", 1);
            Poll::Ready(Some(v))
        } else if self.ended.get() {
            self.finished.set(true);
            self.waker.borrow_mut().take();
            Poll::Ready(None)
        } else {
            *self.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        };
        self.chaos.point();
        r
    }

    pub fn push(&self, v: D, latest_only: bool) {
        if self.finished.get() || self.ended.get() {
            return;
        }
        {
            let mut q = self.queue.borrow_mut();
            if latest_only {
                q.clear();
            }
            q.push_back(v);
        }
        self.wake();
    }

    pub fn end(&self) {
        self.ended.set(true);
        self.wake();
    }

    pub fn wake(&self) {
        let w = self.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// The consumer's side of a subscription; dropping it unsubscribes.
pub struct SubHandle<D>(pub Rc<Sub<D>>);

impl<D> Drop for SubHandle<D> {
    fn drop(&mut self) {
        self.0.finished.set(true);
        self.0.waker.borrow_mut().take();
        self.0.queue.borrow_mut().clear();
        self.0.live.set(self.0.live.get() - 1);
    }
}

impl<T> Signal for SubHandle<T>
where
    T: SigItem,
{
    type Item = T;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.poll(cx)
    }
}

/// Distinguishes values from diffs.
pub trait SigItem {}
impl SigItem for i64 {}
impl SigItem for bool {}

impl<T> SignalVec for SubHandle<VecDiff<T>> {
    type Item = T;
    fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.0.poll(cx)
    }
}

impl<K, V> SignalMap for SubHandle<MapDiff<K, V>> {
    type Key = K;
    type Value = V;
    fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> {
        self.0.poll(cx)
    }
}

impl<T> futures_core::Stream for SubHandle<T>
where
    T: SigItem,
{
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.poll(cx)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CellKind {
    Latest,
    Queue,
    Mutable,
    MutableCloned,
    MutableRef,
    Broadcast,
    Channel,
    ReadOnly,
}

pub struct CellSrc {
    pub kind: CellKind,
    pub value: Cell<i64>,
    pub ended: Cell<bool>,
    subs: RefCell<Vec<Rc<Sub<i64>>>>,
    pub live: Rc<Cell<i64>>,
    real: RefCell<Option<Mutable<i64>>>,
    bc: RefCell<Option<Broadcaster<SigI>>>,
    sender: RefCell<Option<Sender<i64>>>,
    chaos: ChaosRef,
    id: usize,
}

impl CellSrc {
    pub fn new(id: usize, kind: CellKind, value: i64, chaos: &ChaosRef) -> Rc<Self> {
        let s = Rc::new(CellSrc {
            kind,
            value: Cell::new(value),
            ended: Cell::new(false),
            subs: RefCell::new(vec![]),
            live: Rc::new(Cell::new(0)),
            real: RefCell::new(None),
            bc: RefCell::new(None),
            sender: RefCell::new(None),
            chaos: chaos.clone(),
            id,
        });
        match kind {
            CellKind::Mutable | CellKind::MutableCloned | CellKind::MutableRef | CellKind::ReadOnly => {
                *s.real.borrow_mut() = Some(Mutable::new(value));
            }
            CellKind::Broadcast => {
                let inner = s.scripted();
                *s.bc.borrow_mut() = Some(Broadcaster::new(Box::pin(inner) as SigI));
            }
            CellKind::Channel => {
                let (tx, rx) = channel(value);
                *s.sender.borrow_mut() = Some(tx);
                *s.bc.borrow_mut() = Some(rx.boxed_local().broadcast());
            }
            _ => {}
        }
        event(|| format!("cell {} = {:?}({})", id, kind, value));
        s
    }

    fn scripted(&self) -> SubHandle<i64> {
        let sub = Sub::new("a signal", VecDeque::from([self.value.get()]), self.ended.get(), &self.live, &self.chaos);
        self.subs.borrow_mut().push(sub.clone());
        SubHandle(sub)
    }

    /// Number of the live subscriptions which can be observed
    pub fn live(&self) -> Option<i64> {
        match self.kind {
            CellKind::Latest | CellKind::Queue => Some(self.live.get()),
            _ => None,
        }
    }

    pub fn sub(&self) -> SigI {
        match self.kind {
            CellKind::Latest | CellKind::Queue => Box::pin(self.scripted()),
            CellKind::Broadcast | CellKind::Channel => {
                let b = self.bc.borrow();
                let b = b.as_ref().unwrap();
                if self.value.get() & 1 == 0 {
                    Box::pin(b.signal())
                } else {
                    Box::pin(b.signal_ref(|x| *x))
                }
            }
            _ => match self.real.borrow().as_ref() {
                Some(m) => match self.kind {
                    CellKind::Mutable => Box::pin(m.signal()),
                    CellKind::MutableCloned => Box::pin(m.signal_cloned()),
                    CellKind::MutableRef => Box::pin(m.signal_ref(|x| *x)),
                    _ => Box::pin(m.read_only().signal()),
                },
                None => Box::pin(always(self.value.get())),
            },
        }
    }

    pub fn set(&self, v: i64, rng: &mut Rng) {
        if self.ended.get() {
            return;
        }
        event(|| format!("set cell {} = {}", self.id, v));
        trace(v as u64 ^ ((self.id as u64) << 32));
        count("source_changes", 1);
        self.value.set(v);
        let subs = self.subs.borrow().clone();
        for s in subs {
            s.push(v, self.kind != CellKind::Queue);
        }
        self.subs.borrow_mut().retain(|s| !s.finished.get());
        let real = self.real.borrow().clone();
        if let Some(m) = real {
            match rng.below(5) {
                0 => m.set(v),
                1 => {
                    m.replace(v);
                }
                2 => *m.lock_mut() = v,
                3 => m.set_neq(v),
                _ => {
                    m.replace_with(|_| v);
                }
            }
        }
        if let Some(s) = self.sender.borrow().as_ref() {
            if s.send(v).is_err() {
                report(&["C06"], "sending failed although the receiver is alive");
            }
        }
    }

    pub fn end(&self) {
        if self.ended.replace(true) {
            return;
        }
        event(|| format!("end cell {}", self.id));
        trace(0xe0d ^ self.id as u64);
        count("source_ends", 1);
        let subs = std::mem::take(&mut *self.subs.borrow_mut());
        for s in subs {
            s.end();
        }
        let real = self.real.borrow_mut().take();
        drop(real);
        let sender = self.sender.borrow_mut().take();
        drop(sender);
    }
}

// ---------------------------------------------------------------------------

pub struct VecSrc {
    pub values: RefCell<Vec<i64>>,
    pub ended: Cell<bool>,
    subs: RefCell<Vec<Rc<Sub<VecDiff<i64>>>>>,
    pub live: Rc<Cell<i64>>,
    real: RefCell<Option<MutableVec<i64>>>,
    is_real: bool,
    chaos: ChaosRef,
    id: usize,
    rng: RefCell<Rng>,
    max_len: usize,
}

impl VecSrc {
    pub fn new(id: usize, is_real: bool, values: Vec<i64>, max_len: usize, rng: Rng, chaos: &ChaosRef) -> Rc<Self> {
        event(|| format!("vec {} = {:?} real={}", id, values, is_real));
        Rc::new(VecSrc {
            real: RefCell::new(if is_real { Some(MutableVec::new_with_values(values.clone())) } else { None }),
            values: RefCell::new(values),
            ended: Cell::new(false),
            subs: RefCell::new(vec![]),
            live: Rc::new(Cell::new(0)),
            is_real,
            chaos: chaos.clone(),
            id,
            rng: RefCell::new(rng),
            max_len,
        })
    }

    pub fn live(&self) -> Option<i64> {
        if self.is_real {
            None
        } else {
            Some(self.live.get())
        }
    }

    pub fn scripted(&self) -> SubHandle<VecDiff<i64>> {
        let mut q = VecDeque::new();
        let values = self.values.borrow().clone();
        let mut rng = self.rng.borrow_mut();
        match rng.below(4) {
            0 => q.push_back(VecDiff::Replace { values }),
            1 => q.extend(values.into_iter().map(|value| VecDiff::Push { value })),
            2 => {
                let k = rng.below(values.len() + 1);
                q.push_back(VecDiff::Replace { values: values[..k].to_vec() });
                q.extend(values[k..].iter().map(|value| VecDiff::Push { value: *value }));
            }
            _ => {
                if !values.is_empty() {
                    q.push_back(VecDiff::Replace { values });
                }
            }
        }
        let sub = Sub::new("a signal vec", q, self.ended.get(), &self.live, &self.chaos);
        self.subs.borrow_mut().push(sub.clone());
        SubHandle(sub)
    }

    pub fn sub(&self) -> VecI {
        if self.is_real {
            match self.real.borrow().as_ref() {
                Some(v) => {
                    if self.rng.borrow_mut().flip() {
                        Box::pin(v.signal_vec())
                    } else {
                        Box::pin(v.signal_vec_cloned())
                    }
                }
                None => Box::pin(vec_always(self.values.borrow().clone())),
            }
        } else {
            Box::pin(self.scripted())
        }
    }

    fn gen_diff(&self, rng: &mut Rng, vals: &mut dyn FnMut(&mut Rng) -> i64) -> VecDiff<i64> {
        let len = self.values.borrow().len();
        loop {
            match rng.below(20) {
                0 | 1 => {
                    let n = rng.below(self.max_len + 1);
                    return VecDiff::Replace { values: (0..n).map(|_| vals(rng)).collect() };
                }
                2..=5 if len < self.max_len => return VecDiff::InsertAt { index: rng.below(len + 1), value: vals(rng) },
                6..=8 if len > 0 => return VecDiff::UpdateAt { index: rng.below(len), value: vals(rng) },
                9..=11 if len > 0 => return VecDiff::RemoveAt { index: rng.below(len) },
                12..=14 if len > 0 => return VecDiff::Move { old_index: rng.below(len), new_index: rng.below(len) },
                15..=16 if len < self.max_len => return VecDiff::Push { value: vals(rng) },
                17..=18 if len > 0 => return VecDiff::Pop {},
                19 if rng.chance(1, 2) => return VecDiff::Clear {},
                _ => {}
            }
        }
    }

    pub fn mutate(&self, rng: &mut Rng, vals: &mut dyn FnMut(&mut Rng) -> i64) {
        if self.ended.get() {
            return;
        }
        count("source_changes", 1);
        if self.is_real {
            let v = self.real.borrow().clone();
            if let Some(v) = v {
                let mut l = v.lock_mut();
                let len = l.len();
                match rng.below(10) {
                    0 => {
                        let m = rng.range(1, 3) as i64;
                        event(|| format!("vec {} retain %{}", self.id, m + 1));
                        l.retain(|x| x % (m + 1) != 0);
                    }
                    1 => {
                        let a = rng.below(len + 1);
                        let b = rng.range(a, len);
                        event(|| format!("vec {} drain {}..{}", self.id, a, b));
                        drop(l.drain(a..b));
                    }
                    2 => {
                        let n = rng.below(len + 2);
                        event(|| format!("vec {} truncate {}", self.id, n));
                        l.truncate(n);
                    }
                    3 if len < self.max_len => {
                        let n = rng.below(self.max_len - len + 1);
                        let new: Vec<i64> = (0..n).map(|_| vals(rng)).collect();
                        event(|| format!("vec {} extend {:?}", self.id, new));
                        l.extend(new);
                    }
                    4 if len > 1 => {
                        let (a, b) = (rng.below(len), rng.below(len));
                        event(|| format!("vec {} swap {} {}", self.id, a, b));
                        l.swap(a, b);
                    }
                    5 => {
                        event(|| format!("vec {} reverse", self.id));
                        l.reverse();
                    }
                    _ => {
                        let d = self.gen_diff(rng, vals);
                        event(|| format!("vec {} {:?}", self.id, d));
                        futures_signals::signal_vec::MutableVecLockMut::apply_vec_diff(&mut l, d);
                    }
                }
                *self.values.borrow_mut() = l.to_vec();
                trace(l.iter().fold(self.id as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
            }
        } else {
            let d = self.gen_diff(rng, vals);
            self.push(d);
        }
    }

    pub fn push(&self, d: VecDiff<i64>) {
        event(|| format!("vec {} {:?}", self.id, d));
        d.clone().apply_to_vec(&mut self.values.borrow_mut());
        trace(self.values.borrow().iter().fold(self.id as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
        let subs = self.subs.borrow().clone();
        for s in subs {
            s.push(d.clone(), false);
        }
        self.subs.borrow_mut().retain(|s| !s.finished.get());
    }

    pub fn end(&self) {
        if self.ended.replace(true) {
            return;
        }
        event(|| format!("end vec {}", self.id));
        trace(0xe0d2 ^ self.id as u64);
        count("source_ends", 1);
        let subs = std::mem::take(&mut *self.subs.borrow_mut());
        for s in subs {
            s.end();
        }
        let real = self.real.borrow_mut().take();
        drop(real);
    }
}

// ---------------------------------------------------------------------------

pub struct MapSrc {
    pub values: RefCell<BTreeMap<i64, i64>>,
    pub ended: Cell<bool>,
    subs: RefCell<Vec<Rc<Sub<MapDiff<i64, i64>>>>>,
    pub live: Rc<Cell<i64>>,
    real: RefCell<Option<MutableBTreeMap<i64, i64>>>,
    pub is_real: bool,
    chaos: ChaosRef,
    id: usize,
    rng: RefCell<Rng>,
    keys: i64,
}

pub const KEYS: i64 = 5;

impl MapSrc {
    pub fn new(id: usize, is_real: bool, values: BTreeMap<i64, i64>, keys: i64, rng: Rng, chaos: &ChaosRef) -> Rc<Self> {
        event(|| format!("map {} = {:?} real={}", id, values, is_real));
        Rc::new(MapSrc {
            real: RefCell::new(if is_real { Some(MutableBTreeMap::with_values(values.clone())) } else { None }),
            values: RefCell::new(values),
            ended: Cell::new(false),
            subs: RefCell::new(vec![]),
            live: Rc::new(Cell::new(0)),
            is_real,
            chaos: chaos.clone(),
            id,
            rng: RefCell::new(rng),
            keys,
        })
    }

    pub fn live(&self) -> Option<i64> {
        if self.is_real {
            None
        } else {
            Some(self.live.get())
        }
    }

    pub fn sub(&self) -> MapI {
        if self.is_real {
            match self.real.borrow().as_ref() {
                Some(v) => {
                    if self.rng.borrow_mut().flip() {
                        Box::pin(v.signal_map())
                    } else {
                        Box::pin(v.signal_map_cloned())
                    }
                }
                None => Box::pin(map_always(self.values.borrow().clone())),
            }
        } else {
            let mut q = VecDeque::new();
            let entries: Vec<(i64, i64)> = self.values.borrow().iter().map(|(a, b)| (*a, *b)).collect();
            let mut rng = self.rng.borrow_mut();
            match rng.below(3) {
                0 => q.push_back(MapDiff::Replace { entries }),
                1 => q.extend(entries.into_iter().map(|(key, value)| MapDiff::Insert { key, value })),
                _ => {
                    if !entries.is_empty() {
                        q.push_back(MapDiff::Replace { entries });
                    }
                }
            }
            let sub = Sub::new("a signal map", q, self.ended.get(), &self.live, &self.chaos);
            self.subs.borrow_mut().push(sub.clone());
            Box::pin(SubHandle(sub))
        }
    }

    pub fn keys(&self) -> VecI {
        assert!(self.is_real, "HARNESS");
        match self.real.borrow().as_ref() {
            Some(v) => Box::pin(v.signal_vec_keys()),
            None => Box::pin(vec_always(self.values.borrow().keys().copied().collect())),
        }
    }

    pub fn entries(&self) -> Pin<Box<dyn SignalVec<Item = (i64, i64)>>> {
        assert!(self.is_real, "HARNESS");
        match self.real.borrow().as_ref() {
            Some(v) => {
                if self.rng.borrow_mut().flip() {
                    Box::pin(v.signal_vec_entries())
                } else {
                    Box::pin(v.entries_cloned())
                }
            }
            None => Box::pin(vec_always(self.values.borrow().iter().map(|(a, b)| (*a, *b)).collect())),
        }
    }

    pub fn mutate(&self, rng: &mut Rng, vals: &mut dyn FnMut(&mut Rng) -> i64) {
        if self.ended.get() {
            return;
        }
        count("source_changes", 1);
        let key = rng.below(self.keys as usize) as i64;
        let present = self.values.borrow().contains_key(&key);
        let diff = match rng.below(12) {
            0 | 1 => {
                let mut entries = BTreeMap::new();
                for k in 0..self.keys {
                    if rng.flip() {
                        entries.insert(k, vals(rng));
                    }
                }
                MapDiff::Replace { entries: entries.into_iter().collect() }
            }
            2 => MapDiff::Clear {},
            3..=6 if present => MapDiff::Remove { key },
            _ => {
                if present {
                    MapDiff::Update { key, value: vals(rng) }
                } else {
                    MapDiff::Insert { key, value: vals(rng) }
                }
            }
        };
        event(|| format!("map {} {:?}", self.id, diff));
        let _ = apply_map(diff.clone(), &mut self.values.borrow_mut());
        trace(self.values.borrow().iter().fold(self.id as u64, |a, (k, v)| a.wrapping_mul(31).wrapping_add(*k as u64).wrapping_mul(31).wrapping_add(*v as u64)));
        if self.is_real {
            let m = self.real.borrow().clone();
            if let Some(m) = m {
                let mut l = m.lock_mut();
                match diff {
                    MapDiff::Replace { entries } => {
                        if rng.flip() {
                            l.replace(entries.into_iter().collect())
                        } else {
                            l.replace_cloned(entries.into_iter().collect())
                        }
                    }
                    MapDiff::Insert { key, value } | MapDiff::Update { key, value } => {
                        if rng.flip() {
                            l.insert(key, value);
                        } else {
                            l.insert_cloned(key, value);
                        }
                    }
                    MapDiff::Remove { key } => {
                        l.remove(&key);
                    }
                    MapDiff::Clear {} => l.clear(),
                }
            }
        } else {
            let subs = self.subs.borrow().clone();
            for s in subs {
                s.push(diff.clone(), false);
            }
            self.subs.borrow_mut().retain(|s| !s.finished.get());
        }
    }

    pub fn end(&self) {
        if self.ended.replace(true) {
            return;
        }
        event(|| format!("end map {}", self.id));
        trace(0xe0d3 ^ self.id as u64);
        count("source_ends", 1);
        let subs = std::mem::take(&mut *self.subs.borrow_mut());
        for s in subs {
            s.end();
        }
        let real = self.real.borrow_mut().take();
        drop(real);
    }
}

/// Applies a diff, checking that it is valid.
pub fn apply_vec<T>(diff: VecDiff<T>, v: &mut Vec<T>) -> Result<(), String> {
    let len = v.len();
    let bad = match &diff {
        VecDiff::InsertAt { index, .. } => *index > len,
        VecDiff::UpdateAt { index, .. } | VecDiff::RemoveAt { index } => *index >= len,
        VecDiff::Move { old_index, new_index } => *old_index >= len || *new_index >= len,
        VecDiff::Pop {} => len == 0,
        _ => false,
    };
    if bad {
        let what = match &diff {
            VecDiff::InsertAt { index, .. } => format!("InsertAt {}", index),
            VecDiff::UpdateAt { index, .. } => format!("UpdateAt {}", index),
            VecDiff::RemoveAt { index } => format!("RemoveAt {}", index),
            VecDiff::Move { old_index, new_index } => format!("Move {} {}", old_index, new_index),
            _ => "Pop".to_string(),
        };
        return Err(format!("invalid diff {} for a list of {} items", what, len));
    }
    // deliberately not the crate's apply_to_vec
    match diff {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => v.insert(index, value),
        VecDiff::UpdateAt { index, value } => v[index] = value,
        VecDiff::RemoveAt { index } => {
            v.remove(index);
        }
        VecDiff::Move { old_index, new_index } => {
            let x = v.remove(old_index);
            v.insert(new_index, x);
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => {
            v.pop();
        }
        VecDiff::Clear {} => v.clear(),
    }
    Ok(())
}

pub fn apply_map<K: Ord + std::fmt::Debug, V>(diff: MapDiff<K, V>, m: &mut BTreeMap<K, V>) -> Result<(), String> {
    match diff {
        MapDiff::Replace { entries } => {
            let n = entries.len();
            *m = entries.into_iter().collect();
            if m.len() != n {
                return Err("duplicate keys in a Replace".into());
            }
        }
        MapDiff::Insert { key, value } => {
            if m.contains_key(&key) {
                return Err(format!("Insert of the present key {:?}", key));
            }
            m.insert(key, value);
        }
        MapDiff::Update { key, value } => {
            if !m.contains_key(&key) {
                return Err(format!("Update of the absent key {:?}", key));
            }
            m.insert(key, value);
        }
        MapDiff::Remove { key } => {
            if m.remove(&key).is_none() {
                return Err(format!("Remove of the absent key {:?}", key));
            }
        }
        MapDiff::Clear {} => m.clear(),
    }
    Ok(())
}

#[allow(unused)]
fn _unused(v: VecI, m: MapI) {
    let _ = v.map(|x| x);
    let _ = m.map_value(|x| x);
}
