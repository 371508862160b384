//! Adapters over sources, futures and streams which own memory and refer to themselves; polled some times,
//! moved around as far as the types allow, and dropped at any point.

use crate::rng::Rng;
use crate::val::*;
use futures_signals::signal::{self, channel, from_future, from_stream, Broadcaster, Mutable, Signal, SignalExt};
use futures_signals::signal_map::{self, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{self, MutableVec, MutableVecLockMut, VecDiff, SignalVec, SignalVecExt};
use futures_signals::{map_mut, map_ref};
use std::cell::RefCell;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

type Sig = Pin<Box<dyn Signal<Item = Val>>>;
type Vecs = Pin<Box<dyn SignalVec<Item = Val>>>;
type Maps = Pin<Box<dyn SignalMap<Key = u64, Value = Val>>>;

struct World {
    a: Mutable<Val>,
    b: Mutable<Val>,
    v: MutableVec<Val>,
    m: MutableBTreeMap<u64, Val>,
}

impl World {
    fn new(rng: &mut Rng) -> World {
        let a = Mutable::new(Val::new(1));
        let b = Mutable::new(Val::new(2));
        if panicking() {
            // The last handle panics if the lock is poisoned, also while it is unwinding already
            STASH.with(|s| s.borrow_mut().push((a.clone(), b.clone())));
        }
        World {
            a,
            b,
            v: MutableVec::new_with_values((0..rng.below(4) as u64).map(Val::new).collect()),
            m: MutableBTreeMap::with_values((0..rng.below(4) as u64).map(|k| (k, Val::new(k))).collect()),
        }
    }

    fn change(&self, rng: &mut Rng) {
        let id = rng.next() % 9;
        for _ in 0..rng.range(1, 3) {
            match rng.below(if panicking() { 23 } else { 12 }) {
                // What runs the program's code inside of the locks
                12 => self.v.lock_mut().retain(|v| {
                    fuse();
                    v.check() % 3 != id % 3
                }),
                13 => drop(self.a.replace_with(|v| {
                    fuse();
                    v.change(id);
                    fuse();
                    Val::new(id)
                })),
                14 => self.a.set_if(Val::new(id), |x, y| x != y),
                15 => self.a.set_neq(Val::new(id)),
                16 => MutableVecLockMut::apply_vec_diff(&mut self.v.lock_mut(), VecDiff::Replace { values: (0..id % 4).map(Val::new).collect() }),
                17 => drop(self.v.lock_mut().drain(..).map(|x| { fuse(); x }).count()),
                18 => self.m.lock_mut().replace_cloned((0..id % 4).map(|k| (k, Val::new(k))).collect()),
                19 => self.v.lock_mut().replace_cloned((0..id % 4).map(|k| { fuse(); Val::new(k) }).collect()),
                20 => {
                    let mut l = self.a.lock_mut();
                    l.change(id);
                    fuse();
                }
                22 => {
                    // Whoever leaks a Drain loses items, but no more than that
                    let mut l = self.v.lock_mut();
                    let mut d = l.drain(..);
                    drop(d.next());
                    std::mem::forget(d);
                    set_fuse(-1);
                }
                21 => drop(self.v.lock_ref().iter().filter(|v| { fuse(); v.check() == id }).count()),
                0 => self.a.set(Val::new(id)),
                1 => self.b.lock_mut().change(id),
                2 => self.a.swap(&self.b),
                3 => self.m.lock_mut().clear(),
                4 => drop(self.m.lock_mut().remove(&(id % 4))),
                5 | 6 => drop(self.m.lock_mut().insert_cloned(id % 4, Val::new(id))),
                7 => self.v.lock_mut().push_cloned(Val::new(id)),
                8 => drop(self.v.lock_mut().pop()),
                9 => {
                    let mut l = self.v.lock_mut();
                    let n = l.len();
                    if n > 0 {
                        l.set_cloned(rng.below(n), Val::new(id));
                        l.move_from_to(rng.below(n), rng.below(n));
                    }
                }
                10 => {
                    let mut l = self.v.lock_mut();
                    let n = l.len();
                    l.insert_cloned(rng.below(n + 1), Val::new(id));
                    if rng.chance(1, 3) {
                        drop(l.drain(..n / 2));
                    }
                }
                _ => {
                    let mut l = self.v.lock_mut();
                    if rng.flip() {
                        l.replace_cloned((0..id % 3).map(Val::new).collect());
                    } else {
                        l.truncate((id % 3) as usize);
                    }
                }
            }
        }
    }
}

fn leaf(w: &World, rng: &mut Rng) -> Sig {
    let n = rng.below(3);
    match rng.below(8) {
        0 => Box::pin(w.a.signal_cloned()),
        1 => Box::pin(w.b.signal_cloned()),
        2 => Box::pin(from_future(delayed(Val::new(5), n)).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        3 => Box::pin(from_stream(stream(n, n)).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        4 => Box::pin(signal::always(Val::new(4))),
        5 => {
            let (s, r) = channel(Val::new(7));
            drop(s.send(Val::new(8)));
            if rng.flip() {
                s.close();
            }
            Box::pin(r)
        }
        6 => {
            let b = Broadcaster::new(w.a.signal_cloned());
            let mut first = b.signal_cloned();
            run_signal(Pin::new(&mut first), 1, rng, drop);
            Box::pin(b.signal_cloned())
        }
        _ => Box::pin(signal::option(if rng.flip() { Some(w.b.signal_cloned()) } else { None }).map(|x| x.unwrap_or_else(|| Val::new(0)))),
    }
}

fn sig(w: &World, rng: &mut Rng, depth: usize) -> Sig {
    if depth == 0 {
        return leaf(w, rng);
    }
    let own = Val::new(3);
    let n = rng.below(3);
    let s = sig(w, rng, depth - 1);
    match rng.below(20) {
        0 => {
            let t = leaf(w, rng);
            Box::pin(map_ref! { let x = s, let y = t => Val::new(x.check() + y.check() + own.check()) })
        }
        1 => {
            let t = leaf(w, rng);
            Box::pin(map_mut! { let x = s, let y = t => { x.change(y.check()); x.clone() } })
        }
        2 => {
            // not boxed: the future lives inside of the closure of map_ref
            let t = from_future(delayed(Val::new(6), n));
            Box::pin(map_ref! { let x = s, let y = t => Val::new(x.check() + y.as_ref().map_or(0, |y| y.check())) })
        }
        3 => Box::pin(s.map_future(move |v| delayed(v, n)).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        4 => Box::pin(s.throttle(move || {
            let f = delayed(own.clone(), n);
            async move {
                f.await;
            }
        })),
        5 => {
            let b = w.b.clone();
            Box::pin(s.map(move |v| (v, &own).0.check()).map(move |_| b.signal_cloned()).flatten())
        }
        6 => Box::pin(s.switch(move |v| from_future(delayed(v, n)).map(|x| x.unwrap_or_else(|| Val::new(0))))),
        7 => Box::pin(s.filter_map(move |v| if v.check() % 2 == own.check() % 2 { Some(v) } else { None }).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        8 => Box::pin(s.dedupe_cloned()),
        9 => Box::pin(s.dedupe_map(|v| v.clone())),
        10 => Box::pin(s.eq(own).map(|x| Val::new(x as u64))),
        11 => Box::pin(s.neq(own).map(|x| Val::new(x as u64))),
        12 => Box::pin(s.first()),
        13 => Box::pin(s.stop_if(move |v| v.check() == own.check() + 100)),
        14 => Box::pin(s.inspect(move |v| drop(v.check() + own.check()))),
        15 => {
            let v = w.v.clone();
            Box::pin(s.switch_signal_vec(move |_| v.signal_vec_cloned()).to_signal_map(|l| Val::new(l.len() as u64)))
        }
        16 => Box::pin(from_stream(s.to_stream()).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        17 => Box::pin(from_future(s.to_future()).map(|x| x.unwrap_or_else(|| Val::new(0)))),
        18 => Box::pin(from_future(s.wait_for(own)).map(|x| x.flatten().unwrap_or_else(|| Val::new(0)))),
        _ => Box::pin(from_stream(s.sample_stream_cloned(stream(3, n))).map(|x| x.map_or_else(|| Val::new(0), |x| x.0))),
    }
}

fn list(w: &World, rng: &mut Rng, depth: usize) -> Vecs {
    let n = rng.below(3);
    if depth == 0 {
        return match rng.below(6) {
            0 => Box::pin(signal_vec::always(vec![Val::new(1), Val::new(2)])),
            1 => Box::pin(signal_vec::from_stream(stream(3, n))),
            2 => Box::pin(w.m.entries_cloned().map(|x| x.1)),
            3 => Box::pin(w.a.signal_cloned().map(|v| vec![v.clone(), v]).to_signal_vec()),
            _ => Box::pin(w.v.signal_vec_cloned()),
        };
    }
    let own = Val::new(3);
    let s = list(w, rng, depth - 1);
    match rng.below(12) {
        0 => Box::pin(s.map(move |v| Val::new(v.check() + own.check()))),
        1 => {
            let a = w.a.clone();
            Box::pin(s.map_signal(move |v| {
                let f = from_future(delayed(v, n));
                let a = a.signal_cloned();
                map_ref! { let x = f, let y = a => Val::new(x.as_ref().map_or(0, |x| x.check()) + y.check()) }
            }))
        }
        2 => Box::pin(s.filter(move |v| v.check() % 2 == own.check() % 2)),
        3 => {
            let a = w.a.clone();
            Box::pin(s.filter_signal_cloned(move |v| {
                let v = v.clone();
                a.signal_ref(move |x| x.check() % 2 == v.check() % 2)
            }))
        }
        4 => Box::pin(s.filter_map(move |v| if v.check() % 2 == 0 { Some((v, &own).0) } else { None })),
        5 => Box::pin(s.chain(list(w, rng, 0))),
        6 => {
            let v = w.v.clone();
            Box::pin(s.map(move |_| v.signal_vec_cloned()).flatten())
        }
        7 => Box::pin(s.enumerate().map(|(i, v)| {
            drop(i.get());
            v
        })),
        8 => Box::pin(s.sort_by_cloned(|a, b| a.cmp(b))),
        9 => Box::pin(s.delay_remove(move |v| {
            let f = delayed(v.clone(), n);
            async move {
                f.await;
            }
        })),
        10 => Box::pin(s.to_signal_cloned().to_signal_vec()),
        _ => {
            let a = w.a.signal_cloned();
            let v = w.v.clone();
            drop(s);
            Box::pin(a.switch_signal_vec(move |x| {
                if x.check() % 3 == 0 {
                    Box::pin(signal_vec::always(vec![x])) as Vecs
                } else {
                    Box::pin(v.signal_vec_cloned())
                }
            }))
        }
    }
}

fn dict(w: &World, rng: &mut Rng) -> Maps {
    let own = Val::new(3);
    let n = rng.below(3);
    let s: Maps = match rng.below(3) {
        0 => Box::pin(signal_map::always((0..3).map(|k| (k, Val::new(k))))),
        _ => Box::pin(w.m.signal_map_cloned()),
    };
    match rng.below(3) {
        0 => Box::pin(s.map_value(move |v| Val::new(v.check() + own.check()))),
        1 => {
            let a = w.a.clone();
            Box::pin(s.map_value_signal(move |v| {
                let f = from_future(delayed(v, n));
                let a = a.signal_cloned();
                map_ref! { let x = f, let y = a => Val::new(x.as_ref().map_or(0, |x| x.check()) + y.check()) }
            }))
        }
        _ => s,
    }
}

thread_local! {
    static STASH: RefCell<Vec<(Mutable<Val>, Mutable<Val>)>> = const { RefCell::new(vec![]) };
}
static PANICKING: AtomicBool = AtomicBool::new(false);

fn panicking() -> bool {
    PANICKING.load(Relaxed)
}

/// The same programs, but some code of theirs which is called by the crate panics, once. What runs is caught,
/// and all is used and dropped afterwards as usual.
pub fn panics(rng: &mut Rng) {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !burnt() {
                old(i);
            }
        }));
    });
    let steps = if rng.flip() { rng.range(1, 6) } else { rng.range(1, 40) };
    set_fuse(steps as i64);
    PANICKING.store(true, Relaxed);
    let f = [signals, vecs, maps][rng.below(3)];
    f(rng);
    PANICKING.store(false, Relaxed);
    for (a, b) in STASH.with(|s| s.take()) {
        guarded(|| drop(a));
        guarded(|| drop(b));
    }
}

fn rounds(w: World, rng: &mut Rng, mut poll: impl FnMut(usize, &mut Rng) -> bool) {
    let mut w = Some(w);
    let n = rng.range(2, 5);
    for i in 0..n {
        let polls = rng.range(1, 5);
        if panicking() {
            // After a panic the rest goes on as far as it can
            if guarded(|| poll(polls, rng)) == Some(true) {
                break;
            }
            if let Some(x) = &w {
                guarded(|| x.change(rng));
            }
        } else {
            if poll(polls, rng) {
                break;
            }
            if let Some(x) = &w {
                x.change(rng);
            }
        }
        if i + 2 >= n && rng.flip() {
            w = None;
        }
    }
}

pub fn signals(rng: &mut Rng) {
    let w = World::new(rng);
    let depth = rng.below(4);
    let mut s = sig(&w, rng, depth);
    match rng.below(3) {
        0 => {
            let own = Val::new(1);
            let n = rng.below(3);
            let mut f = Box::pin(s.for_each(move |v| {
                let f = delayed(v, n);
                let own = own.clone();
                async move {
                    f.await;
                    drop(own);
                }
            }));
            rounds(w, rng, |n, rng| run_future(f.as_mut(), n, rng).is_some());
        }
        _ => rounds(w, rng, |n, rng| run_signal(s.as_mut(), n, rng, |v| drop(v.check()))),
    }
}

pub fn vecs(rng: &mut Rng) {
    let w = World::new(rng);
    let depth = rng.below(4);
    let mut s = list(&w, rng, depth);
    let mut values = vec![];
    match rng.below(6) {
        0 => {
            let mut s = Box::pin(s.len());
            rounds(w, rng, |n, rng| run_signal(s.as_mut(), n, rng, drop))
        }
        1 => {
            let mut s = Box::pin(s.is_empty());
            rounds(w, rng, |n, rng| run_signal(s.as_mut(), n, rng, drop))
        }
        2 => {
            let mut s = Box::pin(s.sum());
            rounds(w, rng, |n, rng| run_signal(s.as_mut(), n, rng, |v| drop(v.check())))
        }
        3 => {
            let n = rng.below(3);
            let mut f = Box::pin(s.for_each(move |d| async move {
                delayed(Val::new(1), n).await;
                drop(d);
            }));
            rounds(w, rng, |n, rng| run_future(f.as_mut(), n, rng).is_some())
        }
        _ => rounds(w, rng, |n, rng| run_vec(s.as_mut(), n, rng, &mut values)),
    }
    values.iter().for_each(|v| drop(v.check()));
}

pub fn maps(rng: &mut Rng) {
    let w = World::new(rng);
    let mut s = dict(&w, rng);
    match rng.below(4) {
        0 => {
            let mut s = Box::pin(s.key_cloned(rng.next() % 4));
            rounds(w, rng, |n, rng| run_signal(s.as_mut(), n, rng, drop))
        }
        1 => {
            let mut f = Box::pin(s.for_each(|d| async move {
                delayed(Val::new(1), 1).await;
                drop(d);
            }));
            rounds(w, rng, |n, rng| run_future(f.as_mut(), n, rng).is_some())
        }
        2 => {
            let mut k = Box::pin(w.m.signal_vec_keys());
            let mut keys = vec![];
            rounds(w, rng, |n, rng| run_vec(k.as_mut(), n, rng, &mut keys))
        }
        _ => rounds(w, rng, |n, rng| run_map(s.as_mut(), n, rng, |_, v| drop(v.check()))),
    }
}
