//! Everything together: Mutables, a channel, Broadcasters, collections and cancelable futures in one program, with
//! random compositions of adapters consumed by several tasks while several tasks change the sources.

use super::*;
use crate::sched::point;
use futures_signals::map_ref;
use futures_signals::signal::{channel, Broadcaster, Mutable, ReadOnlyMutable, Receiver, Sender, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use futures_signals::{cancelable_future, signal, CancelableFutureHandle};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;

type Sig = Pin<Box<dyn Signal<Item = u64> + Send>>;
type SyncSig = Pin<Box<dyn Signal<Item = u64> + Send + Sync>>;
type List = Pin<Box<dyn SignalVec<Item = u64> + Send>>;
type Bc = Broadcaster<SyncSig>;

/// The contents of all sources
#[derive(Debug, Clone, Default)]
pub struct Now {
    a: u64,
    b: u64,
    /// Follows `a` through a `for_each`
    c: u64,
    d: u64,
    l1: Vec<u64>,
    l2: Vec<u64>,
    m: BTreeMap<u64, u64>,
}

const A: u32 = 1;
const B: u32 = 2;
const D: u32 = 4;
const L1: u32 = 8;
const L2: u32 = 16;
const M: u32 = 32;

/// Handles which keep nothing alive
#[derive(Clone)]
struct Inner {
    a: ReadOnlyMutable<u64>,
    b: ReadOnlyMutable<u64>,
    c: ReadOnlyMutable<u64>,
}

#[derive(Clone, Default)]
struct World {
    a: Option<Mutable<u64>>,
    b: Option<Mutable<u64>>,
    l1: Option<MutableVec<u64>>,
    l2: Option<MutableVec<u64>>,
    m: Option<MutableBTreeMap<u64, u64>>,
    bc: Option<Bc>,
    bc2: Option<Bc>,
}

struct Made<T, V> {
    it: T,
    want: Box<dyn Fn(&Now) -> V + Send>,
    mask: u32,
    desc: String,
}

/// Finishes after waking itself a few times
struct Yield(usize);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        point("yield");
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct Build<'a> {
    w: &'a World,
    inner: &'a Inner,
    receiver: &'a mut Option<Receiver<u64>>,
    rng: Rng,
}

fn leaf(i: &Inner, k: usize) -> SyncSig {
    match k {
        0 => Box::pin(i.a.signal()),
        1 => Box::pin(i.b.signal()),
        _ => Box::pin(i.c.signal_cloned()),
    }
}

fn leaf_now(n: &Now, k: usize) -> u64 {
    match k {
        0 => n.a,
        1 => n.b,
        _ => n.c,
    }
}

/// `c` lives as long as `a`
const LEAF: [u32; 3] = [A, B, A];

impl<'a> Build<'a> {
    fn inner_leaf(&mut self) -> (usize, Inner) {
        (self.rng.below(3), self.inner.clone())
    }

    fn leaf_sig(&mut self) -> Made<Sig, u64> {
        fn made(it: Sig, want: impl Fn(&Now) -> u64 + Send + 'static, mask: u32, desc: &str) -> Made<Sig, u64> {
            Made { it, want: Box::new(want), mask, desc: desc.into() }
        }
        match self.rng.below(9) {
            0 | 1 => made(Box::pin(self.w.a.as_ref().unwrap().signal()), |n| n.a, A, "a"),
            2 => made(Box::pin(self.w.b.as_ref().unwrap().signal_ref(|x| *x)), |n| n.b, B, "b"),
            3 => made(Box::pin(self.inner.c.signal()), |n| n.c, A, "c"),
            4 => made(Box::pin(self.w.bc.as_ref().unwrap().signal()), |n| n.a * 1000 + n.b, A | B, "broadcast"),
            5 => made(Box::pin(self.w.bc2.as_ref().unwrap().signal_cloned()), |n| n.a * 1000 + n.b + 5, A | B, "broadcast2"),
            6 => {
                let k = self.rng.below(4) as u64;
                made(Box::pin(self.w.m.as_ref().unwrap().signal_map().key_cloned(k).map(|x| x.unwrap_or(77))), move |n| n.m.get(&k).copied().unwrap_or(77), M, &format!("m[{}]", k))
            }
            7 => match self.receiver.take() {
                Some(r) => made(Box::pin(r), |n| n.d, D, "d"),
                None => made(Box::pin(self.w.bc.as_ref().unwrap().signal_ref(|x| *x)), |n| n.a * 1000 + n.b, A | B, "broadcast_ref"),
            },
            _ => made(Box::pin(self.w.b.as_ref().unwrap().signal_cloned()), |n| n.b, B, "b"),
        }
    }

    fn sig(&mut self, depth: usize) -> Made<Sig, u64> {
        if depth == 0 {
            return self.leaf_sig();
        }
        let kind = self.rng.below(17);
        if kind < 5 {
            let v = self.list(depth - 1);
            let want = v.want;
            let (it, f, name): (Sig, fn(Vec<u64>) -> u64, _) = match kind {
                0 => (Box::pin(v.it.len().map(|x| x as u64)), |v| v.len() as u64, "len"),
                1 => (Box::pin(v.it.sum()), |v| v.iter().sum(), "sum"),
                2 => (Box::pin(v.it.is_empty().map(|x| x as u64)), |v| v.is_empty() as u64, "is_empty"),
                3 => (Box::pin(v.it.to_signal_cloned().map(hash)), hash, "to_signal_cloned"),
                _ => (Box::pin(v.it.to_signal_map(|v| hash(v.to_vec()))), hash, "to_signal_map"),
            };
            return Made { it, want: Box::new(move |n| f(want(n))), mask: v.mask, desc: format!("{}.{}", v.desc, name) };
        }
        let s = self.sig(depth - 1);
        let Made { it, want, mask, desc } = s;
        match kind {
            5 => Made { it: Box::pin(it.map(|x| x + 7)), want: Box::new(move |n| want(n) + 7), mask, desc: desc + ".map" },
            6 => Made { it: Box::pin(it.dedupe()), want, mask, desc: desc + ".dedupe" },
            7 | 8 => {
                let (k, i) = self.inner_leaf();
                Made {
                    it: Box::pin(it.switch(move |x| leaf(&i, k).map(move |y| x % 100 * 3 + y))),
                    want: Box::new(move |n| want(n) % 100 * 3 + leaf_now(n, k)),
                    mask: mask | LEAF[k],
                    desc: format!("{}.switch({})", desc, k),
                }
            }
            9 => {
                let (k, i) = self.inner_leaf();
                let k2 = self.rng.below(3);
                Made {
                    it: Box::pin(it.map(move |x| leaf(&i, if x % 2 == 0 { k } else { k2 })).flatten()),
                    want: Box::new(move |n| leaf_now(n, if want(n) % 2 == 0 { k } else { k2 })),
                    mask: mask | LEAF[k] | LEAF[k2],
                    desc: format!("{}.flatten({},{})", desc, k, k2),
                }
            }
            10 => {
                let y = self.rng.below(3);
                Made {
                    it: Box::pin(it.map_future(move |x| async move {
                        Yield(y).await;
                        x
                    }).map(|x| x.unwrap_or(0))),
                    want,
                    mask,
                    desc: format!("{}.map_future({})", desc, y),
                }
            }
            11 => {
                let y = self.rng.below(3);
                Made { it: Box::pin(it.throttle(move || Yield(y))), want, mask, desc: format!("{}.throttle({})", desc, y) }
            }
            12 => Made { it: Box::pin(signal::from_stream(it.to_stream()).map(|x| x.unwrap_or(0))), want, mask, desc: desc + ".stream" },
            13 => Made {
                it: Box::pin(it.map(|x| vec![x; (x % 3) as usize]).to_signal_vec().sum()),
                want: Box::new(move |n| want(n) * (want(n) % 3)),
                mask,
                desc: desc + ".to_signal_vec.sum",
            },
            14 => {
                let (k, i) = self.inner_leaf();
                let b = Broadcaster::new(leaf(&i, k));
                let c = b.signal();
                let keep = self.rng.flip();
                Made {
                    it: Box::pin(it.switch(move |x| {
                        let _ = keep;
                        b.signal().map(move |y| x % 10 + y)
                    }).map(move |x| {
                        let _ = &c;
                        x
                    })),
                    want: Box::new(move |n| want(n) % 10 + leaf_now(n, k)),
                    mask: mask | LEAF[k],
                    desc: format!("{}.switch(broadcast({}))", desc, k),
                }
            }
            _ => {
                let o = self.sig(depth - 1);
                let (l, r) = (it, o.it);
                let want2 = o.want;
                Made {
                    it: Box::pin(map_ref! { l, r => *l * 31 + *r }),
                    want: Box::new(move |n| want(n) * 31 + want2(n)),
                    mask: mask | o.mask,
                    desc: format!("map_ref({}, {})", desc, o.desc),
                }
            }
        }
    }

    fn leaf_list(&mut self) -> Made<List, Vec<u64>> {
        match self.rng.below(6) {
            0 | 1 => Made { it: Box::pin(self.w.l1.as_ref().unwrap().signal_vec()), want: Box::new(|n| n.l1.clone()), mask: L1, desc: "l1".into() },
            2 | 3 => Made { it: Box::pin(self.w.l2.as_ref().unwrap().signal_vec_cloned()), want: Box::new(|n| n.l2.clone()), mask: L2, desc: "l2".into() },
            4 => Made { it: Box::pin(self.w.m.as_ref().unwrap().signal_vec_keys()), want: Box::new(|n| n.m.keys().copied().collect()), mask: M, desc: "m.keys".into() },
            _ => Made {
                it: Box::pin(self.w.m.as_ref().unwrap().signal_vec_entries().map(|(k, v)| k * 10000 + v)),
                want: Box::new(|n| n.m.iter().map(|(k, v)| k * 10000 + v).collect()),
                mask: M,
                desc: "m.entries".into(),
            },
        }
    }

    fn list(&mut self, depth: usize) -> Made<List, Vec<u64>> {
        if depth == 0 {
            return self.leaf_list();
        }
        let kind = self.rng.below(14);
        if kind == 0 {
            let s = self.sig(depth - 1);
            let want = s.want;
            let (k, i) = self.inner_leaf();
            return Made {
                it: Box::pin(s.it.switch_signal_vec(move |x| leaf(&i, k).map(move |y| (0..x % 3).map(|j| y + j).collect()).to_signal_vec())),
                want: Box::new(move |n| (0..want(n) % 3).map(|j| leaf_now(n, k) + j).collect()),
                mask: s.mask | LEAF[k],
                desc: format!("{}.switch_signal_vec({})", s.desc, k),
            };
        }
        let Made { it, want, mask, desc } = self.list(depth - 1);
        match kind {
            1 => Made { it: Box::pin(it.map(|x| x + 3)), want: Box::new(move |n| want(n).iter().map(|x| x + 3).collect()), mask, desc: desc + ".map" },
            2 => Made { it: Box::pin(it.filter(|x| x % 2 == 0)), want: Box::new(move |n| want(n).into_iter().filter(|x| x % 2 == 0).collect()), mask, desc: desc + ".filter" },
            3 | 4 => {
                let (k, i) = self.inner_leaf();
                Made {
                    it: Box::pin(it.map_signal(move |x| leaf(&i, k).map(move |y| x * 2 + y))),
                    want: Box::new(move |n| want(n).iter().map(|x| x * 2 + leaf_now(n, k)).collect()),
                    mask: mask | LEAF[k],
                    desc: format!("{}.map_signal({})", desc, k),
                }
            }
            5 | 6 => {
                let (k, i) = self.inner_leaf();
                Made {
                    it: Box::pin(it.filter_signal_cloned(move |x| {
                        let x = *x;
                        leaf(&i, k).map(move |y| (x + y) % 3 != 0)
                    })),
                    want: Box::new(move |n| want(n).into_iter().filter(|x| (x + leaf_now(n, k)) % 3 != 0).collect()),
                    mask: mask | LEAF[k],
                    desc: format!("{}.filter_signal({})", desc, k),
                }
            }
            7 => Made {
                it: Box::pin(it.sort_by_cloned(|a, b| (a % 5).cmp(&(b % 5)))),
                want: Box::new(move |n| {
                    let mut v = want(n);
                    v.sort_by_key(|x| x % 5);
                    v
                }),
                mask,
                desc: desc + ".sort",
            },
            8 => {
                let o = self.list(depth - 1);
                let want2 = o.want;
                Made {
                    it: Box::pin(it.chain(o.it)),
                    want: Box::new(move |n| {
                        let mut v = want(n);
                        v.extend(want2(n));
                        v
                    }),
                    mask: mask | o.mask,
                    desc: format!("chain({}, {})", desc, o.desc),
                }
            }
            9 => {
                let (k, i) = self.inner_leaf();
                Made {
                    it: Box::pin(it.map(move |x| leaf(&i, k).map(move |y| (0..(x + y) % 3).map(|j| x + j).collect()).to_signal_vec()).flatten()),
                    want: Box::new(move |n| want(n).into_iter().flat_map(|x| (0..(x + leaf_now(n, k)) % 3).map(move |j| x + j)).collect()),
                    mask: mask | LEAF[k],
                    desc: format!("{}.flatten({})", desc, k),
                }
            }
            10 => {
                let y = self.rng.below(3);
                Made { it: Box::pin(it.delay_remove(move |_| Yield(y))), want, mask, desc: format!("{}.delay_remove({})", desc, y) }
            }
            11 => Made {
                it: Box::pin(it.enumerate().map_signal(|(i, x)| i.signal().map(move |i| x + 100 * i.map_or(900, |i| i as u64)))),
                want: Box::new(move |n| want(n).into_iter().enumerate().map(|(i, x)| x + 100 * i as u64).collect()),
                mask,
                desc: desc + ".enumerate.map_signal",
            },
            12 => Made {
                it: Box::pin(it.filter_map(|x| if x % 4 == 1 { None } else { Some(x + 1) })),
                want: Box::new(move |n| want(n).into_iter().filter(|x| x % 4 != 1).map(|x| x + 1).collect()),
                mask,
                desc: desc + ".filter_map",
            },
            _ => Made { it: Box::pin(it.to_signal_cloned().to_signal_vec()), want, mask, desc: desc + ".to_signal.to_signal_vec" },
        }
    }
}

fn hash(v: Vec<u64>) -> u64 {
    v.iter().fold(v.len() as u64, |h, x| (h * 37 + x) % 1_000_000_007)
}

type PollFn = Box<dyn FnMut(&mut Context) -> Poll<Option<()>> + Send>;

struct Consumer {
    log: Shared<Log<()>>,
    state: Shared<Vec<u64>>,
    want: Box<dyn Fn(&Now) -> Vec<u64> + Send>,
    mask: u32,
    desc: String,
}

const PROPS: &[&str] = &["C16"];

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let a = Mutable::new(1u64);
    let b = Mutable::new(2u64);
    let c = Mutable::new(0u64);
    let (tx, rx) = channel(3u64);
    let inner = Inner { a: a.read_only(), b: b.read_only(), c: c.read_only() };
    let l1 = MutableVec::new_with_values((0..rng.below(4) as u64).collect());
    let l2 = MutableVec::new_with_values((0..rng.below(3) as u64).map(|x| x + 10).collect());
    let m = MutableBTreeMap::with_values((0..rng.below(3) as u64).map(|x| (x, x + 20)).collect());
    let bc: Bc = {
        let (l, r) = (a.signal(), b.signal());
        Broadcaster::new(if rng.flip() {
            Box::pin(map_ref! { l, r => *l * 1000 + *r })
        } else {
            let (l, r) = (leaf(&inner, 0), leaf(&inner, 1));
            Box::pin(map_ref! { let x = l, let y = r => *x * 1000 + *y })
        })
    };
    let bc2: Bc = Broadcaster::new(Box::pin(bc.signal().map(|x| x + 5)));
    // The latest contents of the sources which cannot be read without a handle
    let kept: Shared<Now> = shared(Now { d: 3, l1: l1.lock_ref().to_vec(), l2: l2.lock_ref().to_vec(), m: m.lock_ref().clone(), ..Now::default() });
    let world = World { a: Some(a), b: Some(b), l1: Some(l1), l2: Some(l2), m: Some(m), bc: Some(bc), bc2: Some(bc2) };
    let mut receiver = Some(rx);
    let mut tasks = vec![];
    let writers = rng.range(1, 3);
    let max_ops = rng.range(1, 5);
    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);

    for w in 0..writers {
        let world = world.clone();
        let kept = kept.clone();
        let mut r = rng.fork();
        let n = r.range(1, max_ops);
        let tx = if w == 0 { Some(tx.clone()) } else { None };
        tasks.push(task(format!("writer{}", w), move || {
            for i in 0..n {
                write(&world, &tx, &kept, &mut r, 100 * (w as u64 + 1) + i as u64);
                point("next");
            }
        }));
    }

    // `c` follows `a`
    {
        let log: Shared<Log<()>> = shared(Log { name: "follower".into(), ..Log::default() });
        let mut opts = Opts::random(&mut rng);
        opts.quit_after = usize::MAX;
        let s = inner.a.signal();
        let y = rng.below(2);
        tasks.push(task("follower", move || {
            let mut f = Box::pin(s.for_each(move |x| {
                c.set(x);
                Yield(y)
            }));
            consume(&log, &mut opts, |cx| f.as_mut().poll(cx).map(|()| None));
        }));
    }

    let mut logs = vec![];
    let consumers_n = rng.range(1, 3);
    let max_depth = rng.range(1, 3);
    let mut consumers = vec![];
    let mut handles: Vec<CancelableFutureHandle> = vec![];
    let mut discards = vec![];
    for i in 0..consumers_n {
        let mut opts = Opts::random(&mut rng);
        let mut build = Build { w: &world, inner: &inner, receiver: &mut receiver, rng: rng.fork() };
        let depth = rng.range(0, max_depth);
        let kind = rng.below(4);
        let state: Shared<Vec<u64>> = shared(vec![]);
        let bad = problems.clone();
        let (poll, want, mask, desc): (PollFn, Box<dyn Fn(&Now) -> Vec<u64> + Send>, u32, String) = match kind {
            0 | 1 => {
                let mut s = build.sig(depth);
                let want = s.want;
                let state = state.clone();
                (
                    Box::new(move |cx| match s.it.as_mut().poll_change(cx) {
                        Poll::Ready(Some(x)) => {
                            *state.lock().unwrap() = vec![x];
                            Poll::Ready(Some(()))
                        }
                        Poll::Ready(None) => Poll::Ready(None),
                        Poll::Pending => Poll::Pending,
                    }),
                    Box::new(move |n| vec![want(n)]),
                    s.mask,
                    s.desc,
                )
            }
            2 => {
                let mut s = build.list(depth);
                let state = state.clone();
                (
                    Box::new(move |cx| match s.it.as_mut().poll_vec_change(cx) {
                        Poll::Ready(Some(d)) => {
                            if let Err(e) = super::coll::apply_vec(&mut state.lock().unwrap(), d) {
                                bad.lock().unwrap().push((PROPS, format!("consumer{} received an invalid diff: {}", i, e)));
                            }
                            Poll::Ready(Some(()))
                        }
                        Poll::Ready(None) => Poll::Ready(None),
                        Poll::Pending => Poll::Pending,
                    }),
                    s.want,
                    s.mask,
                    s.desc,
                )
            }
            _ => {
                // A cancelable consumer
                let s = build.sig(depth);
                let want = s.want;
                let state = state.clone();
                let (h, f) = cancelable_future(
                    s.it.for_each(move |x| {
                        *state.lock().unwrap() = vec![x];
                        Yield((x % 2) as usize)
                    }),
                    || (),
                );
                let h = discard::DiscardOnDrop::leak(h);
                if rng.flip() {
                    handles.push(h);
                } else {
                    discards.push((i, h));
                }
                opts.quit_after = usize::MAX;
                let mut f = Box::pin(f);
                (Box::new(move |cx| f.as_mut().poll(cx).map(|()| None)), Box::new(move |n| vec![want(n)]), s.mask, format!("{}.for_each", s.desc))
            }
        };
        let name = format!("consumer{}", i);
        let log: Shared<Log<()>> = shared(Log { name: name.clone(), ..Log::default() });
        logs.push(log.clone());
        consumers.push(Consumer { log: log.clone(), state, want, mask, desc: desc.clone() });
        let mut poll = Some(poll);
        tasks.push(task(name, move || {
            let mut poll = poll.take().unwrap();
            consume(&log, &mut opts, |cx| poll(cx));
        }));
    }
    for c in &consumers {
        case.note(|| format!("{}: {}", c.log.lock().unwrap().name, c.desc));
    }

    let cancelled: Shared<Vec<usize>> = shared(vec![]);
    if !discards.is_empty() {
        let cancelled = cancelled.clone();
        let waits = rng.below(6);
        tasks.push(task("canceller", move || {
            for _ in 0..waits {
                point("wait");
            }
            for (i, h) in discards {
                use discard::Discard;
                h.discard();
                cancelled.lock().unwrap().push(i);
            }
        }));
    }

    {
        let problems = problems.clone();
        let inner = inner.clone();
        let kept = kept.clone();
        let mut r = rng.fork();
        drop(receiver);
        let mut world = world;
        let mut tx = Some(tx);
        tasks.push(task("controller", move || {
            let mut alive = A | B | D | L1 | L2 | M;
            if r.chance(1, 3) {
                alive &= !end(&mut world, &mut tx, &mut r, false);
            }
            // Writers still hold their handles: what was dropped above is gone only now
            sched::wait_idle();
            let check = |alive: u32, stage: &str| {
                let mut now = kept.lock().unwrap().clone();
                now.a = inner.a.get();
                now.b = inner.b.get();
                now.c = inner.c.get();
                let mut p = problems.lock().unwrap();
                if now.a != now.c {
                    p.push((PROPS, format!("{}: the for_each follower of a is asleep with {} although a is {}", stage, now.c, now.a)));
                }
                for (i, c) in consumers.iter().enumerate() {
                    let l = c.log.lock().unwrap();
                    if cancelled.lock().unwrap().contains(&i) {
                        if !l.ended && !l.quit {
                            p.push((PROPS, format!("{}: {} ({}) was cancelled but is asleep", stage, l.name, c.desc)));
                        }
                        continue;
                    }
                    if l.quit {
                        continue;
                    }
                    let want = (c.want)(&now);
                    let got = c.state.lock().unwrap();
                    if *got != want {
                        p.push((PROPS, format!("{}: {} ({}) {} with {:?} instead of {:?}; sources: {:?}", stage, l.name, c.desc, if l.ended { "ended" } else { "is asleep" }, got, want, now)));
                    }
                    if c.mask & !alive == 0 && l.ended {
                        p.push((PROPS, format!("{}: {} ({}) ended although all of its sources are alive", stage, l.name, c.desc)));
                    }
                    if c.mask & alive == 0 && !l.ended {
                        p.push((PROPS, format!("{}: {} ({}) did not end although all of its sources have", stage, l.name, c.desc)));
                    }
                }
            };
            check(alive, "at rest");
            if alive == A | B | D | L1 | L2 | M {
                for i in 0..r.below(3) {
                    write(&world, &tx, &kept, &mut r, 900 + i as u64);
                    if r.flip() {
                        sched::wait_idle();
                        check(alive, "after another change");
                    }
                }
            }
            if r.flip() {
                alive &= !end(&mut world, &mut tx, &mut r, false);
                sched::wait_idle();
                check(alive, "after some sources ended");
            }
            alive &= !end(&mut world, &mut tx, &mut r, true);
            sched::wait_idle();
            check(alive, "after all sources ended");
            drop(handles);
        }));
    }

    let (ok, _) = execute(case, &mut rng, tasks, &["C16", "C10"]);
    if !ok {
        return;
    }
    for l in &logs {
        let l = l.lock().unwrap();
        case.count("concurrent_pipelines", 1);
        case.count("concurrent_polls", l.polls);
        case.count("concurrent_values", l.values.len() as u64);
        case.count("concurrent_ends", l.ended as u64);
    }
    for (p, msg) in problems.lock().unwrap().drain(..) {
        case.fail(p, msg);
    }
}

/// Drops some or all of the sources' handles, returns which
fn end(w: &mut World, tx: &mut Option<Sender<u64>>, r: &mut Rng, all: bool) -> u32 {
    let mut gone = 0;
    let mut order: Vec<u32> = vec![A, B, D, L1, L2, M];
    let k = r.below(6);
    order.rotate_left(k);
    for s in order {
        if all || r.flip() {
            gone |= s;
            match s {
                A => w.a = None,
                B => w.b = None,
                D => *tx = None,
                L1 => w.l1 = None,
                L2 => w.l2 = None,
                _ => w.m = None,
            }
        }
    }
    if all || r.chance(1, 4) {
        w.bc = None;
    }
    if all || r.chance(1, 4) {
        w.bc2 = None;
    }
    gone
}

fn write(w: &World, tx: &Option<Sender<u64>>, kept: &Shared<Now>, r: &mut Rng, v: u64) {
    let (a, b) = (w.a.as_ref().unwrap(), w.b.as_ref().unwrap());
    match r.below(12) {
        0 => {
            if r.chance(1, 4) {
                debug(a);
                debug(&b.read_only());
                debug(w.l1.as_ref().unwrap());
                debug(w.m.as_ref().unwrap());
            }
            a.set(v)
        }
        1 => a.set_neq(v % 3),
        2 => *b.lock_mut() = v,
        3 => drop(b.replace_with(|x| *x + 1)),
        4 => a.swap(b),
        5 => b.swap(a),
        6 => {
            if let Some(tx) = tx {
                let _ = tx.send(v);
                kept.lock().unwrap().d = v;
            } else {
                a.set(v)
            }
        }
        7..=9 => {
            let first = r.flip();
            let l = if first { &w.l1 } else { &w.l2 };
            let mut l = l.as_ref().unwrap().lock_mut();
            for _ in 0..r.range(1, 2) {
                let n = l.len();
                match r.below(9) {
                    0 | 1 => l.push(v),
                    2 => l.insert(r.below(n + 1), v),
                    3 if n > 0 => {
                        let i = r.below(n);
                        l.set(i, v + 1)
                    }
                    4 if n > 0 => {
                        let i = r.below(n);
                        l.remove(i);
                    }
                    5 => drop(l.pop()),
                    6 if n > 0 => {
                        let (x, y) = (r.below(n), r.below(n));
                        l.move_from_to(x, y)
                    }
                    7 if r.flip() => l.clear(),
                    7 => l.replace((0..r.below(3) as u64).map(|x| x + v).collect()),
                    _ => l.retain(|x| x % 3 != 0),
                }
                point("locked");
            }
            let snap = l.to_vec();
            let mut k = kept.lock().unwrap();
            if first { k.l1 = snap } else { k.l2 = snap }
        }
        _ => {
            let mut m = w.m.as_ref().unwrap().lock_mut();
            let key = r.below(4) as u64;
            match r.below(8) {
                0..=4 => drop(m.insert(key, v)),
                5 | 6 => drop(m.remove(&key)),
                _ => m.clear(),
            }
            point("locked");
            kept.lock().unwrap().m = m.clone();
        }
    }
}
