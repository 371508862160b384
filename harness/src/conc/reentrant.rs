//! The closures of the adapters and consumers themselves use the handles of the sources: nothing may be locked while
//! a closure of the user runs (other than what the user locked), so nothing deadlocks, and nothing is missed.

use super::*;
use crate::sched::point;
use futures_signals::map_ref;
use futures_signals::signal::{channel, Broadcaster, Mutable, Sender, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use futures_signals::cancelable_future;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone)]
struct Handles {
    a: Mutable<u64>,
    b: Mutable<u64>,
    l: MutableVec<u64>,
    m: MutableBTreeMap<u64, u64>,
    tx: Sender<u64>,
    sent: Shared<u64>,
    sending: Arc<AtomicBool>,
    bc: Broadcaster<Pin<Box<dyn Signal<Item = u64> + Send + Sync>>>,
}

impl Handles {
    fn copies(&self) {
        drop((self.a.clone(), self.a.read_only(), self.b.read_only().clone(), self.b.clone(), self.l.clone(), self.m.clone(), self.tx.clone(), self.bc.clone()));
    }
}

/// What a closure does with the handles, a limited number of times
#[derive(Clone)]
struct Act {
    h: Handles,
    left: Shared<(Rng, usize)>,
    /// May use `a`, the Broadcaster of `a` and `b`, otherwise it runs while `a` is locked (and `a` and `b` are swapped
    /// by others)
    all: bool,
}

impl Act {
    fn now(&self) {
        let (op, x, y) = {
            let mut l = self.left.lock().unwrap();
            if l.1 == 0 {
                return;
            }
            if l.0.flip() {
                return;
            }
            l.1 -= 1;
            let op = if self.all { l.0.below(22) } else { [0, 1, 2, 3, 4, 5, 6, 18, 18][l.0.below(9)] };
            (op, l.0.below(50) as u64, l.0.below(5))
        };
        point("closure");
        let h = &self.h;
        match op {
            0 => h.l.lock_mut().push(x),
            1 => {
                let mut l = h.l.lock_mut();
                match l.len() {
                    0 => {}
                    n if y == 0 => drop(l.remove(n - 1)),
                    n if y == 1 => l.set(x as usize % n, x),
                    n if y == 2 => l.insert(x as usize % n, x),
                    n if y == 3 => l.move_from_to(x as usize % n, 0),
                    _ => l.replace(vec![x]),
                }
            }
            2 => drop(h.m.lock_mut().insert(y as u64, x)),
            3 => drop(h.m.lock_mut().remove(&(y as u64))),
            4 => {
                // One at a time, so that it is known which one is the latest
                if !h.sending.swap(true, Ordering::SeqCst) {
                    let _ = h.tx.send(x);
                    *h.sent.lock().unwrap() = x;
                    h.sending.store(false, Ordering::SeqCst);
                }
            }
            5 => {
                debug(&h.l);
                debug(&h.m);
                let _ = (h.l.lock_ref().len(), h.m.lock_ref().len());
                let _ = (serde_json::to_string(&h.l), serde_json::to_string(&h.m));
            }
            6 => {
                // A second listener which comes and goes
                let w = TaskWaker::new();
                let waker = w.waker();
                let mut cx = Context::from_waker(&waker);
                let _ = Box::pin(h.l.signal_vec()).as_mut().poll_vec_change(&mut cx);
                let _ = Box::pin(h.m.entries_cloned()).as_mut().poll_vec_change(&mut cx);
            }
            7 => h.b.set(x),
            8 => drop(h.b.replace_with(|v| *v + 1)),
            9 => *h.b.lock_mut() = x,
            10 => drop(h.clone()),
            11 | 12 => h.a.set(x),
            13 => h.a.set_neq(x % 3),
            14 => drop(h.a.replace(x)),
            15 => h.a.swap(&h.b),
            16 => {
                debug(&h.a);
                debug(&h.b.read_only());
                let _ = (h.a.get(), h.b.get_cloned());
            }
            18 => h.copies(),
            19 => {
                // Handles can be copied and dropped while they are locked
                h.b.replace_with(|v| {
                    h.copies();
                    *v + 1
                });
                h.b.set_if(x, |old, new| {
                    h.copies();
                    old != new
                });
            }
            20 => {
                let mut lock = h.b.lock_mut();
                h.copies();
                *lock = x;
                h.copies();
                drop(lock);
                let lock = h.b.lock_ref();
                h.copies();
                drop(lock);
            }
            21 => {
                let mut lock = h.l.lock_mut();
                lock.retain(|v| {
                    h.copies();
                    *v % 5 != 0
                });
                lock.extend((0..y as u64 % 3).map(|v| {
                    h.copies();
                    x + v
                }));
                drop(lock);
                let lock = h.m.lock_mut();
                h.copies();
                drop(lock);
            }
            _ => {
                let w = TaskWaker::new();
                let waker = w.waker();
                let _ = Box::pin(h.b.signal()).as_mut().poll_change(&mut Context::from_waker(&waker));
                let _ = Box::pin(h.a.signal()).as_mut().poll_change(&mut Context::from_waker(&waker));
                // A child can be made (but not polled) while the Broadcaster is polled
                drop(h.bc.signal());
            }
        }
        point("closure");
    }
}

struct Yield(usize);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Seen {
    No,
    Value(u64),
    List(Vec<u64>),
    Map(BTreeMap<u64, u64>),
}

type PollFn = Box<dyn FnMut(&mut Context) -> Poll<Option<()>> + Send>;
type Want = fn(&Handles) -> Seen;

fn a(h: &Handles) -> Seen {
    Seen::Value(h.a.get())
}

fn b(h: &Handles) -> Seen {
    Seen::Value(h.b.get())
}

fn l(h: &Handles) -> Seen {
    Seen::List(h.l.lock_ref().to_vec())
}

fn signal(s: impl Signal<Item = u64> + Send + 'static, seen: &Shared<Seen>) -> PollFn {
    let seen = seen.clone();
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_change(cx).map(|x| x.map(|x| *seen.lock().unwrap() = Seen::Value(x))))
}

fn list(s: impl SignalVec<Item = u64> + Send + 'static, seen: &Shared<Seen>) -> PollFn {
    let seen = seen.clone();
    let mut s = Box::pin(s);
    let mut list = vec![];
    *seen.lock().unwrap() = Seen::List(vec![]);
    Box::new(move |cx| {
        s.as_mut().poll_vec_change(cx).map(|d| {
            d.map(|d| {
                super::coll::apply_vec(&mut list, d).expect("a valid change");
                *seen.lock().unwrap() = Seen::List(list.clone());
            })
        })
    })
}

fn future(f: impl Future<Output = ()> + Send + 'static) -> PollFn {
    let mut f = Box::pin(f);
    Box::new(move |cx| f.as_mut().poll(cx).map(|()| None))
}

fn consumer(kind: usize, h: &Handles, act: Act, seen: &Shared<Seen>, rng: &mut Rng) -> (&'static str, PollFn, Want) {
    let y = rng.below(2);
    let set = {
        let seen = seen.clone();
        move |x| *seen.lock().unwrap() = x
    };
    macro_rules! act {
        ($x:expr) => {{
            act.now();
            $x
        }};
    }
    let (h1, h2) = (h.clone(), h.clone());
    match kind {
        0 => ("a.map", signal(h.a.signal().map(move |x| act!(x)), seen), a),
        1 => ("a.for_each", future(h.a.signal().for_each(move |x| {
            set(Seen::Value(x));
            act.now();
            Yield(y)
        })), a),
        2 => {
            let (l, r) = (h.a.signal(), h.b.signal());
            ("map_ref(a, b)", signal(map_ref! { l, r => act!(*l * 1000 + *r) }, seen), |h| Seen::Value(h.a.get() * 1000 + h.b.get()))
        }
        3 => ("a.switch(b)", signal(h.a.signal().switch(move |x| act!(h1.b.signal().map(move |y| x * 1000 + y))), seen), |h| Seen::Value(h.a.get() * 1000 + h.b.get())),
        4 => ("broadcast(a.map)", {
            let bc = Broadcaster::new(h.a.signal().map(move |x| act!(x)));
            signal(bc.signal(), seen)
        }, a),
        5 => ("a.map_future", signal(h.a.signal().map_future(move |x| {
            act.now();
            let act2 = act.clone();
            async move {
                act2.now();
                Yield(y).await;
                act2.now();
                x
            }
        }).map(|x| x.unwrap_or(u64::MAX)), seen), a),
        6 => ("a.throttle", signal(h.a.signal().throttle(move || act!(Yield(y))), seen), a),
        7 => ("a.inspect.dedupe_map.filter_map", signal({
            let (act1, act2) = (act.clone(), act.clone());
            h.a.signal().inspect(move |_| act1.now()).dedupe_map(move |x| act!(*x)).filter_map(move |x| {
                act2.now();
                Some(x)
            }).map(|x| x.unwrap_or(u64::MAX))
        }, seen), a),
        8 => ("a.signal_ref", {
            let locked = Act { all: false, ..act.clone() };
            signal(h.a.signal_ref(move |x| {
                locked.now();
                *x
            }), seen)
        }, a),
        9 => ("a.signal_vec", list(h.a.signal().map(move |x| act!(vec![x, x + 1])).to_signal_vec(), seen), |h| Seen::List(vec![h.a.get(), h.a.get() + 1])),
        10 => ("a.switch_signal_vec", list(h.a.signal().switch_signal_vec(move |_| act!(h1.l.signal_vec())), seen), l),
        11 => ("bc.map", signal(h.bc.signal().map(move |x| act!(x)), seen), a),
        12 => ("bc.signal_ref", signal(h.bc.signal_ref(move |x| act!(*x)), seen), a),
        13 => ("l.map", list(h.l.signal_vec().map(move |x| act!(x)), seen), l),
        14 => ("l.filter", list(h.l.signal_vec().filter(move |x| act!(*x % 2 == 0)), seen), |h| Seen::List(h.l.lock_ref().iter().copied().filter(|x| x % 2 == 0).collect())),
        15 => ("l.filter_map", list(h.l.signal_vec().filter_map(move |x| act!(Some(x))), seen), l),
        16 => ("l.sort_by", list(h.l.signal_vec().sort_by_cloned(move |x, y| act!(x.cmp(y))), seen), |h| {
            let mut v = h.l.lock_ref().to_vec();
            v.sort();
            Seen::List(v)
        }),
        17 => ("l.map_signal(b)", list(h.l.signal_vec().map_signal(move |x| {
            let act2 = act.clone();
            act!(h1.b.signal().map(move |y| {
                act2.now();
                x * 1000 + y
            }))
        }), seen), |h| {
            let b = h.b.get();
            Seen::List(h.l.lock_ref().iter().map(|x| x * 1000 + b).collect())
        }),
        18 => ("l.filter_signal(b)", list(h.l.signal_vec().filter_signal_cloned(move |x| {
            let (act2, x) = (act.clone(), *x);
            act!(h1.b.signal().map(move |y| {
                act2.now();
                (x + y) % 2 == 0
            }))
        }), seen), |h| {
            let b = h.b.get();
            Seen::List(h.l.lock_ref().iter().copied().filter(|x| (x + b) % 2 == 0).collect())
        }),
        19 => ("l.to_signal_map", signal(h.l.signal_vec().to_signal_map(move |v| act!(v.iter().sum::<u64>())), seen), |h| Seen::Value(h.l.lock_ref().iter().sum())),
        20 => ("l.delay_remove", list(h.l.signal_vec().delay_remove(move |_| act!(Yield(y))), seen), l),
        21 => ("l.flatten", list(h.l.signal_vec().map(move |x| act!(h1.b.signal().map(move |y| vec![x; (y % 3) as usize]).to_signal_vec())).flatten(), seen), |h| {
            let b = h.b.get() % 3;
            Seen::List(h.l.lock_ref().iter().flat_map(|x| (0..b).map(move |_| *x)).collect())
        }),
        22 => {
            let mut v = vec![];
            set(Seen::List(vec![]));
            ("l.for_each", future(h.l.signal_vec().for_each(move |d| {
                super::coll::apply_vec(&mut v, d).expect("a valid change");
                set(Seen::List(v.clone()));
                act!(Yield(y))
            })), l)
        }
        23 => {
            let mut v: BTreeMap<u64, u64> = BTreeMap::new();
            set(Seen::Map(v.clone()));
            ("m.map_value.for_each", future({
                let act2 = act.clone();
                h.m.signal_map().map_value(move |x| act!(x)).for_each(move |d| {
                    match d {
                        MapDiff::Replace { entries } => v = entries.into_iter().collect(),
                        MapDiff::Insert { key, value } | MapDiff::Update { key, value } => drop(v.insert(key, value)),
                        MapDiff::Remove { key } => drop(v.remove(&key)),
                        MapDiff::Clear {} => v.clear(),
                    }
                    set(Seen::Map(v.clone()));
                    act2.now();
                    Yield(y)
                })
            }), |h| Seen::Map(h.m.lock_ref().clone()))
        }
        24 => ("m.key_cloned", signal(h.m.signal_map().key_cloned(1).map(move |x| act!(x.unwrap_or(777))), seen), |h| Seen::Value(h.m.lock_ref().get(&1).copied().unwrap_or(777))),
        25 => ("m.entries.map", list(h.m.entries_cloned().map(move |(k, v)| act!(k * 1000 + v)), seen), |h| Seen::List(h.m.lock_ref().iter().map(|(k, v)| k * 1000 + v).collect())),
        26 => ("m.map_value_signal(b)", list(h.m.signal_vec_keys().map_signal(move |k| {
            act.now();
            h1.b.signal().map(move |y| k * 1000 + y)
        }), seen), |h| {
            let b = h.b.get();
            Seen::List(h.m.lock_ref().keys().map(|k| k * 1000 + b).collect())
        }),
        27 => ("cancelable a.for_each", {
            let (handle, f) = cancelable_future(h.a.signal().for_each(move |x| {
                set(Seen::Value(x));
                act!(Yield(y))
            }), || ());
            let mut f = future(f);
            Box::new(move |cx| {
                let _ = &handle;
                f(cx)
            })
        }, a),
        28 => ("to_stream", {
            let s = futures_signals::signal::from_stream(h.b.signal().map(move |x| act!(x)).to_stream()).map(|x| x.unwrap_or(u64::MAX));
            signal(s, seen)
        }, b),
        _ => ("a.wait_for", future({
            let s = h2.a.signal().map(move |x| act!(x)).wait_for(u64::MAX);
            async move {
                s.await;
            }
        }), |_| Seen::No),
    }
}

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let (tx, rx) = channel(1u64);
    let a = Mutable::new(1u64);
    let h = Handles {
        bc: Broadcaster::new(Box::pin(a.signal())),
        a,
        b: Mutable::new(2),
        l: MutableVec::new_with_values((0..rng.below(4) as u64).collect()),
        m: MutableBTreeMap::with_values((0..rng.below(3) as u64).map(|x| (x, x + 20)).collect()),
        tx,
        sent: shared(1),
        sending: Arc::new(AtomicBool::new(false)),
    };
    let left = shared((rng.fork(), rng.range(1, 8)));
    let act = Act { h: h.clone(), left, all: true };
    let mut tasks = vec![];
    let mut consumers: Vec<(&'static str, Shared<Seen>, Want, Shared<Log<()>>)> = vec![];
    let n = rng.range(1, 3);
    for i in 0..n {
        let seen = shared(Seen::No);
        let kind = rng.below(30);
        let (name, mut poll, want) = consumer(kind, &h, act.clone(), &seen, &mut rng);
        let name: &'static str = name;
        let log: Shared<Log<()>> = shared(Log { name: format!("consumer{}", i), ..Log::default() });
        consumers.push((name, seen, want, log.clone()));
        let mut opts = Opts::random(&mut rng);
        opts.quit_after = usize::MAX;
        case.note(|| format!("consumer{}: {}", i, name));
        tasks.push(task(format!("consumer{}", i), move || consume(&log, &mut opts, |cx| poll(cx))));
    }
    if rng.flip() {
        let seen = shared(Seen::No);
        let act = act.clone();
        let log: Shared<Log<()>> = shared(Log { name: "receiver".into(), ..Log::default() });
        let mut poll = signal(rx.map(move |x| {
            act.now();
            x
        }), &seen);
        consumers.push(("receiver", seen, |h| Seen::Value(*h.sent.lock().unwrap()), log.clone()));
        let mut opts = Opts::random(&mut rng);
        opts.quit_after = usize::MAX;
        tasks.push(task("receiver", move || consume(&log, &mut opts, |cx| poll(cx))));
    }
    if rng.flip() {
        let act = act.clone();
        let n = rng.range(1, 4);
        tasks.push(task("writer", move || {
            for _ in 0..n {
                act.now();
            }
        }));
    }
    let problems: Shared<Vec<String>> = shared(vec![]);
    {
        let problems = problems.clone();
        let consumers: Vec<_> = consumers.iter().map(|c| (c.0, c.1.clone(), c.2, c.3.clone())).collect();
        let again = rng.below(3);
        let act = act.clone();
        tasks.push(task("controller", move || {
            for i in 0..=again {
                sched::wait_idle();
                let mut p = problems.lock().unwrap();
                for (name, seen, want, log) in &consumers {
                    let want = want(&h);
                    let got = seen.lock().unwrap().clone();
                    if got != want {
                        p.push(format!("{} ({}) is asleep with {:?} instead of {:?}", log.lock().unwrap().name, name, got, want));
                    }
                    if log.lock().unwrap().ended {
                        p.push(format!("{} ({}) ended although its sources are alive", log.lock().unwrap().name, name));
                    }
                }
                drop(p);
                if i < again {
                    act.left.lock().unwrap().1 += 2;
                    act.now();
                    h.a.set(40 + i as u64);
                    h.l.lock_mut().push(60 + i as u64);
                }
            }
        }));
    }
    // The closures are alive as long as the consumers, so the sources do not end
    drop(act);
    let (ok, _) = execute(case, &mut rng, tasks, &["C10"]);
    if !ok {
        return;
    }
    for c in &consumers {
        let l = c.3.lock().unwrap();
        case.count("reentrant_consumers", 1);
        case.count("reentrant_polls", l.polls);
    }
    for msg in problems.lock().unwrap().drain(..) {
        case.fail(&["C10", "C16"], msg);
    }
}
