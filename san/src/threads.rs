//! Programs with threads.

use crate::rng::Rng;
use crate::val::*;
use discard::Discard;
use futures_signals::cancelable_future;
use futures_signals::map_ref;
use futures_signals::signal::{channel as new_channel, Broadcaster, Mutable, ReadOnlyMutable, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVecExt, VecDiff};
use std::pin::Pin;
use std::thread::scope;

type SendSignal<T> = Pin<Box<dyn Signal<Item = T> + Send>>;

fn write(m: &Mutable<Val>, other: &Mutable<Val>, rng: &mut Rng) {
    let id = rng.next() % 50;
    match rng.below(10) {
        0 => m.set(Val::new(id)),
        1 => {
            m.replace(Val::new(id)).check();
        }
        2 => {
            m.replace_with(|v| {
                v.change(id);
                Val::new(id + 1)
            })
            .check();
        }
        3 => m.swap(other),
        4 => m.set_if(Val::new(id), |a, b| a.check() != b.check()),
        5 => m.set_neq(Val::new(id)),
        6 => m.lock_mut().change(id),
        7 => {
            m.lock_mut().check();
        }
        8 => {
            m.get_cloned().check();
        }
        _ => {
            m.lock_ref().check();
        }
    }
}

fn listen(r: &ReadOnlyMutable<Val>, rng: &mut Rng) {
    let n = rng.range(1, 4);
    match rng.below(4) {
        0 => {
            let mut s = r.signal_cloned();
            run_signal(Pin::new(&mut s), n, rng, |v| {
                v.check();
            });
        }
        1 => {
            let own = Val::new(3);
            let mut s = r.signal_ref(move |v| {
                own.check();
                v.check()
            });
            run_signal(Pin::new(&mut s), n, rng, drop);
        }
        2 => {
            let mut s = Box::pin(r.signal_cloned().to_stream());
            run_stream(s.as_mut(), n, rng);
        }
        _ => {
            let mut s = Box::pin(r.signal_cloned().dedupe_cloned().to_future());
            if let Some(v) = run_future(s.as_mut(), n, rng) {
                v.check();
            }
        }
    }
}

pub fn mutable(rng: &mut Rng) {
    let a = Mutable::new(Val::new(1));
    let b = Mutable::new(Val::new(2));
    scope(|scope| {
        for _ in 0..rng.range(2, 3) {
            let (mut a, mut b) = (a.clone(), b.clone());
            let mut rng = rng.fork();
            if rng.flip() {
                std::mem::swap(&mut a, &mut b);
            }
            scope.spawn(move || {
                for _ in 0..rng.range(2, 6) {
                    if rng.chance(3, 5) {
                        write(&a, &b, &mut rng);
                    } else {
                        listen(&a.read_only(), &mut rng);
                    }
                    tick(&mut rng);
                }
            });
        }
        for _ in 0..rng.range(0, 2) {
            // listeners which may outlive the handles
            let mut s = Box::pin(a.signal_cloned());
            let mut rng = rng.fork();
            scope.spawn(move || {
                let n = rng.range(1, 12);
                run_signal(s.as_mut(), n, &mut rng, |v| {
                    v.check();
                });
            });
        }
        drop(a);
    });
}

pub fn channel(rng: &mut Rng) {
    let (sender, receiver) = new_channel(Val::new(0));
    scope(|scope| {
        for _ in 0..rng.range(1, 3) {
            let s = sender.clone();
            let mut rng = rng.fork();
            scope.spawn(move || {
                for _ in 0..rng.range(1, 5) {
                    match rng.below(10) {
                        0 => {
                            s.close();
                        }
                        1 => {
                            drop(s.clone());
                        }
                        _ => {
                            if let Err(v) = s.send(Val::new(rng.next() % 9)) {
                                v.check();
                            }
                        }
                    }
                    tick(&mut rng);
                }
            });
        }
        let mut rng2 = rng.fork();
        scope.spawn(move || {
            let mut r = receiver;
            let n = rng2.range(1, 10);
            run_signal(Pin::new(&mut r), n, &mut rng2, |v| {
                v.check();
            });
        });
        tick(rng);
        drop(sender);
    });
}

/// Many short races of one send with one poll.
pub fn channel_pair(rng: &mut Rng) {
    for _ in 0..3 {
        let (sender, mut receiver) = new_channel(Val::new(0));
        let mut r1 = rng.fork();
        let mut r2 = rng.fork();
        scope(|scope| {
            scope.spawn(move || {
                tick(&mut r1);
                for i in 0..r1.range(1, 3) {
                    drop(sender.send(Val::new(i as u64)));
                }
            });
            scope.spawn(move || {
                let n = r2.range(1, 4);
                run_signal(Pin::new(&mut receiver), n, &mut r2, |v| {
                    v.check();
                });
                tick(&mut r2);
                drop(receiver);
            });
        });
    }
}

pub fn broadcaster(rng: &mut Rng) {
    let m = Mutable::new(Val::new(1));
    let source: Pin<Box<dyn Signal<Item = Val> + Send + Sync>> = match rng.below(3) {
        0 => Box::pin(m.signal_cloned()),
        1 => Box::pin(m.signal_ref(|v| v.clone()).dedupe_cloned()),
        _ => {
            let own = Val::new(2);
            Box::pin(m.signal_cloned().map(move |v| {
                own.check();
                v
            }))
        }
    };
    let b = Broadcaster::new(source);
    scope(|scope| {
        {
            let mut rng = rng.fork();
            let m = m;
            scope.spawn(move || {
                for i in 0..rng.range(1, 5) {
                    m.set(Val::new(i as u64));
                    tick(&mut rng);
                }
            });
        }
        for _ in 0..rng.range(2, 3) {
            let b = b.clone();
            let mut rng = rng.fork();
            scope.spawn(move || {
                for _ in 0..rng.range(1, 2) {
                    let n = rng.range(1, 6);
                    if rng.flip() {
                        let mut s = b.signal_cloned();
                        run_signal(Pin::new(&mut s), n, &mut rng, |v| {
                            v.check();
                        });
                    } else {
                        let own = Val::new(9);
                        let mut s = b.signal_ref(move |v| {
                            own.check();
                            v.check()
                        });
                        run_signal(Pin::new(&mut s), n, &mut rng, drop);
                    }
                }
                drop(b);
            });
        }
        drop(b);
    });
}

pub fn cancelable(rng: &mut Rng) {
    let own = Val::new(4);
    let n = rng.below(6);
    let (handle, fut) = cancelable_future(delayed(Val::new(3), n), move || {
        own.check();
        own
    });
    scope(|scope| {
        let mut r1 = rng.fork();
        let mut r2 = rng.fork();
        scope.spawn(move || {
            for _ in 0..r1.below(4) {
                tick(&mut r1);
            }
            match r1.below(3) {
                0 => discard::DiscardOnDrop::leak(handle).discard(),
                1 => drop(discard::DiscardOnDrop::leak(handle)),
                _ => drop(handle),
            }
        });
        scope.spawn(move || {
            let mut fut = Box::pin(fut);
            let n = r2.range(1, 10);
            if let Some(v) = run_future(fut.as_mut(), n, &mut r2) {
                v.check();
            }
        });
    });
}

fn change_vec(v: &MutableVec<Val>, rng: &mut Rng) {
    let mut l = v.lock_mut();
    let len = l.len();
    let id = rng.next() % 50;
    match rng.below(14) {
        0 => l.replace_cloned((0..rng.below(4) as u64).map(Val::new).collect()),
        1 => l.insert_cloned(rng.below(len + 1), Val::new(id)),
        2 if len > 0 => l.set_cloned(rng.below(len), Val::new(id)),
        3 if len > 0 => {
            l.remove(rng.below(len)).check();
        }
        4 if len > 0 => l.move_from_to(rng.below(len), rng.below(len)),
        5 if len > 0 => l.swap(rng.below(len), rng.below(len)),
        6 => drop(l.pop()),
        7 => l.clear(),
        8 => l.retain(|v| v.check() % 3 != 0),
        9 => {
            let at = rng.below(len + 1);
            let n = rng.below(3);
            let mut d = l.drain(at..);
            for _ in 0..n {
                d.next();
            }
        }
        10 => l.truncate(rng.below(len + 1)),
        11 => l.reverse(),
        12 => MutableVecLockMut::apply_vec_diff(&mut l, VecDiff::Push { value: Val::new(id) }),
        _ => l.push_cloned(Val::new(id)),
    }
}

fn listen_vec(v: &MutableVec<Val>, rng: &mut Rng) {
    let n = rng.range(1, 8);
    let s = v.signal_vec_cloned();
    match rng.below(5) {
        0 => {
            let mut s = s;
            run_vec(Pin::new(&mut s), n, rng, &mut vec![]);
        }
        1 => {
            let mut s = Box::pin(s.map(|v| Val::new(v.check() + 1)).filter(|v| v.check() % 2 == 0));
            run_vec(s.as_mut(), n, rng, &mut vec![]);
        }
        2 => {
            let mut s = Box::pin(s.to_signal_cloned());
            run_signal(s.as_mut(), n, rng, drop);
        }
        3 => {
            let mut s = Box::pin(s.enumerate());
            let mut list = vec![];
            run_vec(s.as_mut(), n, rng, &mut list);
            drop(s);
            list.iter().for_each(|x| drop(x.0.get()));
        }
        _ => {
            let mut s = Box::pin(s.sort_by_cloned(|a, b| a.cmp(b)));
            run_vec(s.as_mut(), n, rng, &mut vec![]);
        }
    }
}

pub fn mutable_vec(rng: &mut Rng) {
    let v = MutableVec::new_with_values(vec![Val::new(1), Val::new(2)]);
    scope(|scope| {
        for _ in 0..rng.range(2, 3) {
            let v = v.clone();
            let mut rng = rng.fork();
            scope.spawn(move || {
                for _ in 0..rng.range(2, 5) {
                    match rng.below(5) {
                        0 | 1 => listen_vec(&v, &mut rng),
                        2 => v.lock_ref().iter().for_each(|x| drop(x.check())),
                        _ => change_vec(&v, &mut rng),
                    }
                    tick(&mut rng);
                }
            });
        }
        let mut s = Box::pin(v.signal_vec_cloned());
        drop(v);
        let mut list = vec![];
        run_vec(s.as_mut(), rng.range(1, 12), rng, &mut list);
    });
}

fn change_map(m: &MutableBTreeMap<u64, Val>, rng: &mut Rng) {
    let mut l = m.lock_mut();
    let key = rng.next() % 4;
    match rng.below(6) {
        0 => l.replace_cloned((0..rng.below(4) as u64).map(|k| (k, Val::new(k))).collect()),
        1 => l.clear(),
        2 => drop(l.remove(&key)),
        _ => drop(l.insert_cloned(key, Val::new(key))),
    }
}

pub fn mutable_map(rng: &mut Rng) {
    let m = MutableBTreeMap::with_values((0..2).map(|k| (k, Val::new(k))).collect());
    scope(|scope| {
        for _ in 0..rng.range(2, 3) {
            let m: MutableBTreeMap<u64, Val> = m.clone();
            let mut rng = rng.fork();
            scope.spawn(move || {
                for _ in 0..rng.range(2, 5) {
                    let n = rng.range(1, 6);
                    match rng.below(7) {
                        0 => {
                            let mut s = m.signal_map_cloned();
                            run_map(Pin::new(&mut s), n, &mut rng, |_, v| drop(v.check()));
                        }
                        1 => {
                            let mut s = Box::pin(m.entries_cloned());
                            run_vec(s.as_mut(), n, &mut rng, &mut vec![]);
                        }
                        2 => {
                            let mut s = Box::pin(m.signal_map_cloned().key_cloned(1));
                            run_signal(s.as_mut(), n, &mut rng, drop);
                        }
                        3 => m.lock_ref().values().for_each(|x| drop(x.check())),
                        _ => change_map(&m, &mut rng),
                    }
                    tick(&mut rng);
                }
            });
        }
        drop(m);
    });
}

/// Pipelines which move from thread to thread between two polls while others change their sources.
pub fn migrating(rng: &mut Rng) {
    let a = Mutable::new(Val::new(1));
    let v = MutableVec::new_with_values(vec![Val::new(1)]);
    let (sender, receiver) = new_channel(Val::new(0));
    let mut signals: Vec<SendSignal<u64>> = vec![
        {
            let a1 = a.signal_cloned();
            let a2 = receiver;
            Box::pin(map_ref! { let a = a1, let b = a2 => a.check() + b.check() })
        },
        {
            let n = rng.below(3);
            Box::pin(a.signal_cloned().map_future(move |v| delayed(v, n)).map(|v| v.map_or(0, |v| v.check())))
        },
        {
            let b = a.clone();
            Box::pin(a.signal_cloned().switch(move |_| b.signal_ref(|v| v.check())))
        },
        Box::pin(v.signal_vec_cloned().map_signal({
            let a = a.clone();
            move |v| a.signal_ref(move |x| x.check() + v.check())
        }).to_signal_map(|l| l.iter().sum::<u64>())),
    ];
    let keep = rng.range(1, signals.len());
    signals.rotate_left(rng.below(4));
    signals.truncate(keep);
    scope(|scope| {
        let mut r1 = rng.fork();
        scope.spawn(move || {
            for i in 0..r1.range(1, 6) {
                match r1.below(3) {
                    0 => a.set(Val::new(i as u64)),
                    1 => change_vec(&v, &mut r1),
                    _ => drop(sender.send(Val::new(i as u64))),
                }
                tick(&mut r1);
            }
        });
        for mut s in signals {
            let mut r2 = rng.fork();
            let mut r3 = rng.fork();
            scope.spawn(move || {
                let n = r2.range(1, 4);
                run_signal(Pin::new(&mut s), n, &mut r2, drop);
                scope.spawn(move || {
                    let n = r3.range(1, 4);
                    run_signal(Pin::new(&mut s), n, &mut r3, drop);
                });
            });
        }
    });
}


/// The primitives with values which have no destructor or no size at all.
pub fn plain(rng: &mut Rng) {
    match rng.below(4) {
        0 => plain_values(rng, |_| ()),
        1 => plain_values(rng, |x| x),
        2 => plain_values(rng, |x| [x; 9]),
        _ => plain_values(rng, |x| if x % 2 == 0 { "even" } else { "odd" }),
    }
}

fn plain_values<T: Copy + PartialEq + Send + Sync + 'static>(rng: &mut Rng, make: fn(u64) -> T) {
    let (sender, mut receiver) = new_channel(make(1));
    let m = Mutable::new(make(2));
    let l = MutableVec::new_with_values(vec![make(3); rng.below(3)]);
    let b = Broadcaster::new(m.signal());
    scope(|scope| {
        for _ in 0..rng.range(1, 2) {
            let (s, m, l) = (sender.clone(), m.clone(), l.clone());
            let mut rng = rng.fork();
            scope.spawn(move || {
                for _ in 0..rng.range(1, 4) {
                    let x = make(rng.next() % 9);
                    match rng.below(6) {
                        0 | 1 => drop(s.send(x)),
                        2 => m.set(x),
                        3 => drop(m.replace(x)),
                        4 => l.lock_mut().push(x),
                        _ => drop(l.lock_mut().pop()),
                    }
                    tick(&mut rng);
                }
            });
        }
        {
            let mut rng = rng.fork();
            scope.spawn(move || {
                let n = rng.below(5);
                run_signal(Pin::new(&mut receiver), n, &mut rng, drop);
            });
        }
        {
            let mut rng = rng.fork();
            let l = l.signal_vec();
            scope.spawn(move || {
                let n = rng.below(5);
                let mut l = Box::pin(l.to_signal_cloned());
                run_signal(l.as_mut(), n, &mut rng, drop);
            });
        }
        {
            let mut rng = rng.fork();
            scope.spawn(move || {
                let n = rng.below(5);
                let mut s = Box::pin(b.signal());
                run_signal(s.as_mut(), n, &mut rng, drop);
                let (handle, f) = cancelable_future(s.first().to_future(), move || make(0));
                drop(b);
                let f = f;
                if rng.flip() {
                    drop(handle);
                } else {
                    discard::DiscardOnDrop::leak(handle).discard();
                }
                drop(f);
            });
        }
        drop((sender, m));
    });
    let _ = make(0) == make(1);
}
