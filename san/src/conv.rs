//! Convergence under weak memory: threads which sleep until their latest waker is woken. A lost wake-up makes the
//! program dead lock, which Miri reports; a wrong final value is reported by the program.

use crate::rng::Rng;
use crate::val::{fail, polled, tick};
use futures_signals::cancelable_future;
use futures_signals::signal::{channel as new_channel, Broadcaster, Mutable, Signal, SignalExt};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::sync::{Barrier, Mutex};
use std::thread::{scope, Thread};

const LAST: u64 = 999;

struct Park {
    thread: Thread,
    woken: AtomicBool,
}

impl Wake for Park {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::Release);
        self.thread.unpark();
    }
}

/// Runs until `f` says so, polling only if the waker of the last poll was woken.
fn run(rng: &mut Rng, mut f: impl FnMut(&mut Context) -> Poll<bool>) {
    let new = || Arc::new(Park { thread: std::thread::current(), woken: AtomicBool::new(false) });
    let mut w = new();
    let reuse = rng.flip();
    loop {
        if reuse {
            w.woken.store(false, Ordering::Relaxed);
        } else {
            w = new();
        }
        let waker = Waker::from(w.clone());
        match f(&mut Context::from_waker(&waker)) {
            Poll::Ready(true) => return,
            Poll::Ready(false) => {}
            Poll::Pending => {
                while !w.woken.swap(false, Ordering::Acquire) {
                    std::thread::park();
                }
            }
        }
        polled();
    }
}

/// Consumes a signal until its end, or until it delivers LAST. Returns the last value.
fn consume(mut s: Pin<Box<dyn Signal<Item = u64> + Send + '_>>, rng: &mut Rng) -> Option<u64> {
    let mut last = None;
    run(rng, |cx| match s.as_mut().poll_change(cx) {
        Poll::Ready(Some(x)) => {
            last = Some(x);
            Poll::Ready(x == LAST)
        }
        Poll::Ready(None) => Poll::Ready(true),
        Poll::Pending => Poll::Pending,
    });
    last
}


type Job = Box<dyn FnOnce() + Send>;

/// One short race of up to three threads; `after` runs when all of them are done.
struct Round {
    jobs: Vec<Job>,
    after: Job,
}

const THREADS: usize = 3;

/// Starting threads is expensive under Miri: the same threads run several rounds.
fn rounds(rng: &mut Rng, make: impl Fn(&mut Rng) -> Round) {
    let mut lists: Vec<Vec<Job>> = (0..THREADS).map(|_| vec![]).collect();
    let mut after = vec![];
    for _ in 0..12 {
        let mut r = make(rng);
        let first = rng.below(THREADS);
        for i in 0..THREADS {
            lists[(first + i) % THREADS].push(r.jobs.pop().unwrap_or_else(|| Box::new(|| ())));
        }
        assert!(r.jobs.is_empty());
        after.push(r.after);
    }
    let barrier = Barrier::new(THREADS);
    scope(|scope| {
        for list in lists {
            let barrier = &barrier;
            scope.spawn(move || {
                for job in list {
                    barrier.wait();
                    job();
                }
            });
        }
    });
    after.into_iter().for_each(|f| f());
}

type Slot = Arc<Mutex<Option<u64>>>;

fn listener(s: Pin<Box<dyn Signal<Item = u64> + Send>>, rng: &mut Rng, slot: &Slot) -> Job {
    let mut rng = rng.fork();
    let slot = slot.clone();
    Box::new(move || {
        let last = consume(s, &mut rng);
        *slot.lock().unwrap() = last;
    })
}

pub fn mutable_write(rng: &mut Rng) {
    mutable(rng, true)
}

pub fn mutable_end(rng: &mut Rng) {
    mutable(rng, false)
}

fn mutable(rng: &mut Rng, keep: bool) {
    rounds(rng, |rng| {
        let m = Mutable::new(0u64);
        let other = Mutable::new(7u64);
        let r = m.read_only();
        let keep = if keep { Some(m.clone()) } else { None };
        let slots: [Slot; 2] = Default::default();
        let mut jobs: Vec<Job> = vec![];
        let listeners = rng.range(1, 2);
        for slot in &slots[..listeners] {
            let s: Pin<Box<dyn Signal<Item = u64> + Send>> = match rng.below(4) {
                0 => Box::pin(r.signal_ref(|x| *x)),
                1 => Box::pin(r.signal_cloned().dedupe()),
                _ => Box::pin(r.signal()),
            };
            jobs.push(listener(s, rng, slot));
        }
        if listeners == 1 && keep.is_none() && rng.flip() {
            // Comes and goes, and may be the last one
            let (m, mut r) = (m.clone(), rng.fork());
            jobs.push(Box::new(move || {
                tick(&mut r);
                if r.flip() {
                    m.set(5);
                }
                tick(&mut r);
            }));
        }
        {
            let last = keep.is_some();
            let mut rng = rng.fork();
            jobs.push(Box::new(move || {
                let n = rng.range(1, 2) as u64;
                for v in 1..=n {
                    let v = if last && v == n { LAST } else { v };
                    match rng.below(6) {
                        0 => {
                            other.set(v);
                            m.swap(&other)
                        }
                        1 => *m.lock_mut() = v,
                        2 => drop(m.replace(v)),
                        3 => m.set_neq(v),
                        4 => m.set_if(v, |a, b| a != b),
                        _ => m.set(v),
                    }
                    tick(&mut rng);
                }
            }));
        }
        let after = Box::new(move || {
            for slot in &slots[..listeners] {
                if *slot.lock().unwrap() != Some(r.get()) {
                    fail("a signal of a Mutable ended without delivering its last value");
                }
            }
            drop(keep);
        });
        Round { jobs, after }
    });
}

pub fn channel_send(rng: &mut Rng) {
    channel(rng, true)
}

pub fn channel_end(rng: &mut Rng) {
    channel(rng, false)
}

fn channel(rng: &mut Rng, keep: bool) {
    rounds(rng, |rng| {
        let (sender, receiver) = new_channel(0u64);
        let mode = if keep { 0 } else { rng.range(1, 2) };
        let slot = Slot::default();
        let mut jobs = vec![listener(Box::pin(receiver), rng, &slot)];
        if rng.flip() {
            let s = sender.clone();
            let mut rng = rng.fork();
            jobs.push(Box::new(move || {
                // Never sends, only comes and goes
                tick(&mut rng);
                let t = s.clone();
                drop(s);
                tick(&mut rng);
                drop(t);
            }));
        }
        let n = rng.range(1, 2) as u64;
        let mut r = rng.fork();
        let kept = Arc::new(Mutex::new(None));
        {
            let kept = kept.clone();
            jobs.push(Box::new(move || {
                for i in 1..=n {
                    if sender.send(if i == n && mode == 0 { LAST } else { i }).is_err() {
                        fail("a send to an open channel failed");
                    }
                    tick(&mut r);
                }
                match mode {
                    // The receiver must see the last value while the sender is still there
                    0 => *kept.lock().unwrap() = Some(sender),
                    1 => sender.close(),
                    _ => drop(sender),
                }
            }));
        }
        let after = Box::new(move || {
            let want = if mode == 0 { LAST } else { n };
            if *slot.lock().unwrap() != Some(want) {
                fail("a channel ended without delivering the last value sent");
            }
            drop(kept);
        });
        Round { jobs, after }
    });
}

pub fn broadcaster(rng: &mut Rng) {
    rounds(rng, |rng| {
        let m = Mutable::new(0u64);
        let r = m.read_only();
        let b = Broadcaster::new(m.signal());
        let keep = if rng.flip() { Some(m.clone()) } else { None };
        let slots: [Slot; 2] = Default::default();
        let mut jobs: Vec<Job> = vec![];
        for slot in &slots {
            let (b, slot, mut rng) = (b.clone(), slot.clone(), rng.fork());
            jobs.push(Box::new(move || {
                let s: Pin<Box<dyn Signal<Item = u64> + Send>> = match rng.below(3) {
                    0 => Box::pin(b.signal_cloned()),
                    1 => Box::pin(b.signal_ref(|x| *x)),
                    _ => Box::pin(b.signal()),
                };
                if rng.flip() {
                    drop(b);
                }
                let last = consume(s, &mut rng);
                *slot.lock().unwrap() = last;
            }));
        }
        let (last, mut r2) = (keep.is_some(), rng.fork());
        jobs.push(Box::new(move || {
            let n = r2.range(1, 2) as u64;
            for i in 1..=n {
                tick(&mut r2);
                m.set(if last && i == n { LAST } else { i });
            }
        }));
        let after = Box::new(move || {
            for slot in &slots {
                if *slot.lock().unwrap() != Some(r.get()) {
                    fail("a child of a Broadcaster ended without delivering the last value of its input");
                }
            }
            drop(keep);
        });
        Round { jobs, after }
    });
}

pub fn cancelable(rng: &mut Rng) {
    struct Never(usize);
    impl Future for Never {
        type Output = u64;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<u64> {
            if self.0 > 0 {
                self.0 -= 1;
                cx.waker().wake_by_ref();
            }
            Poll::Pending
        }
    }
    rounds(rng, |rng| {
        let (handle, fut) = cancelable_future(Never(rng.below(3)), || 5);
        let mut r1 = rng.fork();
        let mut r2 = rng.fork();
        let jobs: Vec<Job> = vec![
            Box::new(move || {
                tick(&mut r1);
                drop(handle);
            }),
            Box::new(move || {
                let mut f = Box::pin(fut);
                run(&mut r2, |cx| match f.as_mut().poll(cx) {
                    Poll::Ready(x) => {
                        if x != 5 {
                            fail("a cancelled future did not resolve to the callback's result");
                        }
                        Poll::Ready(true)
                    }
                    Poll::Pending => Poll::Pending,
                });
            }),
        ];
        Round { jobs, after: Box::new(|| ()) }
    });
}
