//! Values, wakers, futures and streams which own heap memory and are counted.

use crate::rng::Rng;
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_map::SignalMap;
use futures_signals::signal_vec::SignalVec;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

static LIVE: AtomicI64 = AtomicI64::new(0);
static WAKERS: AtomicI64 = AtomicI64::new(0);
static MADE: AtomicU64 = AtomicU64::new(0);
static WRONG: std::sync::Mutex<Option<&'static str>> = std::sync::Mutex::new(None);
static BAD: AtomicU64 = AtomicU64::new(0);
static POLLS: AtomicU64 = AtomicU64::new(0);
static ITEMS: AtomicU64 = AtomicU64::new(0);
static WAKES: AtomicU64 = AtomicU64::new(0);

pub fn begin() {
    FUSE.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    WAKERS.store(0, Relaxed);
}

pub fn verdict() -> Option<String> {
    let mut live = LIVE.load(Relaxed);
    if burnt() {
        // What is left over by a panic is not lost memory, but nothing may be dropped twice
        live = live.min(0);
    }
    let wakers = WAKERS.load(Relaxed);
    let bad = BAD.swap(0, Relaxed);
    if let Some(wrong) = WRONG.lock().unwrap().take() {
        Some(wrong.to_string())
    } else if bad > 0 {
        Some(format!("{} values were corrupt", bad))
    } else if live != 0 {
        Some(format!("{} values are left after everything was dropped", live))
    } else if wakers != 0 && !(burnt() && wakers > 0) {
        Some(format!("{} wakers are left after everything was dropped", wakers))
    } else {
        None
    }
}

/// Steps until the code of the program panics (once), 0: it does not. It can only while something is allowed to.
static FUSE: AtomicI64 = AtomicI64::new(0);
static ARMED: AtomicI64 = AtomicI64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);

pub fn panics() -> u64 {
    PANICS.load(Relaxed)
}

pub fn set_fuse(n: i64) {
    FUSE.store(n, Relaxed);
}

pub fn burnt() -> bool {
    FUSE.load(Relaxed) < 0
}

/// Code of the program which is called by the crate. Only used by programs of one thread.
pub fn fuse() {
    if ARMED.load(Relaxed) > 0 {
        let n = FUSE.load(Relaxed);
        if n > 0 {
            FUSE.store(n - 1, Relaxed);
            if n == 1 {
                FUSE.store(-1, Relaxed);
                PANICS.fetch_add(1, Relaxed);
                panic!("FUSE");
            }
        }
    }
}

/// Runs code which might panic (because of the fuse, or afterwards because a lock is poisoned).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    ARMED.fetch_add(1, Relaxed);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.fetch_sub(1, Relaxed);
    match x {
        Ok(x) => Some(x),
        Err(e) => {
            if !burnt() {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}

/// Reports a wrong result of the program.
pub fn fail(what: &'static str) {
    *WRONG.lock().unwrap() = Some(what);
}

pub fn polled() {
    POLLS.fetch_add(1, Relaxed);
}

pub fn totals() -> (u64, u64, u64, u64) {
    (MADE.load(Relaxed), POLLS.load(Relaxed), ITEMS.load(Relaxed), WAKES.load(Relaxed))
}

/// Owns memory which is written before it is shared, and read by whoever gets it.
pub struct Val {
    pub id: u64,
    heap: Vec<u64>,
}

impl Val {
    pub fn new(id: u64) -> Val {
        LIVE.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
        Val { id, heap: vec![id, !id] }
    }
    pub fn check(&self) -> u64 {
        fuse();
        self.sound()
    }
    fn sound(&self) -> u64 {
        if self.heap.len() != 2 || self.heap[0] != self.id || self.heap[1] != !self.id {
            BAD.fetch_add(1, Relaxed);
        }
        self.id
    }
    pub fn change(&mut self, id: u64) {
        self.check();
        self.id = id;
        self.heap[0] = id;
        self.heap[1] = !id;
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        fuse();
        Val::new(self.check())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.sound();
        self.heap[0] = 1;
        self.heap[1] = 1;
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        fuse();
        self.check() == o.check()
    }
}
impl Eq for Val {}
impl PartialOrd for Val {
    fn partial_cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Val {
    fn cmp(&self, o: &Val) -> std::cmp::Ordering {
        fuse();
        self.check().cmp(&o.check())
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.check())
    }
}
impl std::iter::Sum for Val {
    fn sum<I: Iterator<Item = Val>>(i: I) -> Val {
        fuse();
        Val::new(i.map(|x| x.check()).fold(0, |a, b| a.wrapping_add(b)))
    }
}
impl<'a> std::iter::Sum<&'a Val> for Val {
    fn sum<I: Iterator<Item = &'a Val>>(i: I) -> Val {
        fuse();
        Val::new(i.map(|x| x.check()).fold(0, |a, b| a.wrapping_add(b)))
    }
}

pub struct W {
    heap: Vec<u64>,
    hits: AtomicU64,
}

impl W {
    pub fn new() -> Arc<W> {
        WAKERS.fetch_add(1, Relaxed);
        Arc::new(W { heap: vec![3], hits: AtomicU64::new(0) })
    }
    pub fn hits(&self) -> u64 {
        self.hits.load(Relaxed)
    }
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.heap[0] != 3 {
            BAD.fetch_add(1, Relaxed);
        }
        WAKES.fetch_add(1, Relaxed);
        fuse();
        self.hits.fetch_add(1, Relaxed);
    }
}
impl Drop for W {
    fn drop(&mut self) {
        self.heap[0] = 4;
        WAKERS.fetch_sub(1, Relaxed);
    }
}

pub fn tick(rng: &mut Rng) {
    match rng.below(8) {
        0 | 1 => std::thread::yield_now(),
        2 => {
            for _ in 0..rng.below(60) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// A task: polls what it is given, with the same or a fresh waker.
pub struct Poller {
    w: Arc<W>,
}

impl Poller {
    pub fn new() -> Poller {
        Poller { w: W::new() }
    }
    /// None: pending, Some(true): an item, Some(false): the end
    pub fn poll<T>(&mut self, rng: &mut Rng, f: impl FnOnce(&mut Context) -> Poll<Option<T>>) -> Option<Option<T>> {
        if rng.chance(1, 3) {
            self.w = W::new();
        }
        POLLS.fetch_add(1, Relaxed);
        let waker: Waker = self.w.clone().into();
        match f(&mut Context::from_waker(&waker)) {
            Poll::Ready(x) => {
                ITEMS.fetch_add(1, Relaxed);
                Some(x)
            }
            Poll::Pending => None,
        }
    }
}

/// Polls up to n times, until the end.
pub fn run_signal<S: Signal + ?Sized>(mut s: Pin<&mut S>, n: usize, rng: &mut Rng, mut see: impl FnMut(S::Item)) -> bool {
    let mut p = Poller::new();
    for _ in 0..n {
        match p.poll(rng, |cx| s.as_mut().poll_change(cx)) {
            Some(Some(v)) => see(v),
            Some(None) => return true,
            None => tick(rng),
        }
    }
    false
}

pub fn run_vec<S: SignalVec + ?Sized>(mut s: Pin<&mut S>, n: usize, rng: &mut Rng, list: &mut Vec<S::Item>) -> bool {
    let mut p = Poller::new();
    for _ in 0..n {
        match p.poll(rng, |cx| s.as_mut().poll_vec_change(cx)) {
            Some(Some(d)) => d.apply_to_vec(list),
            Some(None) => return true,
            None => tick(rng),
        }
    }
    false
}

pub fn run_map<S: SignalMap + ?Sized>(mut s: Pin<&mut S>, n: usize, rng: &mut Rng, mut see: impl FnMut(S::Key, S::Value)) -> bool
where
    S::Key: Ord,
{
    use futures_signals::signal_map::MapDiff;
    let mut p = Poller::new();
    for _ in 0..n {
        match p.poll(rng, |cx| s.as_mut().poll_map_change(cx)) {
            Some(Some(MapDiff::Replace { entries })) => entries.into_iter().for_each(|(k, v)| see(k, v)),
            Some(Some(MapDiff::Insert { key, value })) | Some(Some(MapDiff::Update { key, value })) => see(key, value),
            Some(Some(_)) => {}
            Some(None) => return true,
            None => tick(rng),
        }
    }
    false
}

pub fn run_future<F: Future>(mut s: Pin<&mut F>, n: usize, rng: &mut Rng) -> Option<F::Output> {
    let mut p = Poller::new();
    for _ in 0..n {
        match p.poll(rng, |cx| s.as_mut().poll(cx).map(Some)) {
            Some(x) => return x,
            None => tick(rng),
        }
    }
    None
}

pub fn run_stream<S: Stream>(mut s: Pin<&mut S>, n: usize, rng: &mut Rng) -> bool {
    let mut p = Poller::new();
    for _ in 0..n {
        match p.poll(rng, |cx| s.as_mut().poll_next(cx)) {
            Some(Some(_)) => {}
            Some(None) => return true,
            None => tick(rng),
        }
    }
    false
}

/// Pending that many times (waking its task), with a reference into itself across the awaits.
pub async fn delayed(val: Val, n: usize) -> Val {
    let local = val;
    let inner = [local.check(), 1];
    let part = &inner[0];
    let reference = &local;
    fuse();
    for _ in 0..n {
        Yield(false).await;
        fuse();
        if reference.check() != *part {
            BAD.fetch_add(1, Relaxed);
        }
    }
    local
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// A stream of n values with such futures in between
pub fn stream(n: usize, gap: usize) -> impl Stream<Item = Val> {
    futures_util::stream::unfold(0, move |i| async move {
        let v = delayed(Val::new(i as u64), gap).await;
        if i < n {
            Some((v, i + 1))
        } else {
            None
        }
    })
}
