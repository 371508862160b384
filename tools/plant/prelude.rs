#![allow(dead_code, unused_imports, unused_macros)]
use futures_signals::signal::{self, Mutable, Signal, SignalExt, Broadcaster, channel, always};
use futures_signals::signal_vec::{self, MutableVec, SignalVec, SignalVecExt, VecDiff};
use futures_signals::signal_map::{self, MutableBTreeMap, SignalMap, SignalMapExt, MapDiff};
use futures_signals::{cancelable_future, map_ref, map_mut};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, Condvar};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

/// Counts how often it is woken.
pub struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); }
}
pub fn count() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
impl Count { pub fn get(&self) -> usize { self.0.load(SeqCst) } }

/// Calls a function when it is woken.
pub struct Call<F>(F);
impl<F: Fn() + Send + Sync + 'static> Wake for Call<F> {
    fn wake(self: Arc<Self>) { (self.0)() }
}
pub fn call<F: Fn() + Send + Sync + 'static>(f: F) -> Waker { Waker::from(Arc::new(Call(f))) }

pub fn poll<S: Signal + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<S::Item>> {
    s.poll_change_unpin(&mut Context::from_waker(w))
}
pub fn poll_vec<S: SignalVec + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<VecDiff<S::Item>>> {
    s.poll_vec_change_unpin(&mut Context::from_waker(w))
}
pub fn poll_map<S: SignalMap + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
    Pin::new(s).poll_map_change(&mut Context::from_waker(w))
}

/// Applies all the diffs which are there to `list`, returns whether it ended.
pub fn sync<S: SignalVec + Unpin>(s: &mut S, list: &mut Vec<S::Item>) -> bool {
    let (_, w) = count();
    loop {
        match poll_vec(s, &w) {
            Poll::Ready(Some(d)) => d.apply_to_vec(list),
            Poll::Ready(None) => return true,
            Poll::Pending => return false,
        }
    }
}

pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        eprintln!("FAILED: does not finish");
        std::process::exit(3);
    });
}

/// A signal under control of the test.
pub struct Script<T> { pub next: std::collections::VecDeque<Poll<Option<T>>> }
impl<T> Unpin for Script<T> {}
impl<T> Signal for Script<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<T>> {
        self.next.pop_front().unwrap_or(Poll::Pending)
    }
}
pub struct VecScript<T> { pub next: std::collections::VecDeque<Poll<Option<VecDiff<T>>>> }
impl<T> Unpin for VecScript<T> {}
impl<T> SignalVec for VecScript<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.next.pop_front().unwrap_or(Poll::Pending)
    }
}

/// Counts how many are alive.
#[derive(Debug)]
pub struct Live(Arc<AtomicUsize>);
impl Live { pub fn new(n: &Arc<AtomicUsize>) -> Self { n.fetch_add(1, SeqCst); Live(n.clone()) } }
impl Clone for Live { fn clone(&self) -> Self { Live::new(&self.0) } }
impl Drop for Live { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }

// ---------------------------------------------------------------------------
