//! cancelable_future: the handle is discarded, dropped or leaked while the future is polled and completed.

use super::*;
use crate::sched::point;
use crate::util::{Ledger, Tracked};
use discard::{Discard, DiscardOnDrop};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::task::Waker;

struct Inner {
    _tracked: Tracked,
    state: Arc<InnerState>,
}

#[derive(Default)]
struct InnerState {
    ready: AtomicBool,
    waker: Mutex<Option<Waker>>,
    polls: AtomicU64,
    last_poll: AtomicU64,
    finished: AtomicBool,
    poll_after_finish: AtomicBool,
    dropped: AtomicBool,
    /// The inner future itself cancels during its n-th poll
    handle: Mutex<Option<(u64, DiscardOnDrop<CancelableFutureHandle>)>>,
    discarded: Mutex<Option<(u64, u64)>>,
}

impl Future for Inner {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<u64> {
        let s = &self.state;
        s.polls.fetch_add(1, Ordering::SeqCst);
        s.last_poll.store(sched::now(), Ordering::SeqCst);
        point("inner poll");
        if s.finished.load(Ordering::SeqCst) {
            s.poll_after_finish.store(true, Ordering::SeqCst);
        }
        *s.waker.lock().unwrap() = Some(cx.waker().clone());
        let handle = {
            let mut h = s.handle.lock().unwrap();
            if h.as_ref().map_or(false, |h| h.0 <= s.polls.load(Ordering::SeqCst)) { h.take() } else { None }
        };
        if let Some((_, h)) = handle {
            let call = sched::now();
            drop(h);
            *s.discarded.lock().unwrap() = Some((call, sched::now()));
        }
        point("inner poll");
        if s.ready.load(Ordering::SeqCst) {
            s.finished.store(true, Ordering::SeqCst);
            Poll::Ready(1)
        } else {
            Poll::Pending
        }
    }
}

impl Drop for Inner {
    fn drop(&mut self) {
        self.state.dropped.store(true, Ordering::SeqCst);
    }
}

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let ledger = Ledger::new();
    let inner = Arc::new(InnerState::default());
    let calls = Arc::new(AtomicU64::new(0));
    let alive_in_callback = Arc::new(AtomicBool::new(false));
    // (start, end) of discarding
    let discarded: Shared<Option<(u64, u64)>> = shared(None);
    let completed: Shared<Option<u64>> = shared(None);
    let out: Shared<Option<(u64, u64, u64, bool)>> = shared(None);
    let log: Shared<Log<u64>> = shared(Log { name: "executor".into(), ..Log::default() });
    let last_poll_call = Arc::new(AtomicU64::new(0));

    let (handle, fut) = {
        let calls = calls.clone();
        let t = Tracked::new(7, &ledger);
        let state = inner.clone();
        let alive_in_callback = alive_in_callback.clone();
        cancelable_future(
            Inner { _tracked: Tracked::new(6, &ledger), state: inner.clone() },
            move || {
                t.get();
                if !state.dropped.load(Ordering::SeqCst) {
                    alive_in_callback.store(true, Ordering::SeqCst);
                }
                calls.fetch_add(1, Ordering::SeqCst);
                point("callback");
                2
            },
        )
    };

    let mut tasks = vec![];
    let mode = rng.below(7);
    let completes = rng.chance(1, 2);
    let mut opts = Opts::random(&mut rng);
    opts.quit_after = usize::MAX;
    let drop_early = rng.chance(1, 10);

    if mode == 6 {
        *inner.handle.lock().unwrap() = Some((rng.range(1, 3) as u64, handle));
    } else {
        let discarded = discarded.clone();
        tasks.push(task("canceller", move || {
            if mode == 0 {
                std::mem::forget(discard::DiscardOnDrop::leak(handle));
                return;
            }
            if mode > 3 {
                point("wait");
                point("wait");
            }
            let call = sched::now();
            match mode {
                1 => drop(handle),
                2 => discard::DiscardOnDrop::leak(handle).discard(),
                _ => drop(handle),
            }
            *discarded.lock().unwrap() = Some((call, sched::now()));
        }));
    }

    if completes {
        let inner = inner.clone();
        let completed = completed.clone();
        tasks.push(task("completer", move || {
            point("wait");
            inner.ready.store(true, Ordering::SeqCst);
            *completed.lock().unwrap() = Some(sched::now());
            point("ready");
            let w = inner.waker.lock().unwrap().take();
            if let Some(w) = w {
                w.wake();
            }
        }));
    }

    {
        let log = log.clone();
        let out = out.clone();
        let last = last_poll_call.clone();
        let inner = inner.clone();
        let discarded = discarded.clone();
        tasks.push(task("executor", move || {
            let mut fut = Box::pin(fut);
            if drop_early {
                opts.quit_after = 0;
            }
            let mut bad = false;
            consume(&log, &mut opts, |cx| {
                let call = sched::now();
                last.store(call, Ordering::SeqCst);
                let was = discarded.lock().unwrap().or(*inner.discarded.lock().unwrap()).map(|d| d.1 < call).unwrap_or(false);
                let polls = inner.polls.load(Ordering::SeqCst);
                match fut.as_mut().poll(cx) {
                    Poll::Ready(v) => {
                        if was && inner.polls.load(Ordering::SeqCst) != polls {
                            bad = true;
                        }
                        *out.lock().unwrap() = Some((call, sched::now(), v, bad || inner.dropped.load(Ordering::SeqCst)));
                        Poll::Ready(None)
                    }
                    Poll::Pending => {
                        if was {
                            bad = true;
                        }
                        Poll::Pending
                    }
                }
            });
            if bad {
                out.lock().unwrap().get_or_insert((0, 0, 99, false)).2 = 99;
            }
            drop(fut);
        }));
    }

    let (ok, _) = execute(case, &mut rng, tasks, &["C08", "C10"]);
    if !ok {
        return;
    }
    let discarded = discarded.lock().unwrap().or(*inner.discarded.lock().unwrap());
    // If it never was polled often enough
    drop(inner.handle.lock().unwrap().take());
    let completed = *completed.lock().unwrap();
    let out = *out.lock().unwrap();
    let calls = calls.load(Ordering::SeqCst);
    let l = log.lock().unwrap();
    case.count("polls", l.polls);
    case.count("operations", 1);
    case.note(|| format!("discarded {:?} completed {:?} output (call, return, value, inner dropped) {:?} callback calls {} quit {}", discarded, completed, out, calls, l.quit));
    if let Some((_, _, v, _)) = out {
        case.count(if v == 1 { "inner_outputs" } else { "cancellations" }, 1);
    }

    if inner.poll_after_finish.load(Ordering::SeqCst) {
        case.fail(&["C08"], "the inner future was polled after it had finished");
    }
    if alive_in_callback.load(Ordering::SeqCst) {
        case.fail(&["C08"], "the inner future was alive when the callback ran");
    }
    if calls > 1 {
        case.fail(&["C08"], "the callback was called more than once");
    }
    match out {
        None => {
            if calls != 0 {
                case.fail(&["C08"], "the callback was called but the future did not resolve");
            }
            if !l.quit {
                if discarded.is_some() {
                    case.fail(&["C08"], "the future was cancelled but is asleep for ever");
                } else if completed.is_some() {
                    case.fail(&["C08"], "the inner future was completed but the future is asleep");
                }
            }
        }
        Some((call, ret, v, inner_dropped)) => match v {
            1 => {
                if calls != 0 {
                    case.fail(&["C08"], "the inner output was returned and the callback was called");
                }
                if let Some((_, dret)) = discarded {
                    if dret < call {
                        case.fail(&["C08"], "the inner output was returned by a poll which began after the cancellation");
                    }
                }
                if completed.is_none() {
                    case.fail(&["C08"], "the inner output was returned without having been completed");
                }
            }
            2 => {
                if calls != 1 {
                    case.fail(&["C08"], "resolved as cancelled without calling the callback once");
                }
                if !inner_dropped {
                    case.fail(&["C08"], "the inner future is alive after the cancellation");
                }
                match discarded {
                    None => case.fail(&["C08"], "resolved as cancelled although nobody cancelled"),
                    Some((dcall, _)) if ret < dcall => case.fail(&["C08"], "resolved as cancelled before it was cancelled"),
                    _ => {}
                }
            }
            99 => case.fail(&["C08"], "a poll which began after the cancellation polled the inner future or did not resolve"),
            _ => {}
        },
    }
    drop(l);
    if let Some(v) = ledger.verdict() {
        case.fail(&["C08", "C09"], v);
    }
}
