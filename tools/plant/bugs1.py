M = "src/signal/mutable.rs"; CH = "src/signal/channel.rs"; B = "src/signal/broadcaster.rs"
F = "src/future.rs"; A = "src/atomic.rs"; S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; P = "src/signal_map.rs"

bug("c01-wake-before-changed", "C01", M, ("""            let mut lock = self.waker.lock().unwrap();

            if changed {
                self.changed.store(true, Ordering::SeqCst);
            }

            lock.take()
        };

        if let Some(waker) = waker {
            waker.wake();
        }
""", """            self.waker.lock().unwrap().take()
        };

        if let Some(waker) = waker {
            waker.wake();
        }

        if changed {
            self.changed.store(true, Ordering::SeqCst);
        }
"""), "a task which is polled by another thread between the wake and the flag being set",
"the woken task finds nothing changed, goes to sleep again and is never woken for the last value", r"""
fn main() {
    watchdog(60);
    let m = Mutable::new(1);
    let s = Arc::new(Mutex::new(m.signal()));
    let (c, w) = count();
    assert_eq!(poll(&mut *s.lock().unwrap(), &w), Poll::Ready(Some(1)));
    let seen: Arc<Mutex<Option<i32>>> = Arc::new(Mutex::new(Some(1)));
    let s2 = s.clone(); let c2 = w.clone(); let seen2 = seen.clone();
    let (tx, rx) = mpsc::channel::<()>();
    let (dtx, drx) = mpsc::channel::<()>();
    let t = std::thread::spawn(move || {
        rx.recv().unwrap();
        if let Poll::Ready(Some(v)) = poll(&mut *s2.lock().unwrap(), &c2) { *seen2.lock().unwrap() = Some(v); }
        let _ = dtx.send(());
    });
    let tx = Mutex::new(tx); let drx = Mutex::new(drx);
    let waker = call(move || {
        let _ = tx.lock().unwrap().send(());
        let _ = drx.lock().unwrap().recv_timeout(Duration::from_millis(500));
    });
    assert_eq!(poll(&mut *s.lock().unwrap(), &waker), Poll::Pending);
    m.set(2);
    t.join().unwrap();
    let v = *seen.lock().unwrap();
    if v != Some(2) {
        // It has gone to sleep again, so it must be woken
        assert!(c.get() > 0, "asleep with an old value");
    }
}
""")

bug("c01-set-waker-will-wake", "C01", M, [("""        *self.waker.lock().unwrap() = Some(cx.waker().clone());
""", """        let mut lock = self.waker.lock().unwrap();

        if lock.is_none() {
            *lock = Some(cx.waker().clone());
        }
""")], "polling again with a different waker before any change, e.g. a signal moved to another task",
"it keeps the first waker, the task which polled last is not woken", r"""
fn main() {
    let m = Mutable::new(1);
    let mut s = m.signal();
    let (_, w1) = count(); let (c2, w2) = count();
    assert!(poll(&mut s, &w1).is_ready());
    assert!(poll(&mut s, &w1).is_pending());
    assert!(poll(&mut s, &w2).is_pending());
    m.set(2);
    assert_eq!(c2.get(), 1, "the task which polled last is not woken");
}
""")

bug("c02-notify-before-decrement", "C02", M, ("""        let old_senders = state.senders.fetch_sub(1, Ordering::SeqCst);

        if old_senders == 1 {
            let mut lock = state.lock.write().unwrap();

            if lock.signals.len() > 0 {
                lock.notify(false);
                // TODO is this necessary ?
                lock.signals = vec![];
            }
        }
""", """        if state.senders.load(Ordering::SeqCst) == 1 {
            let mut lock = state.lock.write().unwrap();

            if lock.signals.len() > 0 {
                lock.notify(false);
                // TODO is this necessary ?
                lock.signals = vec![];
            }
        }

        state.senders.fetch_sub(1, Ordering::SeqCst);
"""), "two last clones dropped concurrently, or a task polled between its wake and the decrement",
"the signal isn't woken for the end (both see two senders), or finds a sender still there and sleeps forever", r"""
fn main() {
    watchdog(60);
    let m = Mutable::new(1);
    let s = Arc::new(Mutex::new(m.signal()));
    let (c, w) = count();
    assert_eq!(poll(&mut *s.lock().unwrap(), &w), Poll::Ready(Some(1)));
    let s2 = s.clone(); let ended = Arc::new(AtomicBool::new(false)); let ended2 = ended.clone();
    let waker = call(move || {
        if let Poll::Ready(None) = poll(&mut *s2.lock().unwrap(), &w) { ended2.store(true, SeqCst) }
    });
    assert!(poll(&mut *s.lock().unwrap(), &waker).is_pending());
    drop(m);
    assert!(ended.load(SeqCst) || c.get() > 0, "not woken for the end");
}
""")

bug("c02-readonly-last", "C02", M, ("""    pub fn read_only(&self) -> ReadOnlyMutable<A> {
        self.0.clone()
    }""", """    pub fn read_only(&self) -> ReadOnlyMutable<A> {
        ReadOnlyMutable(std::mem::ManuallyDrop::new(self.clone()).0.0.clone())
    }"""), "a read-only handle made at any time, and all the Mutables dropped",
"creating a read-only handle counts as a sender (and leaks), so that the signals never end", r"""
fn main() {
    let m = Mutable::new(1);
    let r = m.read_only();
    let mut s = r.signal();
    let (_, w) = count();
    assert!(poll(&mut s, &w).is_ready());
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

bug("c03-set-if-toctou", "C03", M, ("""        let mut state = self.state().lock.write().unwrap();

        if f(&state.value, &value) {
            state.value = value;
            state.notify(true);
        }
""", """        let is_set = f(&self.state().lock.read().unwrap().value, &value);

        if is_set {
            let mut state = self.state().lock.write().unwrap();

            state.value = value;
            state.notify(true);
        }
"""), "another write between the test of set_if and its write",
"set_if overwrites a value which its test never saw (a lost update)", r"""
fn main() {
    watchdog(60);
    // set_if(max) from several threads must end with the maximum
    for round in 0..3000 {
        let m = Mutable::new(0);
        let barrier = Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|i| { let m = m.clone(); let b = barrier.clone(); std::thread::spawn(move || {
            b.wait();
            for j in 0..20 { m.set_if(j * 4 + i, |old, new| { std::hint::spin_loop(); if j % 5 == 0 { std::thread::yield_now(); } new > old }); }
        })}).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(m.get(), 79, "lost the maximum in round {}", round);
    }
}
""")

bug("c03-replace-with-two-locks", "C03", M, ("""        let mut state = self.state().lock.write().unwrap();

        let new_value = f(&mut state.value);
        let value = std::mem::replace(&mut state.value, new_value);

        state.notify(true);

        value
""", """        let new_value = f(&mut self.state().lock.write().unwrap().value);

        self.replace(new_value)
"""), "another write between the closure of replace_with and storing its result",
"replace_with isn't atomic, updates are lost", r"""
fn main() {
    watchdog(60);
    for round in 0..2000 {
        let m = Mutable::new(0);
        let barrier = Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let m = m.clone(); let b = barrier.clone(); std::thread::spawn(move || {
            b.wait();
            for _ in 0..50 { m.replace_with(|x| *x + 1); }
        })}).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(m.get(), 200, "lost an update in round {}", round);
    }
}
""")

bug("c04-lock-mut-deref-notifies", "C04", M, ("""    #[inline]
    fn deref(&self) -> &Self::Target {
        &self.lock.value
    }
}

impl<'a, A> DerefMut for MutableLockMut<'a, A> {
    #[inline]
    fn deref_mut(&mut self) -> &mut Self::Target {
        self.mutated = true;
        &mut self.lock.value
    }
}
""", """    #[inline]
    fn deref(&self) -> &Self::Target {
        &self.lock.value
    }
}

impl<'a, A> DerefMut for MutableLockMut<'a, A> {
    #[inline]
    fn deref_mut(&mut self) -> &mut Self::Target {
        self.mutated = !self.mutated;
        &mut self.lock.value
    }
}
"""), "an even number of mutable dereferences of one lock_mut guard",
"the changes made through the guard are not notified", r"""
fn main() {
    let m = Mutable::new(vec![1]);
    let mut s = m.signal_cloned();
    let (_, w) = count();
    assert!(poll(&mut s, &w).is_ready());
    { let mut l = m.lock_mut(); l.push(2); l.push(3); }
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(vec![1, 2, 3])));
}
""")

bug("c05-notify-before-store", "C05", CH, ("""                inner.value.store(Some(value));
                inner.notify();
                Ok(())
""", """                inner.notify();
                inner.value.store(Some(value));
                Ok(())
"""), "the receiver polled by another thread between the wake and the store",
"the receiver sleeps forever although a newer value was sent", r"""
fn main() {
    let (tx, rx) = channel(1);
    let rx = Arc::new(Mutex::new(rx));
    let (c, w) = count();
    assert_eq!(poll(&mut *rx.lock().unwrap(), &w), Poll::Ready(Some(1)));
    let rx2 = rx.clone(); let got = Arc::new(Mutex::new(None)); let got2 = got.clone();
    let waker = call(move || { if let Poll::Ready(v) = poll(&mut *rx2.lock().unwrap(), &w) { *got2.lock().unwrap() = v; } });
    assert!(poll(&mut *rx.lock().unwrap(), &waker).is_pending());
    tx.send(2).unwrap();
    let v = *got.lock().unwrap();
    assert!(v == Some(2) || c.get() > 0, "asleep without the last value");
}
""")

bug("c06-close-wakes-first", "C06", CH, ("""            if inner.has_senders() {
                inner.remove_all_senders();
                inner.notify();
            }
""", """            if inner.has_senders() {
                inner.notify();
                inner.remove_all_senders();
            }
"""), "the receiver polled by another thread between the wake and the close",
"the receiver is never woken for the end", r"""
fn main() {
    let (tx, rx) = channel(1);
    let rx = Arc::new(Mutex::new(rx));
    let (c, w) = count();
    assert_eq!(poll(&mut *rx.lock().unwrap(), &w), Poll::Ready(Some(1)));
    let rx2 = rx.clone(); let got = Arc::new(AtomicBool::new(false)); let got2 = got.clone();
    let waker = call(move || { if let Poll::Ready(None) = poll(&mut *rx2.lock().unwrap(), &w) { got2.store(true, SeqCst) } });
    assert!(poll(&mut *rx.lock().unwrap(), &waker).is_pending());
    tx.close();
    assert!(got.load(SeqCst) || c.get() > 0, "asleep although it was closed");
}
""")

bug("c06-send-after-close", "C06", CH, ("""            if inner.has_senders() {
                inner.value.store(Some(value));
                inner.notify();
                Ok(())

            } else {
                Err(value)
            }
""", """            inner.value.store(Some(value));
            inner.notify();
            Ok(())
"""), "a send from a clone after another clone closed the channel, while the receiver is alive",
"the send succeeds although the channel is closed", r"""
fn main() {
    let (tx, mut rx) = channel(1);
    let tx2 = tx.clone();
    let (_, w) = count();
    assert!(poll(&mut rx, &w).is_ready());
    tx.close();
    assert_eq!(tx2.send(5), Err(5));
    assert_eq!(poll(&mut rx, &w), Poll::Ready(None));
}
""")

bug("c07-notify-skips-after-dropped", "C07", B, ("""        lock.retain(|waker| {
            if let Some(waker) = waker.upgrade() {
                waker.wake(false);
                true

            } else {
                false
            }
        });
""", """        let mut is_dead = false;

        for waker in lock.iter() {
            if let Some(waker) = waker.upgrade() {
                waker.wake(false);

            } else {
                is_dead = true;
                break;
            }
        }

        if is_dead {
            lock.retain(|waker| waker.strong_count() > 0);
        }
"""), "an earlier child dropped before the input changes, and a later sleeping one",
"the children after the dropped one are not woken for that change", r"""
fn main() {
    let m = Mutable::new(1);
    let b = Broadcaster::new(m.signal());
    let a = b.signal();
    let mut s = b.signal();
    let (c, w) = count();
    assert!(poll(&mut s, &w).is_ready());
    assert!(poll(&mut s, &w).is_pending());
    drop(a);
    m.set(2);
    assert_eq!(c.get(), 1, "not woken");
}
""")

bug("c08-wake-before-cancel", "C08", F, ("""            let mut lock = state.waker.lock().unwrap();

            // TODO verify that this is correct
            state.is_cancelled.store(true, Ordering::SeqCst);

            if let Some(waker) = lock.take() {
                drop(lock);
                waker.wake();
            }
""", """            let mut lock = state.waker.lock().unwrap();

            if let Some(waker) = lock.take() {
                drop(lock);
                waker.wake();
            }

            // TODO verify that this is correct
            state.is_cancelled.store(true, Ordering::SeqCst);
"""), "the future polled by another thread between the wake and the flag being set",
"the cancellation is never observed, the future sleeps forever", r"""
fn main() {
    let (handle, fut) = cancelable_future(std::future::pending::<i32>(), || 7);
    let fut = Arc::new(Mutex::new(Box::pin(fut)));
    let (c, w) = count();
    let f2 = fut.clone(); let got = Arc::new(Mutex::new(None)); let got2 = got.clone();
    let waker = call(move || {
        if let Poll::Ready(v) = f2.lock().unwrap().as_mut().poll(&mut Context::from_waker(&w)) { *got2.lock().unwrap() = Some(v); }
    });
    assert!(fut.lock().unwrap().as_mut().poll(&mut Context::from_waker(&waker)).is_pending());
    drop(handle);
    let v = *got.lock().unwrap();
    assert!(v == Some(7) || c.get() > 0, "the cancellation is lost");
}
""")

bug("c08-inner-dropped-late", "C08", F, ("""            future.set(None);
            let callback = when_cancelled.take().unwrap();
            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
            Poll::Ready(callback())
""", """            let callback = when_cancelled.take().unwrap();
            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
            let output = callback();
            future.set(None);
            Poll::Ready(output)
"""), "a callback which depends on the inner future having been dropped (or which panics)",
"the callback runs while the inner future is still alive", r"""
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let live = Live::new(&n);
    let n2 = n.clone();
    let (handle, fut) = cancelable_future(async move { let _l = live; std::future::pending::<usize>().await }, move || n2.load(SeqCst));
    let mut fut = Box::pin(fut);
    let (_, w) = count();
    assert!(fut.as_mut().poll(&mut Context::from_waker(&w)).is_pending());
    drop(handle);
    assert_eq!(fut.as_mut().poll(&mut Context::from_waker(&w)), Poll::Ready(0), "the inner future is alive in the callback");
}
""")

bug("c09-take-load-then-store", "C09", A, ("""        let new_ptr = Self::to_ptr(value);
        let old_ptr = self.ptr.swap(new_ptr, Ordering::AcqRel);
        Self::from_ptr(old_ptr)
""", """        let new_ptr = Self::to_ptr(value);
        let old_ptr = self.ptr.load(Ordering::Acquire);

        // This avoids writing to the shared cache line if nothing changes
        if old_ptr != new_ptr {
            self.ptr.store(new_ptr, Ordering::Release);
        }

        Self::from_ptr(old_ptr)
"""), "two threads swapping at the same time (senders and the receiver)",
"both take the same value: double free", r"""
fn main() {
    watchdog(100);
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..200 {
        let (tx, rx) = channel(Live::new(&n));
        let ts: Vec<_> = (0..4).map(|_| { let tx = tx.clone(); let n = n.clone(); std::thread::spawn(move || {
            for _ in 0..500 { let _ = tx.send(Live::new(&n)); }
        })}).collect();
        for t in ts { t.join().unwrap(); }
        drop(tx); drop(rx);
        assert_eq!(n.load(SeqCst), 0, "leaked or dropped twice");
    }
}
""")

bug("c09-box-leak", "C09", A, ("""            unsafe { Some(*Box::from_raw(ptr)) }
        }
    }

    #[inline]
    pub(crate) fn new(""", """            // The value is moved out, so the box must not drop it
            unsafe { Some(std::ptr::read(std::mem::ManuallyDrop::new(Box::from_raw(ptr)).as_ref())) }
        }
    }

    #[inline]
    pub(crate) fn new("""), "any value which is taken; only visible to an allocation check since the values themselves are dropped",
"the memory of the box of each received or replaced value leaks", r"""
use std::alloc::{GlobalAlloc, Layout, System};
struct Counting; static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: Counting = Counting;
fn main() {
    let before = BYTES.load(SeqCst);
    { let (tx, mut rx) = channel([0u8; 64]); let (_, w) = count(); for _ in 0..100 { let _ = tx.send([1; 64]); let _ = poll(&mut rx, &w); } }
    let after = BYTES.load(SeqCst);
    assert_eq!(before, after, "memory leaks");
}
""")

bug("c10-broadcaster-new-locks-inner", "C10", B, ("""            let mut lock = shared_state.notifier.wakers.lock().unwrap();
            lock.push(Arc::downgrade(&waker));
""", """            let mut lock = shared_state.notifier.wakers.lock().unwrap();

            // It can't be woken up after it has ended
            if shared_state.inner.read().unwrap().signal.is_some() {
                lock.push(Arc::downgrade(&waker));
            }
"""), "a child created while another child polls and the input notifies, in three threads",
"lock order cycle: polling child -> input -> notifier wakers -> inner state", r"""
struct Slow { go: Mutex<mpsc::Sender<()>>, back: Mutex<mpsc::Receiver<()>>, n: usize }
impl Unpin for Slow {}
impl Signal for Slow { type Item = usize; fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<usize>> {
    self.n += 1;
    if self.n == 2 {
        let _ = self.go.lock().unwrap().send(());
        let _ = self.back.lock().unwrap().recv();
        std::thread::sleep(Duration::from_millis(300));
        // The input changes while it is polled
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    if self.n > 2 { Poll::Pending } else { Poll::Ready(Some(self.n)) }
} }
fn main() {
    watchdog(20);
    let (go, gone) = mpsc::channel(); let (back, backed) = mpsc::channel();
    let b = Broadcaster::new(Slow { go: Mutex::new(go), back: Mutex::new(backed), n: 0 });
    let b2 = b.clone();
    let t = std::thread::spawn(move || { gone.recv().unwrap(); back.send(()).unwrap(); let _s = b2.signal(); });
    let mut s = b.signal();
    let (_, w) = count();
    let _ = poll(&mut s, &w);
    t.join().unwrap();
}
""")
