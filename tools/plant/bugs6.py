S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c01-set-waker-try-lock", "C01", M, ("""        *self.waker.lock().unwrap() = Some(cx.waker().clone());""", """        // If it's locked then it is being woken up right now
        if let Ok(mut waker) = self.waker.try_lock() {
            *waker = Some(cx.waker().clone());
        }"""),
"the signal is polled while another thread is inside of wake, before the flag is set",
"the waker isn't stored, and the change which is just happening doesn't wake up the task", r"""
fn main() {
    watchdog(120);
    for round in 0..400 {
        let m = Mutable::new(0u32);
        let n = 3000u32;
        let m2 = m.clone();
        let go = Arc::new(AtomicBool::new(false));
        let go2 = go.clone();
        let t = std::thread::spawn(move || {
            while !go2.load(SeqCst) {}
            for i in 1..=n { m2.set(i); if i % 64 == 0 { std::thread::yield_now(); } }
        });
        let flag = Arc::new(AtomicBool::new(true));
        let f2 = flag.clone();
        let w = call(move || f2.store(true, SeqCst));
        let mut s = m.signal();
        let mut last = 0;
        go.store(true, SeqCst);
        let mut finished = false;
        loop {
            if flag.swap(false, SeqCst) {
                loop {
                    match poll(&mut s, &w) { Poll::Ready(Some(v)) => last = v, _ => break }
                }
            } else if finished {
                break;
            } else if t.is_finished() {
                finished = true;
            }
        }
        t.join().unwrap();
        assert_eq!(last, n, "round {}", round);
    }
}
""")

bug("c08-discard-try-lock", "C08", F, ("""            let mut lock = state.waker.lock().unwrap();

            // TODO verify that this is correct
            state.is_cancelled.store(true, Ordering::SeqCst);

            if let Some(waker) = lock.take() {
                drop(lock);
                waker.wake();
            }""", """            // If it's locked then the future is being polled right now
            if let Ok(mut lock) = state.waker.try_lock() {
                state.is_cancelled.store(true, Ordering::SeqCst);

                if let Some(waker) = lock.take() {
                    drop(lock);
                    waker.wake();
                }

            } else {
                state.is_cancelled.store(true, Ordering::SeqCst);
            }"""),
"the handle is dropped while the future is storing its waker",
"the task isn't woken up by the cancellation", r"""
struct Slow(Arc<AtomicBool>, mpsc::Sender<()>, AtomicUsize);
fn main() {
    watchdog(100);
    // The waker is cloned while it is locked
    use std::task::{RawWaker, RawWakerVTable};
    static STATE: Mutex<Option<(mpsc::Sender<()>, mpsc::Receiver<()>)>> = Mutex::new(None);
    static WOKEN: AtomicUsize = AtomicUsize::new(0);
    fn clone(_: *const ()) -> RawWaker {
        if let Some((tx, rx)) = STATE.lock().unwrap().take() {
            let _ = tx.send(());
            let _ = rx.recv_timeout(Duration::from_millis(500));
        }
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn wake(_: *const ()) { WOKEN.fetch_add(1, SeqCst); }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let (handle, future) = cancelable_future(std::future::pending::<u32>(), || 7);
    let (tx, rx) = mpsc::channel();
    let (dtx, drx) = mpsc::channel();
    *STATE.lock().unwrap() = Some((tx, drx));
    let t = std::thread::spawn(move || {
        rx.recv().unwrap();
        drop(handle);
        let _ = dtx.send(());
    });
    let mut future = Box::pin(future);
    let mut cx = Context::from_waker(&w);
    assert!(future.as_mut().poll(&mut cx).is_pending());
    t.join().unwrap();
    assert!(WOKEN.load(SeqCst) > 0, "not woken");
    assert_eq!(future.as_mut().poll(&mut cx), Poll::Ready(7));
}
""")

bug("c02-clone-load-store", "C02", M, ("""        self.state().senders.fetch_add(1, Ordering::SeqCst);
        Mutable(self.0.clone())""", """        let senders = self.state().senders.load(Ordering::SeqCst);
        self.state().senders.store(senders + 1, Ordering::SeqCst);
        Mutable(self.0.clone())"""),
"two threads clone or drop handles at the same time",
"the number of handles is wrong, so the signals end too early or never", r"""
fn main() {
    watchdog(200);
    for _ in 0..300 {
        let m = Mutable::new(0);
        let ts: Vec<_> = (0..4).map(|_| {
            let m = m.clone();
            std::thread::spawn(move || { for _ in 0..2000 { let _ = m.clone(); } })
        }).collect();
        for t in ts { t.join().unwrap(); }
        let mut s = m.signal();
        let (_, w) = count();
        assert_eq!(poll(&mut s, &w), Poll::Ready(Some(0)));
        assert_eq!(poll(&mut s, &w), Poll::Pending);
        drop(m);
        assert_eq!(poll(&mut s, &w), Poll::Ready(None));
    }
}
""")

bug("c07-flag-after-wake", "C07", B, [("""        self.is_changed.store(true, Ordering::SeqCst);

        // Take this opportunity to GC dead wakers
""", """        // Take this opportunity to GC dead wakers
"""), ("""                waker.wake(false);
                true

            } else {
                false
            }
        });
    }""", """                waker.wake(false);
                true

            } else {
                false
            }
        });

        self.is_changed.store(true, Ordering::SeqCst);
    }""")],
"a child is polled by another thread right after it was woken",
"the child finds nothing changed and is never woken again for the latest value", r"""
fn main() {
    watchdog(60);
    let m = Mutable::new(1);
    let b = m.signal().broadcast();
    let s = Arc::new(Mutex::new(b.signal()));
    let (_, w) = count();
    assert_eq!(poll(&mut *s.lock().unwrap(), &w), Poll::Ready(Some(1)));
    let seen = Arc::new(Mutex::new(1));
    let again = Arc::new(AtomicUsize::new(0));
    let (s2, seen2, again2) = (s.clone(), seen.clone(), again.clone());
    let (tx, rx) = mpsc::channel::<()>();
    let (dtx, drx) = mpsc::channel::<()>();
    let t = std::thread::spawn(move || {
        let w = { let a = again2.clone(); call(move || { a.fetch_add(1, SeqCst); }) };
        rx.recv().unwrap();
        // woken up: this polls, in another thread
        if let Poll::Ready(Some(v)) = poll(&mut *s2.lock().unwrap(), &w) { *seen2.lock().unwrap() = v; }
        let _ = dtx.send(());
    });
    let (tx, drx) = (Mutex::new(tx), Mutex::new(drx));
    let waker = call(move || {
        let _ = tx.lock().unwrap().send(());
        let _ = drx.lock().unwrap().recv_timeout(Duration::from_millis(500));
    });
    assert_eq!(poll(&mut *s.lock().unwrap(), &waker), Poll::Pending);
    std::thread::spawn(move || { m.set(2); std::mem::forget(m); });
    t.join().unwrap();
    std::thread::sleep(Duration::from_millis(200));
    if again.load(SeqCst) > 0 {
        if let Poll::Ready(Some(v)) = poll(&mut *s.lock().unwrap(), &w) { *seen.lock().unwrap() = v; }
    }
    assert_eq!(*seen.lock().unwrap(), 2, "never woken for the last value");
}
""")

bug("c09-drop-skips-trivial", "C09", A, ("""        if !ptr.is_null() {
            // This is safe because we only do this for pointers created with `Box::into_raw`""", """        if std::mem::needs_drop::<A>() && !ptr.is_null() {
            // This is safe because we only do this for pointers created with `Box::into_raw`"""),
"a channel is dropped with an unreceived value whose type has no destructor",
"the allocation of the value is leaked", r"""
use std::alloc::{GlobalAlloc, Layout, System};
struct Alloc;
static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Alloc = Alloc;
fn main() {
    let before = BYTES.load(SeqCst);
    {
        let (s, r) = channel([0u64; 16]);
        s.send([1; 16]).unwrap();
        drop((s, r));
    }
    assert_eq!(BYTES.load(SeqCst), before);
}
""")

bug("c10-cancel-lock-while-polling", "C10", F, [("""            match future.as_pin_mut().unwrap().poll(cx) {
                Poll::Pending => {""", """            // Locked, so that it can't be cancelled between polling and storing the waker
            let mut guard = state.waker.lock().unwrap();

            match future.as_pin_mut().unwrap().poll(cx) {
                Poll::Pending => {"""), ("""                    let mut lock = state.waker.lock().unwrap();

                    // It might""", """                    let lock = &mut guard;

                    // It might"""), ("""                        drop(lock);
                        cx.waker()""", """                        drop(guard);
                        cx.waker()"""), ("""                        *lock = Some(cx.waker().clone());
                    }

                    Poll::Pending""", """                        **lock = Some(cx.waker().clone());
                    }

                    Poll::Pending""")],
"the inner future drops the handle while it is being polled, or waits for a thread which does",
"the poll and the cancellation wait for each other forever", r"""
fn main() {
    watchdog(20);
    let slot = Rc::new(RefCell::new(None));
    let slot2 = slot.clone();
    let (handle, future) = cancelable_future(futures_util::future::poll_fn(move |_| { slot2.borrow_mut().take().map(drop); Poll::<u32>::Pending }), || 7);
    *slot.borrow_mut() = Some(handle);
    let mut future = Box::pin(future);
    let (_, w) = count();
    let mut cx = Context::from_waker(&w);
    for _ in 0..3 {
        if let Poll::Ready(x) = future.as_mut().poll(&mut cx) { assert_eq!(x, 7); return; }
    }
    panic!("not cancelled");
}
""")

bug("c10-debug-recursive-read", "C10", M, ("""            .field(&state.value)
            .finish()
    }
}


#[repr(transparent)]
pub struct Mutable<A>""", """            .field(&(self.lock_ref().value_for_debug(), state).0)
            .finish()
    }
}

impl<'a, A> MutableLockRef<'a, A> {
    fn value_for_debug(&self) -> &A {
        &self.lock.value
    }
}


#[repr(transparent)]
pub struct Mutable<A>"""),
"a ReadOnlyMutable is formatted while another thread waits for the write lock",
"the reader and the writer wait for each other forever", r"""
fn main() {
    watchdog(60);
    let m = Mutable::new(0u64);
    let r = m.read_only();
    let stop = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..3).map(|_| { let m = m.clone(); let s = stop.clone(); std::thread::spawn(move || { let mut i = 0; while !s.load(SeqCst) { i += 1; m.set(i); } }) }).collect();
    for _ in 0..200000 { assert!(format!("{:?}", r).starts_with("ReadOnlyMutable")); }
    stop.store(true, SeqCst);
    for t in ts { t.join().unwrap(); }
}
""")

bug("c11-ended-input-masks", "C11", I, ("""            changed: self.changed || other.changed,""", """            changed: self.changed || (other.changed && !self.done),"""),
"an input has ended while a later one still changes",
"the output isn't recomputed any more", r"""
fn main() {
    let a = Mutable::new(1);
    let b = Mutable::new(10);
    let (x, y) = (a.signal(), b.signal());
    let mut s = Box::pin(map_ref! { let x = x, let y = y => *x + *y });
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(11)));
    drop(a);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    b.set(20);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(21)));
}
""")

bug("c14-from-stream-end-pending", "C14", S, ("""                Some(Poll::Ready(None)) => {
                    this.stream.set(None);
                    break true;
                },

                Some(Poll::Ready(Some(new_value))) => {
                    value = Some(new_value);""", """                Some(Poll::Ready(None)) => {
                    this.stream.set(None);
                    break value.is_none() && *this.first;
                },

                Some(Poll::Ready(Some(new_value))) => {
                    value = Some(new_value);"""),
"the stream ends in a later poll than its last value",
"the signal stays pending without being woken instead of ending", r"""
fn main() {
    let (tx, rx) = futures_channel::mpsc::unbounded();
    let mut s = Box::pin(signal::from_stream(rx));
    let (_, w) = count();
    tx.unbounded_send(1).unwrap();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(1))));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    drop(tx);
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

bug("c15-wait-for-two-values", "C15", S, ("""            if let Poll::Ready(Some(ref new_value)) = poll {
                if new_value != this.value {
                    continue;
                }
            }

            return poll;""", """            if let Poll::Ready(Some(ref new_value)) = poll {
                if new_value != this.value {
                    // Gives the other tasks a chance to run
                    return match this.signal.as_mut().poll_change(cx) {
                        Poll::Ready(Some(ref new_value)) if new_value != this.value => Poll::Pending,
                        poll => poll,
                    };
                }
            }

            return poll;"""),
"the signal has two values in a row which aren't the expected one",
"the future sleeps although its signal has more values, it is never woken up", r"""
fn main() {
    let s = Script { next: [Poll::Ready(Some(1)), Poll::Ready(Some(2)), Poll::Ready(Some(3)), Poll::Pending].into_iter().collect() };
    let mut f = Box::pin(s.wait_for(3));
    let (_, w) = count();
    assert_eq!(f.as_mut().poll(&mut Context::from_waker(&w)), Poll::Ready(Some(3)));
}
""")

bug("c18-filter-move-pending", "C18", V, ("""                    } else {
                        indexes.insert(new_index, false);
                        continue;
                    }
                },

                VecDiff::RemoveAt { index } => {
                    if indexes.remove(index) {""", """                    } else {
                        indexes.insert(new_index, false);
                        Poll::Pending
                    }
                },

                VecDiff::RemoveAt { index } => {
                    if indexes.remove(index) {"""),
"an item which is filtered out is moved",
"it doesn't register its waker, so it never notices any further change", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2, 3]);
    let mut s = Box::pin(v.signal_vec().filter(|x| *x != 1));
    let (c, w) = count();
    assert_eq!(poll_vec(&mut s, &w), Poll::Ready(Some(VecDiff::Replace { values: vec![2, 3] })));
    assert_eq!(poll_vec(&mut s, &w), Poll::Pending);
    v.lock_mut().move_from_to(0, 2);
    assert_eq!(c.get(), 1);
    assert_eq!(poll_vec(&mut s, &w), Poll::Pending);
    v.lock_mut().push(4);
    assert_eq!(c.get(), 2, "not woken up");
    assert_eq!(poll_vec(&mut s, &w), Poll::Ready(Some(VecDiff::Push { value: 4 })));
}
""")

bug("c19-filter-signal-one-poll", "C19", V, ("""                    Some(Poll::Ready(Some(exists))) => {
                        state.exists = exists;
                        continue;
                    },""", """                    Some(Poll::Ready(Some(exists))) => {
                        has_pending = true;

                        if state.exists == exists {
                            break;
                        }

                        state.exists = exists;
                        continue;
                    },"""),
"the signal of an item delivers the same value again",
"that signal isn't registered any more, so later changes of it are missed", r"""
fn main() {
    let f = Mutable::new(true);
    let v = MutableVec::new_with_values(vec![f.clone()]);
    let mut s = Box::pin(v.signal_vec_cloned().filter_signal_cloned(|m| m.signal()));
    let (c, w) = count();
    assert!(poll_vec(&mut s, &w).is_ready());
    assert!(poll_vec(&mut s, &w).is_pending());
    f.set(true);
    assert_eq!(c.get(), 1);
    assert!(poll_vec(&mut s, &w).is_pending());
    f.set(false);
    assert_eq!(c.get(), 2, "not woken up");
    assert!(poll_vec(&mut s, &w).is_ready());
}
""")

bug("c21-chain-clear-right-len", "C21", V, ("""            Ok(()) => {
                *self.left_len = 0;
                *self.right_len = 0;
                Some(VecDiff::Clear {})""", """            Ok(()) => {
                *self.left_len = 0;
                Some(VecDiff::Clear {})"""),
"both inputs are cleared between two polls",
"the length of the right side is wrong, later diffs are invalid", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1]);
    let b = MutableVec::new_with_values(vec![2, 3]);
    let mut s = Box::pin(a.signal_vec().chain(b.signal_vec()));
    let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, [1, 2, 3]);
    a.lock_mut().clear(); b.lock_mut().clear();
    sync(&mut s, &mut list);
    assert_eq!(list, []);
    a.lock_mut().push(4); b.lock_mut().push(5);
    sync(&mut s, &mut list);
    assert_eq!(list, [4, 5]);
    b.lock_mut().clear();
    sync(&mut s, &mut list);
    assert_eq!(list, [4]);
}
""")

bug("c21-flatten-replace-inplace", "C21", V, ("""                            for index in (0..old_len).rev() {
                                pending.push(VecDiff::RemoveAt { index: prev_len + index });
                            }

                            for (index, value) in values.into_iter().enumerate() {
                                pending.push(VecDiff::InsertAt { index: prev_len + index, value });
                            }""", """                            let new_len = values.len();

                            // Values can be reused if it's shorter
                            let reuse = if new_len > 0 && new_len * 3 <= old_len { new_len } else { 0 };

                            if reuse == 0 {
                                for index in (0..old_len).rev() {
                                    pending.push(VecDiff::RemoveAt { index: prev_len + index });
                                }
                            }

                            for (index, value) in values.into_iter().enumerate() {
                                if index < reuse {
                                    pending.push(VecDiff::UpdateAt { index: prev_len + index, value });
                                } else {
                                    pending.push(VecDiff::InsertAt { index: prev_len + index, value });
                                }
                            }

                            for index in new_len..(if reuse == 0 { new_len } else { old_len }) {
                                pending.push(VecDiff::RemoveAt { index: prev_len + index });
                            }"""),
"an inner list which isn't the last one is replaced with one which is at most a third as long",
"values of the following list are removed instead", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1, 2, 3]);
    let b = MutableVec::new_with_values(vec![4, 5, 6]);
    let v = MutableVec::new_with_values(vec![a.clone(), b.clone()]);
    let mut s = Box::pin(v.signal_vec_cloned().map(|v| v.signal_vec()).flatten());
    let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, [1, 2, 3, 4, 5, 6]);
    a.lock_mut().replace(vec![7]);
    sync(&mut s, &mut list);
    assert_eq!(list, [7, 4, 5, 6]);
}
""")

bug("c25-switch-vec-keeps-old", "C25", S, ("""                Some(Poll::Pending) => {
                    new_signal_vec(len)
                },""", """                Some(Poll::Pending) => {
                    Poll::Pending
                },"""),
"it switches to a list which has no values yet",
"the values of the old list stay, and the new ones are added to them", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1, 2]);
    let b = MutableVec::<i32>::new();
    let m = Mutable::new(true);
    let (a2, b2) = (a.clone(), b.clone());
    let mut s = Box::pin(m.signal().switch_signal_vec(move |x| if x { a2.signal_vec() } else { b2.signal_vec() }));
    let mut list = vec![];
    sync(&mut s, &mut list);
    m.set(false);
    sync(&mut s, &mut list);
    assert_eq!(list, []);
}
""")

bug("c27-entries-replace-keys-late", "C27", MP, ("""                        self.keys = entries.iter().map(|(k, _)| k.clone()).collect();
                        VecDiff::Replace { values: entries }""", """                        self.keys.extend(entries.iter().map(|(k, _)| k.clone()));
                        self.keys.sort();
                        self.keys.dedup();
                        VecDiff::Replace { values: entries }"""),
"the whole map is replaced while it has keys which aren't in the new map",
"the entries list keeps the old keys, so later indexes are wrong", r"""
use std::collections::BTreeMap;
fn main() {
    let m = MutableBTreeMap::with_values(BTreeMap::from([(1, 1), (5, 5)]));
    let mut s = Box::pin(m.entries_cloned());
    let mut list = vec![];
    sync(&mut s, &mut list);
    m.lock_mut().replace_cloned(BTreeMap::from([(5, 6)]));
    m.lock_mut().insert_cloned(7, 7);
    sync(&mut s, &mut list);
    assert_eq!(list, [(5, 6), (7, 7)]);
}
""")

bug("c26-remove-last-clears", "C26", MP, ("""            let key = self.change(|| key.clone());
            self.notify_clone(key, |key| MapDiff::Remove { key });""", """            {
                let last = self.values.keys().next_back().map_or(false, |last| last < key);
                let key = self.change(|| key.clone());
                let mut skip = last && self.senders.len() > 8;
                self.notify_clone(key, |key| {
                    if std::mem::replace(&mut skip, false) { MapDiff::Clear {} } else { MapDiff::Remove { key } }
                });
            }"""),
"more than eight listeners, and the last key is removed",
"one listener gets a Clear instead of a Remove", r"""
use std::collections::BTreeMap;
fn main() {
    let m = MutableBTreeMap::with_values(BTreeMap::from([(1, 1), (5, 5)]));
    let mut all: Vec<_> = (0..9).map(|_| m.signal_map()).collect();
    let (_, w) = count();
    for s in all.iter_mut() { assert!(poll_map(s, &w).is_ready()); }
    m.lock_mut().remove(&5);
    for s in all.iter_mut() { assert_eq!(poll_map(s, &w), Poll::Ready(Some(MapDiff::Remove { key: 5 }))); }
}
""")
