S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"

bug("c10-wakers-locked-while-polling", "C10", B, [("""    signal: Option<Pin<Box<A>>>,
    waker: Waker,
    value: Option<A::Item>,""", """    signal: Option<Pin<Box<A>>>,
    waker: Waker,
    notifier: Arc<BroadcasterNotifier>,
    value: Option<A::Item>,"""), ("""    fn new(signal: A, waker: Waker) -> Self {
        Self {
            signal: Some(Box::pin(signal)),
            waker,""", """    fn new(signal: A, waker: Waker, notifier: Arc<BroadcasterNotifier>) -> Self {
        Self {
            signal: Some(Box::pin(signal)),
            notifier,
            waker,"""), ("BroadcasterInnerState::new(signal, waker)),", "BroadcasterInnerState::new(signal, waker, notifier.clone())),"),
("""        if let Some(ref mut signal) = self.signal {
            let cx""", """        // No signal may be added or removed while the value changes
        let _wakers = self.notifier.wakers.lock().unwrap();

        if let Some(ref mut signal) = self.signal {
            let cx""")], "one thread sets the Mutable below a Broadcaster while another polls one of its signals",
"setting the input of a Broadcaster and polling one of its signals dead lock", r"""
fn main() {
    watchdog(100);
    let m = Mutable::new(0);
    let b = Broadcaster::new(m.signal());
    let mut s = b.signal();
    let t = std::thread::spawn(move || for i in 0..3_000_000 { m.set(i) });
    let (_, w) = count();
    loop { if let Poll::Ready(None) = poll(&mut s, &w) { break } }
    t.join().unwrap();
}
""")

bug("c14-map-future-one-value", "C14", S, ("""                    let value = Some(callback(value));
                    future.set(value);
                    continue;""", """                    let first_future = future.is_none();
                    let value = Some(callback(value));
                    future.set(value);
                    if first_future {
                        continue;
                    }"""), "two changes of the input, the future of the first is still pending when the second arrives",
"map_future isn't woken when its input changes while the first future is pending", r"""
fn main() {
    let m = Mutable::new(1);
    let s = m.signal().map_future(|x| async move { if x == 1 { std::future::pending::<()>().await } x });
    let mut s = Box::pin(s);
    let (c, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(None)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(2);
    assert_eq!(c.get(), 1);
    m.set(1);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    let n = c.get();
    m.set(3);
    assert!(c.get() > n, "not woken");
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(3))));
}
""")

bug("c15-sample-two-values", "C15", S, ("""            option.map(|value| {
                loop {
                    break match this.signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {
                        Some(Poll::Ready(Some(value))) => {
                            *this.value = Some(value);
                            continue;
                        },
                        Some(Poll::Ready(None)) => {
                            this.signal.set(None);
                        },
                        _ => {},
                    };
                }
""", """            option.map(|value| {
                // Don't starve the other tasks if the signal changes very often
                for _ in 0..3 {
                    match this.signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {
                        Some(Poll::Ready(Some(value))) => {
                            *this.value = Some(value);
                            continue;
                        },
                        Some(Poll::Ready(None)) => {
                            this.signal.set(None);
                        },
                        _ => {},
                    }
                    break;
                }
"""), "an input signal which has four or more values ready at once",
"sample_stream_cloned pairs an item with an older value", r"""
fn main() {
    use futures_core::Stream;
    let s = Script { next: vec![Poll::Ready(Some(1)), Poll::Ready(Some(2)), Poll::Ready(Some(3)), Poll::Ready(Some(4)), Poll::Ready(Some(5)), Poll::Pending].into() };
    let (_, w) = count();
    let mut st = Box::pin(s.sample_stream_cloned(futures_util::stream::iter(vec!['a', 'b'])));
    assert_eq!(st.as_mut().poll_next(&mut Context::from_waker(&w)), Poll::Ready(Some((5, 'a'))));
}
""")

bug("c13-flatten-inner-after-end", "C13", S, ("""            Some(Poll::Ready(None)) => {
                inner.set(None);
            },
            Some(poll) => {
                return poll;
            },
            None => {},
        }

        if done {""", """            Some(Poll::Ready(None)) => {
                if done {
                    inner.set(None);
                }
            },
            Some(poll) => {
                return poll;
            },
            None => {},
        }

        if done {"""), "the inner signal ends, the outer one continues, and the output is polled again before the outer changes",
"the inner signal is polled again after its end and kept until the outer changes", r"""
struct Once(u32);
impl Unpin for Once {}
impl Signal for Once { type Item = u32; fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<u32>> {
    self.0 += 1;
    match self.0 { 1 => Poll::Ready(Some(1)), 2 => Poll::Ready(None), _ => panic!("polled after the end") }
} }
fn main() {
    let m = Mutable::new(1);
    let mut s = Box::pin(m.signal().switch(|_| Once(0)));
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(2);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
}
""")


VEC_RACE = r"""
fn main() {
    for round in 0..4000 {
        let v = MutableVec::<u32>::new();
        let v2 = v.clone();
        let t = std::thread::spawn(move || { for i in 0..200 { v2.lock_mut().push(i); } });
        let mut all = vec![];
        for _ in 0..40 { all.push(v.signal_vec()); }
        t.join().unwrap();
        let expect: Vec<u32> = (0..200).collect();
        for mut s in all {
            let mut list = vec![];
            sync(&mut s, &mut list);
            assert_eq!(list, expect, "round {}", round);
        }
    }
}
"""
bug("c28-vec-snapshot-before-register", "C28", V, [("""            self.0.write().unwrap().signal_vec_copy()
""", """            // Copying a long list must not block the readers
            let values = MutableVecState::copy_values(&self.0.read().unwrap().values);
            self.0.write().unwrap().signal_vec_copy(values)
"""), ("""        fn signal_vec_copy(&mut self) -> MutableSignalVec<A> {
            let (sender, receiver) = mpsc::unbounded();

            if self.values.len() > 0 {
                sender.unbounded_send(VecDiff::Replace { values: Self::copy_values(&self.values) }).unwrap();
            }""", """        fn signal_vec_copy(&mut self, values: Vec<A>) -> MutableSignalVec<A> {
            let (sender, receiver) = mpsc::unbounded();

            if values.len() > 0 {
                sender.unbounded_send(VecDiff::Replace { values }).unwrap();
            }""")], "a change by another thread between copying the list and registering the listener",
"a listener which is created while another thread changes the list misses that change", VEC_RACE)

bug("c28-map-register-before-snapshot", "C28", MP, [("""        pub fn signal_map(&self) -> MutableSignalMap<K, V> {
            self.0.write().unwrap().signal_map()
        }""", """        pub fn signal_map(&self) -> MutableSignalMap<K, V> {
            let signal = self.0.write().unwrap().signal_map();

            let lock = self.0.read().unwrap();

            if !lock.values.is_empty() {
                signal.0.unbounded_send(MapDiff::Replace {
                    entries: MutableBTreeState::entries(&lock.values),
                }).unwrap();
            }

            drop(lock);
            signal.1
        }"""), ("signal: self.signal_map(),\n                keys: vec![],\n            }\n        }\n    }\n\n    impl<K, V> fmt::Debug", "signal: self.signal_map(),\n                keys: vec![],\n            }\n        }\n    }\n\n    impl<K, V> fmt::Debug"), ("""        fn signal_map(&mut self) -> MutableSignalMap<K, V> {
            let (sender, receiver) = mpsc::unbounded();

            if !self.values.is_empty() {
                sender.unbounded_send(MapDiff::Replace {
                    entries: Self::entries(&self.values),
                }).unwrap();
            }

            self.senders.push(sender);

            MutableSignalMap {
                receiver
            }
        }""", """        fn signal_map(&mut self) -> (mpsc::UnboundedSender<MapDiff<K, V>>, MutableSignalMap<K, V>) {
            let (sender, receiver) = mpsc::unbounded();

            self.senders.push(sender.clone());

            (sender, MutableSignalMap {
                receiver
            })
        }""")], "a change by another thread between registering the listener and copying the map",
"a listener which is created while another thread changes the map gets a removal of a key it doesn't have", r"""
fn main() {
    for round in 0..4000 {
        let m = MutableBTreeMap::<u32, u32>::with_values([(0, 0), (1, 1)].into());
        let m2 = m.clone();
        let t = std::thread::spawn(move || { for i in 0..200 { let k = i % 2; m2.lock_mut().remove(&k); m2.lock_mut().insert(k, i); } });
        let mut all = vec![];
        for _ in 0..40 { all.push(m.signal_map()); }
        t.join().unwrap();
        let (_, w) = count();
        for mut s in all {
            let mut map = std::collections::BTreeMap::new();
            while let Poll::Ready(Some(d)) = poll_map(&mut s, &w) {
                match d {
                    MapDiff::Replace { entries } => map = entries.into_iter().collect(),
                    MapDiff::Insert { key, value } => assert!(map.insert(key, value).is_none(), "round {}", round),
                    MapDiff::Update { key, value } => assert!(map.insert(key, value).is_some(), "round {}", round),
                    MapDiff::Remove { key } => assert!(map.remove(&key).is_some(), "round {}", round),
                    MapDiff::Clear {} => map.clear(),
                }
            }
            assert_eq!(map, *m.lock_ref());
        }
    }
}
""")

bug("c30-broadcaster-strong-children", "C30", B, [("""        let mut lock = self.wakers.lock().unwrap();

        self.is_changed.store(true, Ordering::SeqCst);

        // Take this opportunity to GC dead wakers
        lock.retain(|waker| {
            if let Some(waker) = waker.upgrade() {
                waker.wake(false);
                true

            } else {
                false
            }
        });""", """        let lock = self.wakers.lock().unwrap();

        self.is_changed.store(true, Ordering::SeqCst);

        for waker in lock.iter().filter_map(|waker| waker.upgrade()) {
            waker.wake(false);
        }"""), ("""            let mut lock = shared_state.notifier.wakers.lock().unwrap();
            lock.push(Arc::downgrade(&waker));""", """            let mut lock = shared_state.notifier.wakers.lock().unwrap();

            // Take this opportunity to GC dead wakers
            if lock.len() >= 1024 {
                lock.retain(|waker| waker.upgrade().is_some());
            }

            lock.push(Arc::downgrade(&waker));""")], "signals of a Broadcaster are created and dropped while its input changes",
"dropped signals of a Broadcaster stay allocated although the input changes", r"""
use std::alloc::{GlobalAlloc, Layout, System};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn main() {
    let m = Mutable::new(0);
    let b = Broadcaster::new(m.signal());
    let (_, w) = count();
    let mut keep = b.signal();
    let mut before = 0;
    for i in 0..500 {
        let mut s = b.signal();
        let _ = poll(&mut s, &w);
        drop(s);
        m.set(i);
        while let Poll::Ready(Some(_)) = poll(&mut keep, &w) {}
        if i == 20 { before = LIVE.load(SeqCst); }
    }
    assert!(LIVE.load(SeqCst) < before + 5000, "{} bytes more", LIVE.load(SeqCst) - before);
}
""")


