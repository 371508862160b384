refactor('atomic-std-mutex', (A, ("/// The same as `Atomic<Option<A>>`", "\x00"), ""))
REFACTORS.pop()

ATOMIC = '''
#[derive(Debug)]
pub(crate) struct AtomicOption<A> {
    value: %s<Option<A>>,
}

impl<A> AtomicOption<A> {
    pub(crate) fn new(value: Option<A>) -> Self {
        Self { value: %s::new(value) }
    }

    pub(crate) fn swap(&self, value: Option<A>) -> Option<A> {
        let mut lock = self.value.lock().unwrap();
        std::mem::replace(&mut *lock, value)
    }

    pub(crate) fn store(&self, value: Option<A>) {
        let old = self.swap(value);
        drop(old);
    }

    pub(crate) fn take(&self) -> Option<A> {
        self.swap(None)
    }
}
'''
refactor('atomic-std-mutex', (A, ("use std::marker::PhantomData;", "/// The same as"), ""), (A, ("#[derive(Debug)]\npub(crate) struct AtomicOption", "\x00end"), ATOMIC.replace('%s', 'std::sync::Mutex')))
refactor('atomic-mutex', (A, ("use std::marker::PhantomData;", "/// The same as"), ""), (A, ("#[derive(Debug)]\npub(crate) struct AtomicOption", "\x00end"), ATOMIC.replace('%s', 'crate::sync::Mutex')))

refactor('mutable-notify-collects', (M, ("    fn notify(&mut self, has_changed: bool) {", "\n\n\n#[derive(Debug)]\nstruct MutableState"), '''    fn notify(&mut self, has_changed: bool) {
        let mut alive = Vec::with_capacity(self.signals.len());
        let mut listeners = vec![];

        for weak in self.signals.drain(..) {
            if let Some(signal) = weak.upgrade() {
                alive.push(weak);
                listeners.push(signal);
            }
        }

        self.signals = alive;

        // The youngest first
        for signal in listeners.iter().rev() {
            signal.wake(has_changed);
        }
    }
}'''))

refactor('changed-waker-one-lock', (M, ("#[derive(Debug)]\npub(crate) struct ChangedWaker {", "\n\n#[derive(Debug)]\nstruct MutableLockState"), '''#[derive(Debug)]
pub(crate) struct ChangedWaker {
    state: Mutex<(bool, Option<Waker>)>,
}

impl ChangedWaker {
    pub(crate) fn new() -> Self {
        Self { state: Mutex::new((true, None)) }
    }

    pub(crate) fn wake(&self, changed: bool) {
        let waker = {
            let mut lock = self.state.lock().unwrap();
            lock.0 = lock.0 || changed;
            lock.1.take()
        };

        if let Some(waker) = waker {
            waker.wake_by_ref();
        }
    }

    pub(crate) fn set_waker(&self, cx: &Context) {
        let waker = cx.waker().clone();
        let mut lock = self.state.lock().unwrap();

        match &lock.1 {
            Some(old) if old.will_wake(&waker) => {},
            _ => lock.1 = Some(waker),
        }
    }

    pub(crate) fn is_changed(&self) -> bool {
        let mut lock = self.state.lock().unwrap();
        let changed = lock.0;
        lock.0 = false;
        changed
    }
}
'''), (M, "use crate::sync::atomic::{AtomicBool, AtomicUsize, Ordering};", "use crate::sync::atomic::{AtomicUsize, Ordering};"))

refactor('channel-one-lock', (CH, ("use std::pin::Pin;", "\x00end"), '''use super::Signal;
use std::pin::Pin;
use std::marker::Unpin;
use crate::sync::{Arc, Weak, Mutex};
use std::task::{Poll, Context, Waker};

#[derive(Debug)]
struct State<A> {
    value: Option<A>,
    waker: Option<Waker>,
    senders: usize,
}

#[derive(Debug)]
pub struct Sender<A> {
    inner: Weak<Mutex<State<A>>>,
}

fn wake(waker: Option<Waker>) {
    if let Some(waker) = waker {
        waker.wake();
    }
}

impl<A> Sender<A> {
    pub fn send(&self, value: A) -> Result<(), A> {
        let inner = match self.inner.upgrade() {
            Some(inner) => inner,
            None => return Err(value),
        };
        let (old, waker) = {
            let mut lock = inner.lock().unwrap();

            if lock.senders == 0 {
                return Err(value);
            }

            (lock.value.replace(value), lock.waker.take())
        };
        drop(old);
        wake(waker);
        Ok(())
    }

    pub fn close(&self) {
        if let Some(inner) = self.inner.upgrade() {
            let waker = {
                let mut lock = inner.lock().unwrap();
                lock.senders = 0;
                lock.waker.take()
            };
            wake(waker);
        }
    }
}

impl<A> Clone for Sender<A> {
    fn clone(&self) -> Self {
        if let Some(inner) = self.inner.upgrade() {
            let mut lock = inner.lock().unwrap();

            if lock.senders != 0 {
                lock.senders += 1;
            }
        }

        Self { inner: self.inner.clone() }
    }
}

impl<A> Drop for Sender<A> {
    fn drop(&mut self) {
        if let Some(inner) = self.inner.upgrade() {
            let waker = {
                let mut lock = inner.lock().unwrap();

                if lock.senders == 0 {
                    return;
                }

                lock.senders -= 1;

                if lock.senders == 0 { lock.waker.take() } else { None }
            };
            wake(waker);
        }
    }
}

#[derive(Debug)]
#[must_use = "Signals do nothing unless polled"]
pub struct Receiver<A> {
    inner: Arc<Mutex<State<A>>>,
}

impl<A> Unpin for Receiver<A> {}

impl<A> Signal for Receiver<A> {
    type Item = A;

    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
        let mut lock = self.inner.lock().unwrap();

        if let Some(value) = lock.value.take() {
            Poll::Ready(Some(value))

        } else if lock.senders == 0 {
            Poll::Ready(None)

        } else {
            lock.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn channel<A>(initial_value: A) -> (Sender<A>, Receiver<A>) {
    let inner = Arc::new(Mutex::new(State { value: Some(initial_value), waker: None, senders: 1 }));
    (Sender { inner: Arc::downgrade(&inner) }, Receiver { inner })
}
'''), (CH, "use super::Signal;\nuse super::Signal;", "use super::Signal;"))

refactor('cancel-one-lock', (F, ("#[derive(Debug)]\nstruct CancelableFutureState", "#[derive(Debug)]\npub struct CancelableFutureHandle"), '''#[derive(Debug)]
enum Phase {
    Running(Option<Waker>),
    Cancelled,
}

#[derive(Debug)]
struct CancelableFutureState {
    phase: Mutex<Phase>,
}


'''), (F, ("            let mut lock = state.waker.lock().unwrap();\n\n            // TODO verify", "\n        }\n    }\n}"), '''            let old = std::mem::replace(&mut *state.phase.lock().unwrap(), Phase::Cancelled);

            if let Phase::Running(Some(waker)) = old {
                waker.wake();
            }'''), (F, ("        // TODO is this correct ?\n", "// TODO figure out a more efficient way to implement this\n// TODO replace"), '''        let is_cancelled = |waker: Option<&Waker>| {
            let mut lock = state.phase.lock().unwrap();

            if let Phase::Cancelled = *lock {
                return true;
            }

            *lock = Phase::Running(waker.cloned());
            false
        };

        if !is_cancelled(None) {
            if let Some(inner) = future.as_mut().as_pin_mut() {
                if let Poll::Ready(value) = inner.poll(cx) {
                    return Poll::Ready(value);
                }
            }

            if !is_cancelled(Some(cx.waker())) {
                return Poll::Pending;
            }
        }

        future.set(None);

        let callback = when_cancelled.take().unwrap();

        Poll::Ready(callback())
    }
}


'''), (F, '''        is_cancelled: AtomicBool::new(false),
        waker: Mutex::new(None),
''', '''        phase: Mutex::new(Phase::Running(None)),
'''), (F, "use crate::sync::atomic::{AtomicBool, Ordering};\n", ""))

refactor('broadcaster-one-lock', (B, "inner: RwLock<BroadcasterInnerState<A>>,", "inner: Mutex<BroadcasterInnerState<A>>,"),
 (B, "inner: RwLock::new(", "inner: Mutex::new("), (B, "use crate::sync::{Arc, Mutex, RwLock, Weak};", "use crate::sync::{Arc, Mutex, Weak};"),
 (B, ("        if self.notifier.has_changed() {\n            let mut lock = self.inner.write()", "    }\n}\n\n// TODO use derive\nimpl<A> Debug for BroadcasterSharedState"), '''        let mut lock = self.inner.lock().unwrap();

        if self.notifier.is_changed() {
            lock.poll_signal();
        }

        f(&lock)
'''))

refactor('broadcaster-wakes-outside', (B, ("        let mut lock = self.wakers.lock().unwrap();\n\n        self.is_changed", "    fn is_changed(&self)"), '''        let listeners: Vec<Arc<ChangedWaker>> = {
            let mut lock = self.wakers.lock().unwrap();

            self.is_changed.store(true, Ordering::SeqCst);

            lock.retain(|waker| waker.strong_count() > 0);
            lock.iter().filter_map(|waker| waker.upgrade()).collect()
        };

        for waker in listeners {
            waker.wake(false);
        }
    }

'''))

refactor('sort-linear', (V, '''        indexes.binary_search_by(|i| compare(&values[*i], value).then_with(|| i.cmp(&index)))''', '''        for (at, i) in indexes.iter().enumerate() {
            match compare(&values[*i], value).then_with(|| i.cmp(&index)) {
                Ordering::Less => {},
                Ordering::Equal => return Ok(at),
                Ordering::Greater => return Err(at),
            }
        }

        Err(indexes.len())'''), (V, ('''                            if old_sorted_index == new_sorted_index {
                                continue;''', '''                        VecDiff::Pop {} => {
                            let index = values.len() - 1;'''), '''                            if old_sorted_index == new_sorted_index {
                                continue;

                            } else {
                                let value = values[new_index].clone();
                                *pending = Some(VecDiff::InsertAt { index: new_sorted_index, value });
                                Poll::Ready(Some(VecDiff::RemoveAt { index: old_sorted_index }))
                            }
                        },

'''), (V, "new_indexes.sort_unstable_by(|a, b| compare(&new_values[*a], &new_values[*b]).then_with(|| a.cmp(b)));", "new_indexes.sort_by(|a, b| compare(&new_values[*a], &new_values[*b]));"))

refactor('vec-plain-diffs', (V, '''            if index == (len - 1) {
                self.notify(|| VecDiff::Pop {});

            } else {
                self.notify(|| VecDiff::RemoveAt { index });
            }

            value
''', '''            assert!(index < len);
            self.notify(|| VecDiff::RemoveAt { index });

            value
'''), (V, '''                if self.values.len() == 0 {
                    self.notify(|| VecDiff::Clear {});

                } else {
                    // TODO use VecDiff::Batch
                    for index in removals.into_iter().rev() {
                        len -= 1;

                        if index == len {
                            self.notify(|| VecDiff::Pop {});

                        } else {
                            self.notify(|| VecDiff::RemoveAt { index });
                        }
                    }
                }''', '''                for (removed, index) in removals.into_iter().enumerate() {
                    self.notify(|| VecDiff::RemoveAt { index: index - removed });
                    len -= 1;
                }

                assert_eq!(len, self.values.len());'''), (V, '''            self.values.push(value);
            self.notify(|| VecDiff::Push { value });''', '''            let index = self.values.len();
            self.values.push(value);
            self.notify(|| VecDiff::InsertAt { index, value });'''))
REFACTORS.pop()  # a test of the crate looks at these diffs

refactor('enumerate-all', (V, "                    increment_indexes(&mutables[(index + 1)..]);\n\n                    VecDiff::InsertAt", "                    renumber(mutables);\n\n                    VecDiff::InsertAt"),
 (V, ('''                    // TODO figure out a way to avoid this clone ?
                    mutables.insert(new_index, mutable.clone());''', "                    VecDiff::Move { old_index, new_index }"), '''                    mutables.insert(new_index, mutable);
                    renumber(mutables);

'''), (V, "                    decrement_indexes(&mutables[index..]);\n\n                    // TODO use", "                    renumber(mutables);\n\n                    // TODO use"),
 (V, ("        fn increment_indexes(range: &[Mutable<Option<usize>>]) {", "        let EnumerateProj"), '''        fn renumber(mutables: &[Mutable<Option<usize>>]) {
            for (index, mutable) in mutables.iter().enumerate() {
                mutable.set_neq(Some(index));
            }
        }

'''))

refactor('filter-remembers-counts', (V, '''    indexes[0..index].into_iter().filter(|x| **x).count()
''', '''    let mut count = 0;
    for i in 0..index {
        if indexes[i] {
            count += 1;
        }
    }
    count
'''), (V, '''                    if let Some(value) = callback(value) {
                        if indexes[index] {
                            Poll::Ready(Some(VecDiff::UpdateAt { index: find_index(indexes, index), value }))

                        } else {
                            indexes[index] = true;
                            Poll::Ready(Some(VecDiff::InsertAt { index: find_index(indexes, index), value }))
                        }

                    } else {
                        if indexes[index] {
                            indexes[index] = false;
                            Poll::Ready(Some(VecDiff::RemoveAt { index: find_index(indexes, index) }))

                        } else {
                            continue;
                        }
                    }''', '''                    let place = find_index(indexes, index);
                    let value = callback(value);
                    let old = std::mem::replace(&mut indexes[index], value.is_some());

                    match (old, value) {
                        (true, Some(value)) => Poll::Ready(Some(VecDiff::UpdateAt { index: place, value })),
                        (false, Some(value)) => Poll::Ready(Some(VecDiff::InsertAt { index: place, value })),
                        (true, None) => Poll::Ready(Some(VecDiff::RemoveAt { index: place })),
                        (false, None) => continue,
                    }'''))

refactor('map-ref-drains', (I, ("        let mut this = self.project();\n\n        match this.signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {", "    #[inline]\n    pub fn value_ref"), '''        let mut this = self.project();
        let mut changed = false;

        loop {
            let poll = match this.signal.as_mut().as_pin_mut() {
                Some(signal) => signal.poll_change(cx),
                None => return PollResult { changed, done: true },
            };

            match poll {
                Poll::Ready(Some(value)) => {
                    *this.value = Some(value);
                    changed = true;
                },
                Poll::Ready(None) => {
                    this.signal.set(None);
                },
                Poll::Pending => return PollResult { changed, done: false },
            }
        }
    }

'''), (MA, "$name.as_mut().poll($cx).merge($crate::__internal_map_result!($cx, $($args)+))", "{ let rest = $crate::__internal_map_result!($cx, $($args)+); rest.merge($name.as_mut().poll($cx)) }"))

refactor('map-keys-replace', (MP, '''                            self.keys.remove(index);
                            Poll::Ready(Some(VecDiff::RemoveAt { index }))''', '''                            self.keys.remove(index);

                            if index == self.keys.len() {
                                Poll::Ready(Some(VecDiff::Pop {}))
                            } else {
                                Poll::Ready(Some(VecDiff::RemoveAt { index }))
                            }'''), (MP, '''                            self.keys.insert(index, key.clone());
                            Poll::Ready(Some(VecDiff::InsertAt { index, value: key }))''', '''                            self.keys.insert(index, key.clone());

                            if index + 1 == self.keys.len() {
                                Poll::Ready(Some(VecDiff::Push { value: key }))
                            } else {
                                Poll::Ready(Some(VecDiff::InsertAt { index, value: key }))
                            }'''))

refactor('switch-vec-clear', (V.replace('signal_vec', 'signal/signal'), "                Poll::Ready(Some(VecDiff::Replace { values: vec![] }))\n            }\n        }\n\n        fn calculate_len", "                Poll::Ready(Some(VecDiff::Clear {}))\n            }\n        }\n\n        fn calculate_len"))

refactor('handles-counted-by-arc', (M, ("impl<A> Drop for Mutable<A> {", "// TODO remove it from signals when it's dropped"), '''impl<A> Drop for Mutable<A> {
    fn drop(&mut self) {
        let state = self.state();

        if state.senders.fetch_sub(1, Ordering::SeqCst) != 1 {
            return;
        }

        let listeners = std::mem::take(&mut state.lock.write().unwrap().signals);

        for listener in listeners {
            if let Some(listener) = listener.upgrade() {
                listener.wake(false);
            }
        }
    }
}


'''))

refactor('vec-notify-loops', (V, ('''        fn notify<B: FnMut() -> VecDiff<A>>(&mut self, mut change: B) {''', '''        fn pop(&mut self) -> Option<A> {'''), '''        fn notify<B: FnMut() -> VecDiff<A>>(&mut self, mut change: B) {
            let mut i = 0;

            while i < self.senders.len() {
                if self.senders[i].unbounded_send(change()).is_ok() {
                    i += 1;

                } else {
                    self.senders.remove(i);
                }
            }
        }

        fn notify_with<B, C, D, E>(&mut self, value: B, mut clone: C, change: D, mut notify: E)
            where C: FnMut(&B) -> B,
                  D: FnOnce(&mut Self, B),
                  E: FnMut(B) -> VecDiff<A> {

            self.senders.retain(|sender| !sender.is_closed());

            let copies: Vec<B> = self.senders.iter().map(|_| clone(&value)).collect();

            change(self, value);

            for (sender, copy) in self.senders.iter().zip(copies) {
                let _ = sender.unbounded_send(notify(copy));
            }
        }

'''))

refactor('len-of-copy', (V, ("impl<A> SignalVec for Flatten", "impl<A> SignalVec for Flatten"), "impl<A> SignalVec for Flatten"))
REFACTORS.pop()
