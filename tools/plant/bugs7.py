S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c04-notify-swap-remove", "C04", M, ("""        self.signals.retain(|signal| {
            if let Some(signal) = signal.upgrade() {
                signal.wake(has_changed);
                true

            } else {
                false
            }
        });""", """        let mut index = 0;

        while index < self.signals.len() {
            if let Some(signal) = self.signals[index].upgrade() {
                signal.wake(has_changed);

            } else {
                // The order of the signals doesn't matter
                self.signals.swap_remove(index);
            }

            index += 1;
        }"""),
"a signal is dropped, and at least one which was created later is still there",
"the signal which takes the place of the dropped one misses the next change", r"""
fn main() {
    let m = Mutable::new(0);
    let a = m.signal();
    let mut b = m.signal();
    let (c, w) = count();
    assert_eq!(poll(&mut b, &w), Poll::Ready(Some(0)));
    assert_eq!(poll(&mut b, &w), Poll::Pending);
    drop(a);
    m.set(1);
    assert_eq!(c.get(), 1);
    assert_eq!(poll(&mut b, &w), Poll::Ready(Some(1)));
}
""")

bug("c05-notify-keeps-waker", "C05", CH, ("""        if let Some(waker) = self.waker.take() {
            waker.wake();
        }""", """        if let Some(waker) = self.waker.take() {
            waker.wake_by_ref();
            // It's probably the same one the next time
            self.waker.store(Some(waker));
        }"""),
"the receiver is polled with a new waker by another thread, between taking the old waker and storing it again",
"the new waker is overwritten by the old one, so the receiver's task isn't woken up", r"""
fn main() {
    let (sender, receiver) = channel(0);
    let receiver = Arc::new(Mutex::new(receiver));
    let (c2, w2) = count();
    // The task is polled with a new waker as soon as it's woken up
    let r = receiver.clone();
    let once = AtomicBool::new(false);
    let w1 = call(move || if !once.swap(true, SeqCst) {
        let mut r = r.lock().unwrap();
        while let Poll::Ready(Some(_)) = poll(&mut *r, &w2) {}
    });
    {
        let mut r = receiver.lock().unwrap();
        while let Poll::Ready(Some(_)) = poll(&mut *r, &w1) {}
    }
    sender.send(1).unwrap();
    sender.send(2).unwrap();
    assert!(c2.get() > 0, "not woken");
}
""")

bug("c06-send-then-check", "C06", CH, ("""            if inner.has_senders() {
                inner.value.store(Some(value));
                inner.notify();
                Ok(())

            } else {
                Err(value)
            }
""", """            inner.value.store(Some(value));

            if inner.has_senders() {
                inner.notify();
                Ok(())

            } else {
                // It was closed, so the value is given back
                inner.value.take().map(Err).unwrap_or(Ok(()))
            }
"""),
"a send after a close, while the last value sent before hasn't been received yet",
"the last value which was sent before the close is lost", r"""
fn main() {
    let (sender, mut receiver) = channel(0);
    let (_, w) = count();
    assert_eq!(poll(&mut receiver, &w), Poll::Ready(Some(0)));
    sender.send(1).unwrap();
    sender.close();
    assert_eq!(sender.send(2), Err(2));
    assert_eq!(poll(&mut receiver, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut receiver, &w), Poll::Ready(None));
}
""")

bug("c10-clone-locks", "C10", M, ("""        self.state().senders.fetch_add(1, Ordering::SeqCst);
        Mutable(self.0.clone())""", """        // Nobody can be notified while there's a new handle
        let _lock = self.state().lock.read().unwrap();
        self.state().senders.fetch_add(1, Ordering::SeqCst);
        Mutable(self.0.clone())"""),
"a Mutable is cloned by a closure which runs while it is locked (e.g. the one of set_if or replace_with)",
"it waits for itself for ever", r"""
fn main() {
    watchdog(20);
    let m = Mutable::new(0);
    let m2 = m.clone();
    let mut other = None;
    m.replace_with(|x| { other = Some(m2.clone()); *x + 1 });
    assert_eq!(other.unwrap().get(), 1);
}
""")

bug("c11-drain-and-done", "C11", I, [(I, """        match this.signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {
            None => {
                PollResult {
                    changed: false,
                    done: true,
                }
            },
            Some(Poll::Ready(None)) => {
                this.signal.set(None);

                PollResult {
                    changed: false,
                    done: true,
                }
            },
            Some(Poll::Ready(a)) => {
                *this.value = a;

                PollResult {
                    changed: true,
                    done: false,
                }
            },
            Some(Poll::Pending) => {
                PollResult {
                    changed: false,
                    done: false,
                }
            },
        }""", """        let mut changed = false;

        // Only the newest value is needed
        loop {
            return match this.signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {
                None => {
                    PollResult {
                        changed,
                        done: true,
                    }
                },
                Some(Poll::Ready(None)) => {
                    this.signal.set(None);

                    PollResult {
                        changed,
                        done: true,
                    }
                },
                Some(Poll::Ready(a)) => {
                    *this.value = a;
                    changed = true;
                    continue;
                },
                Some(Poll::Pending) => {
                    PollResult {
                        changed,
                        done: false,
                    }
                },
            };
        }"""), (MA, """            if result.changed {
                $crate::$macro!($($bindings)*);

                ::std::task::Poll::Ready(Some($f))

            } else if result.done {
                ::std::task::Poll::Ready(None)

            } else {
                ::std::task::Poll::Pending
            }""", """            if result.done && !result.changed {
                ::std::task::Poll::Ready(None)

            } else if result.changed && !result.done {
                $crate::$macro!($($bindings)*);

                ::std::task::Poll::Ready(Some($f))

            } else if result.done {
                ::std::task::Poll::Ready(None)

            } else {
                ::std::task::Poll::Pending
            }""")],
"all the inputs have ended, and the last of them delivers its last value and its end in the same poll",
"the last value is lost", r"""
fn main() {
    let m = Mutable::new(1);
    let a = always(1);
    let s = m.signal();
    let mut s = map_ref!(a, s => *a + *s);
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(2)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(2);
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(3)));
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

bug("c12-stop-if-latest", "C12", S, ("""            match signal.poll_change(cx) {
                Poll::Ready(Some(value)) => {
                    if test(&value) {
                        *stopped = true;
                    }

                    Poll::Ready(Some(value))
                },
                Poll::Ready(None) => {
                    *stopped = true;
                    Poll::Ready(None)
                },
                Poll::Pending => Poll::Pending,
            }""", """            let mut signal = signal;
            let mut latest = None;

            // Skips the values which are already outdated
            loop {
                match signal.as_mut().poll_change(cx) {
                    Poll::Ready(Some(value)) => {
                        latest = Some(value);
                    },
                    Poll::Ready(None) => {
                        *stopped = true;
                        break;
                    },
                    Poll::Pending => break,
                }
            }

            match latest {
                Some(value) => {
                    if test(&value) {
                        *stopped = true;
                    }

                    Poll::Ready(Some(value))
                },
                None if *stopped => Poll::Ready(None),
                None => Poll::Pending,
            }"""),
"an input which has several values ready at once, of which one that isn't the last matches",
"the match is missed, so it doesn't stop", r"""
fn main() {
    let mut s = Script { next: vec![Poll::Ready(Some(1)), Poll::Ready(Some(5)), Poll::Ready(Some(2)), Poll::Pending].into() }.stop_if(|x| *x == 5);
    let (_, w) = count();
    let mut seen = vec![];
    let ended = loop {
        match poll(&mut s, &w) { Poll::Ready(Some(x)) => seen.push(x), Poll::Ready(None) => break true, Poll::Pending => break false }
    };
    assert_eq!((seen, ended), (vec![1, 5], true));
}
""")

bug("c15-wait-for-ended", "C15", S, ("""        loop {
            let poll = this.signal.as_mut().poll_change(cx);

            if let Poll::Ready(Some(ref new_value)) = poll {
                if new_value != this.value {
                    continue;
                }
            }

            return poll;
        }""", """        let mut current = None;

        // Only the current value counts
        loop {
            match this.signal.as_mut().poll_change(cx) {
                Poll::Ready(Some(new_value)) => {
                    current = Some(new_value);
                },
                Poll::Ready(None) => {
                    return Poll::Ready(None);
                },
                Poll::Pending => {
                    return match current {
                        Some(value) if value == *this.value => Poll::Ready(Some(value)),
                        _ => Poll::Pending,
                    };
                },
            }
        }"""),
"the awaited value is the last one, and the signal has ended before wait_for is polled",
"it resolves to none", r"""
fn main() {
    let m = Mutable::new(1);
    let mut f = Box::pin(m.signal().wait_for(2));
    let (_, w) = count();
    let mut cx = Context::from_waker(&w);
    assert_eq!(f.as_mut().poll(&mut cx), Poll::Pending);
    m.set(2);
    drop(m);
    assert_eq!(f.as_mut().poll(&mut cx), Poll::Ready(Some(2)));
}
""")

bug("c07-ended-before-value", "C07", B, ("""            // Value hasn't changed
            if state.epoch == *epoch {
                if state.signal.is_none() {
                    Poll::Ready(None)

                } else {""", """            // Value hasn't changed
            if state.epoch == *epoch || (state.signal.is_none() && *epoch != 0) {
                if state.signal.is_none() {
                    Poll::Ready(None)

                } else {"""),
"the input delivers its last value and its end in the same poll, and a child which has already been polled",
"the last value is lost", r"""
fn main() {
    let m = Mutable::new(1);
    let b = Broadcaster::new(m.signal());
    let mut s = b.signal();
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(2);
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(2)));
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

bug("c17-ord-len-first", "C17", V, ("""                    Ord::cmp(&**self, &**other)
                }
            }

            impl<'a, A, I> Index<I> for $t""", """                    self.len().cmp(&other.len()).then_with(|| Ord::cmp(&**self, &**other))
                }
            }

            impl<'a, A, I> Index<I> for $t"""),
"two lists of different lengths are compared with Ord",
"the order isn't the one of Vec (and not the one of PartialOrd)", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1, 2]);
    let b = MutableVec::new_with_values(vec![3]);
    assert_eq!(a.lock_ref().cmp(&b.lock_ref()), std::cmp::Ordering::Less);
}
""")

bug("c26-index-range", "C26", MP, ("""                #[inline] fn eq(&self, other: &$t) -> bool { *self == **other }
                #[inline] fn ne(&self, other: &$t) -> bool { *self != **other }""", """                #[inline] fn eq(&self, other: &$t) -> bool { *self == **other }
                #[inline] fn ne(&self, other: &$t) -> bool { self.iter().zip(other.iter()).any(|(a, b)| a != b) }"""),
"one map is a prefix of the other",
"both == and != are false", r"""
fn main() {
    let a: MutableBTreeMap<u32, u32> = MutableBTreeMap::from([(1, 2)]);
    let b: MutableBTreeMap<u32, u32> = MutableBTreeMap::from([(1, 2), (3, 4)]);
    assert!(a.lock_ref() != b.lock_ref());
    assert!(!(a.lock_ref() == b.lock_ref()));
}
""")

bug("c29-serialize-snapshot", "C29", V, ("""            self.0.read().unwrap().values.serialize(serializer)""", """            let state = self.0.read().unwrap();
            serializer.collect_seq(state.values.iter().take(state.values.capacity().next_power_of_two().min(1 << 12)))"""),
"a list with more than 4096 items",
"the rest isn't serialized", r"""
fn main() {
    let v = MutableVec::new_with_values((0..5000u32).collect());
    let s = serde_json::to_string(&v).unwrap();
    assert_eq!(s, serde_json::to_string(&(0..5000u32).collect::<Vec<_>>()).unwrap());
}
""")

bug("c24-insert-before-removing", "C24", V, ("""                            let index = Self::find_index(futures, index).unwrap_or_else(|| futures.len());
                            let state = DelayRemoveState::new(callback(&value));
                            futures.insert(index, state);""", """                            let index = Self::find_index(futures, index).unwrap_or_else(|| Self::find_last_index(futures).map_or(0, |index| index));
                            let state = DelayRemoveState::new(callback(&value));
                            futures.insert(index, state);"""),
"an InsertAt at the end of the list",
"the item is inserted before the last one", r"""
fn main() {
    let s = VecScript { next: vec![
        Poll::Ready(Some(VecDiff::Push { value: 1 })),
        Poll::Ready(Some(VecDiff::InsertAt { index: 1, value: 2 })),
    ].into() };
    let mut s = s.delay_remove(|_| std::future::ready(()));
    let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, [1, 2]);
}
""")

bug("c24-update-removing-index", "C24", V, ("""                            // TODO what about removing the old future ?
                            let index = Self::find_index(futures, index).expect("Could not find value");
                            let state = DelayRemoveState::new(callback(&value));
                            futures[index] = state;
                            new_pending.push(VecDiff::UpdateAt { index, value });""", """                            // The old future isn't needed anymore
                            let real_index = Self::find_index(futures, index).expect("Could not find value");
                            let state = DelayRemoveState::new(callback(&value));
                            futures[real_index] = state;
                            new_pending.push(VecDiff::UpdateAt { index: index.max(real_index.saturating_sub(futures[..real_index].iter().filter(|state| state.is_removing).count() / 2)), value });"""),
"an update behind at least two items which are waiting for their removal",
"another item is updated in the output", r"""
fn main() {
    let s = VecScript { next: vec![
        Poll::Ready(Some(VecDiff::Replace { values: vec![1, 2, 3, 4] })),
        Poll::Ready(Some(VecDiff::RemoveAt { index: 0 })),
        Poll::Ready(Some(VecDiff::RemoveAt { index: 0 })),
        Poll::Ready(Some(VecDiff::UpdateAt { index: 1, value: 9 })),
    ].into() };
    let mut s = s.delay_remove(|_| std::future::pending::<()>());
    let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, [1, 2, 3, 9]);
}
""")

bug("c27-key-first-only", "C27", MP, ("""                    Some(MapDiff::Remove { key }) => {
                        if key == *watch_key {
                            changed = Some(None);
                        }
                        continue;
                    },
                    Some(MapDiff::Clear {}) => {
                        changed = Some(None);
                        continue;
                    },""", """                    Some(MapDiff::Remove { key }) => {
                        if key == *watch_key {
                            // If it was added since the last time then nothing has changed
                            changed = match changed {
                                Some(Some(_)) => None,
                                _ => Some(None),
                            };
                        }
                        continue;
                    },
                    Some(MapDiff::Clear {}) => {
                        changed = Some(None);
                        continue;
                    },"""),
"the watched key is there, and is updated and then removed between two polls",
"the signal keeps the old value", r"""
fn main() {
    let m: MutableBTreeMap<u32, u32> = MutableBTreeMap::from([(1, 2)]);
    let mut s = m.signal_map().key_cloned(1);
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(2))));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.lock_mut().insert(1, 3);
    m.lock_mut().remove(&1);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(None)));
}
""")

bug("c16-option-value-pending", "C16", S, ("""            MaybeSignalStateProj::Value(value) => {
                match value.take() {
                    Some(value) => Poll::Ready(Some(map_value(value))),
                    None => Poll::Ready(None),
                }
            },""", """            MaybeSignalStateProj::Value(value) => {
                match value.take() {
                    Some(value) => Poll::Ready(Some(map_value(value))),
                    // It never changes
                    None => Poll::Pending,
                }
            },"""),
"option(None) or result(Err) below flatten, whose outer signal ends",
"the pipeline never ends", r"""
fn main() {
    let m = Mutable::new(Some(1));
    let mut s = m.signal().map(|x| signal::option(x.map(always))).flatten();
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(1))));
    m.set(None);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(None)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

