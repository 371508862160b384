S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c07-epoch-wraps", "C07", B, ("""                self.epoch += 1;""", """                // 0 means that there is no value yet
                self.epoch = if self.epoch == 3 { 1 } else { self.epoch + 1 };"""),
"a child skips exactly three changes which other children have polled",
"the child takes the latest value for one which it has already seen", r"""
fn main() {
    let m = Mutable::new(0);
    let b = m.signal().broadcast();
    let (_, w) = count();
    let mut x = b.signal();
    let mut y = b.signal();
    assert_eq!(poll(&mut x, &w), Poll::Ready(Some(0)));
    assert_eq!(poll(&mut y, &w), Poll::Ready(Some(0)));
    for i in 1..=3 { m.set(i); assert_eq!(poll(&mut x, &w), Poll::Ready(Some(i))); }
    assert_eq!(poll(&mut y, &w), Poll::Ready(Some(3)));
}
""")

bug("c20-unstable-replace", "C20", V, ("""compare(&new_values[*a], &new_values[*b]).then_with(|| a.cmp(b)))""", """compare(&new_values[*a], &new_values[*b]))"""),
"a Replace with more than 20 values of which many compare equal",
"the order of equal values isn't the one of the input", r"""
fn main() {
    let input: Vec<(u32, u32)> = (0..60).map(|i| (i * 7 % 3, i)).collect();
    let v = MutableVec::new_with_values(input.clone());
    let mut s = Box::pin(v.signal_vec_cloned().sort_by_cloned(|a, b| a.0.cmp(&b.0)));
    let mut list = vec![];
    sync(&mut s, &mut list);
    let mut want = input;
    want.sort_by(|a, b| a.0.cmp(&b.0));
    assert_eq!(list, want);
}
""")

bug("c23-signal-map-move-swaps", "C23", V, ("""                        VecDiff::Move { old_index, new_index } => {
                            let old = values.remove(old_index);
                            values.insert(new_index, old);
                        },

                        VecDiff::Push { value } => {
                            values.push(value);
                        },

                        VecDiff::Pop {} => {
                            values.pop().unwrap();
                        },

                        VecDiff::Clear {} => {
                            // TODO only set changed if the len is different ?""", """                        VecDiff::Move { old_index, new_index } => {
                            if old_index < new_index {
                                values[old_index..=new_index].rotate_left(1);
                            } else {
                                values[new_index..=old_index].rotate_left(1);
                            }
                        },

                        VecDiff::Push { value } => {
                            values.push(value);
                        },

                        VecDiff::Pop {} => {
                            values.pop().unwrap();
                        },

                        VecDiff::Clear {} => {
                            // TODO only set changed if the len is different ?"""),
"an item is moved towards the front by more than one place",
"to_signal_map and to_signal_cloned deliver the items in the wrong order", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![0, 1, 2, 3]);
    let mut s = Box::pin(v.signal_vec().to_signal_cloned());
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(vec![0, 1, 2, 3])));
    v.lock_mut().move_from_to(3, 0);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(vec![3, 0, 1, 2])));
}
""")

bug("c24-finish-together", "C24", V, ("""        // This uses rev so that way it will return VecDiff::Pop in more situations
        for index in indexes.into_iter().rev() {
            new_pending.push(Self::remove_index(futures, index));
        }

        if let""", """        let first = indexes.first().copied();

        for (removed, index) in indexes.into_iter().enumerate() {
            // The earlier ones are already gone
            let index = if Some(index) == first { index } else { index - removed.min(1) };
            new_pending.push(Self::remove_index(futures, index));
        }

        if let"""),
"at least three removed items whose futures finish between two polls",
"the wrong item is removed", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![0, 1, 2, 3, 4, 5]);
    let go = Rc::new(Cell::new(false));
    let g = go.clone();
    let mut s = Box::pin(v.signal_vec().delay_remove(move |_| { let g = g.clone(); std::future::poll_fn(move |_| if g.get() { Poll::Ready(()) } else { Poll::Pending }) }));
    let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().remove(0);
    v.lock_mut().remove(1);
    v.lock_mut().remove(1);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![0, 1, 2, 3, 4, 5]);
    go.set(true);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 4, 5]);
}
""")

bug("c18-replace-shorter", "C18", V, ("""                VecDiff::Replace { values } => {
                    *indexes = Vec::with_capacity(values.len());

                    Poll::Ready(Some(VecDiff::Replace {
                        values: values.into_iter().filter_map(|value| {
                            let value = callback(value);
                            indexes.push(value.is_some());
                            value
                        }).collect()
                    }))
                },""", """                VecDiff::Replace { values } => {
                    // This reuses the memory
                    indexes.resize(values.len().max(indexes.len()), false);

                    Poll::Ready(Some(VecDiff::Replace {
                        values: values.into_iter().zip(indexes.iter_mut()).filter_map(|(value, exists)| {
                            let value = callback(value);
                            *exists = value.is_some();
                            value
                        }).collect()
                    }))
                },"""),
"a Replace with fewer values than before which is followed by a push and a change of that item",
"the pushed item is found at the wrong index later", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2, 3, 4]);
    let mut s = Box::pin(v.signal_vec().filter(|x| *x > 0));
    let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().replace(vec![5]);
    v.lock_mut().push(6);
    sync(&mut s, &mut list);
    v.lock_mut().set(1, 7);
    v.lock_mut().set(1, -7);
    v.lock_mut().pop();
    sync(&mut s, &mut list);
    assert_eq!(list, vec![5]);
}
""")

bug("c09-relaxed-swap", "C09", A, ("""        let old_ptr = self.ptr.swap(new_ptr, Ordering::AcqRel);
        Self::from_ptr(old_ptr)
    }""", """        let old_ptr = self.ptr.swap(new_ptr, if new_ptr.is_null() { Ordering::Relaxed } else { Ordering::Release });
        Self::from_ptr(old_ptr)
    }"""),
"weak memory: the thread which takes the value doesn't see what the thread which stored it has written",
"the receiver reads the value without synchronization, a data race", r"""
fn main() {
    let (s, mut r) = channel(vec![0]);
    let t = std::thread::spawn(move || { for i in 1..4 { let _ = s.send(vec![i; 3]); } });
    let (_, w) = count();
    let mut last = vec![];
    loop {
        match poll(&mut r, &w) {
            Poll::Ready(Some(v)) => last = v,
            Poll::Ready(None) => break,
            Poll::Pending => std::thread::yield_now(),
        }
    }
    t.join().unwrap();
    assert_eq!(last, vec![3; 3]);
}
""", miri=True)

bug("c22-enumerate-insert-order", "C22", V, ("""                    let mutable = Mutable::new(Some(index));
                    let read_only = mutable.read_only();

                    mutables.insert(index, mutable);

                    increment_indexes(&mutables[(index + 1)..]);

                    VecDiff::InsertAt { index, value: (read_only, value) }""", """                    let mutable = Mutable::new(Some(index));
                    let read_only = mutable.read_only();

                    // Only the ones which have a different index must be changed
                    for (position, mutable) in mutables.iter().enumerate().skip(index) {
                        mutable.set_neq(Some(position + index.min(1)));
                    }

                    mutables.insert(index, mutable);

                    VecDiff::InsertAt { index, value: (read_only, value) }"""),
"an item is inserted at the front", "the indexes of the other items are wrong", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![10, 11]);
    let mut s = Box::pin(v.signal_vec().enumerate());
    let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().insert(0, 9);
    sync(&mut s, &mut list);
    let got: Vec<_> = list.iter().map(|(i, v)| (i.get(), *v)).collect();
    assert_eq!(got, vec![(Some(0), 9), (Some(1), 10), (Some(2), 11)]);
}
""")

bug("c28-extend-unlocks", "C28", V, ("""            if self.values.len() > 0 {
                sender.unbounded_send(VecDiff::Replace { values: self.values.clone() }).unwrap();
            }

            self.senders.push(sender);""", """            if self.values.len() > 0 {
                sender.unbounded_send(VecDiff::Replace { values: self.values.clone() }).unwrap();
            }

            // Take the place of a listener which is gone
            match self.senders.iter().position(|sender| sender.is_closed() || sender.len() > 100) {
                Some(index) => self.senders[index] = sender,
                None => self.senders.push(sender),
            }"""),
"a listener which is more than a hundred changes behind when another one is created",
"the listener which was behind is cut off", r"""
fn main() {
    let v: MutableVec<u32> = MutableVec::new();
    let mut a = v.signal_vec_cloned();
    for i in 0..150 { v.lock_mut().push_cloned(i); }
    let mut b = v.signal_vec_cloned();
    v.lock_mut().push_cloned(7);
    let (mut x, mut y) = (vec![], vec![]);
    sync(&mut a, &mut x);
    sync(&mut b, &mut y);
    assert_eq!(x.len(), 151);
    assert_eq!(y.len(), 151);
}
""")

bug("c13-flatten-inner-first", "C13", S, ("""        let FlattenProj { mut signal, mut inner } = self.project();

        let done = match""", """        let FlattenProj { mut signal, mut inner } = self.project();

        // This is faster when only the inner one has changed
        if let Some(Poll::Ready(Some(value))) = inner.as_mut().as_pin_mut().map(|inner| inner.poll_change(cx)) {
            return Poll::Ready(Some(value));
        }

        let done = match"""),
"the old inner signal and the outer one have both changed since the last poll",
"a value of the old inner signal is delivered after the outer one has moved on", r"""
fn main() {
    let cells = [Mutable::new(0), Mutable::new(10)];
    let outer = Mutable::new(0usize);
    let c = cells.clone();
    let mut s = Box::pin(outer.signal().map(move |i| c[i].signal()).flatten());
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(0)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    outer.set(1);
    cells[0].set(5);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(10)));
}
""")
