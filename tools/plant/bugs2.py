I = "src/internal.rs"

bug("c11-merge-skips-done", "C11", I, ("""            Some(Poll::Ready(None)) => {
                this.signal.set(None);

                PollResult {
                    changed: false,
                    done: true,
                }
            },
            Some(Poll::Ready(a)) => {""", """            Some(Poll::Ready(None)) => {
                PollResult {
                    changed: false,
                    done: true,
                }
            },
            Some(Poll::Ready(a)) => {"""), "an input which ends before the others and doesn't tolerate being polled after its end",
"map_ref polls inputs after they have ended", r"""
struct Once(u32);
impl Unpin for Once {}
impl Signal for Once { type Item = u32; fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<u32>> {
    self.0 += 1;
    match self.0 { 1 => Poll::Ready(Some(1)), 2 => Poll::Ready(None), _ => panic!("polled after the end") }
} }
fn main() {
    let m = Mutable::new(1);
    let s = map_ref! { let a = m.signal(), let b = Once(0) => *a + *b };
    let mut s = Box::pin(s);
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(2)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(5);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(6)));
}
""")

bug("c12-filter-map-first", "C12", S, ("""                    Some(value) => {
                        *first = false;
                        Poll::Ready(Some(Some(value)))
                    },

                    None => {
                        if *first {
                            *first = false;
                            Poll::Ready(Some(None))""", """                    Some(value) => {
                        Poll::Ready(Some(Some(value)))
                    },

                    None => {
                        if *first {
                            *first = false;
                            Poll::Ready(Some(None))"""), "a first value which is accepted, followed later by the first rejected one",
"filter_map goes back to none although it has accepted a value", r"""
fn main() {
    let m = Mutable::new(1);
    let mut s = m.signal().filter_map(|x| if x > 0 { Some(x) } else { None });
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(1))));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(-1);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
}
""")

bug("c12-neq-pending-on-same", "C12", S, ("""                    let new = Some(new_value != *value);

                    if *matches != new {
                        *matches = new;
                        Poll::Ready(new)

                    } else {
                        continue;
                    }""", """                    let new = Some(new_value != *value);

                    if *matches != new {
                        *matches = new;
                        Poll::Ready(new)

                    } else {
                        Poll::Pending
                    }"""), "a change which doesn't change the result of neq, followed by one which does",
"neq returns pending without its input having stored the waker: it isn't woken for the next change", r"""
fn main() {
    let m = Mutable::new(1);
    let mut s = m.signal().neq(1);
    let (c, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(false)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(1);
    assert_eq!(c.get(), 1);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(2);
    assert_eq!(c.get(), 2, "not woken");
}
""")

bug("c13-switch-keeps-old-inner", "C13", S, ("""            Some(Poll::Ready(Some(new_inner))) => {
                inner.set(Some(new_inner));
                false
            },
            Some(Poll::Pending) => false,
        };

        match inner""", """            Some(Poll::Ready(Some(new_inner))) => {
                inner.set(Some(new_inner));

                // It might have ended right after the new signal
                match signal.as_mut().as_pin_mut().map(|signal| signal.poll_change(cx)) {
                    Some(Poll::Ready(None)) => {
                        signal.set(None);
                        true
                    },
                    _ => false,
                }
            },
            Some(Poll::Pending) => false,
        };

        match inner"""), "an outer signal which delivers two inner signals in a row (e.g. it changed while it was polled)",
"the second inner signal is thrown away, the output keeps following the older one", r"""
fn main() {
    let a = Mutable::new(1); let b = Mutable::new(10);
    let outer = Script { next: vec![Poll::Ready(Some(a.signal())), Poll::Ready(Some(b.signal())), Poll::Pending].into() };
    let mut s = outer.flatten();
    let (_, w) = count();
    let mut last = None;
    while let Poll::Ready(Some(v)) = poll(&mut s, &w) { last = Some(v); }
    assert_eq!(last, Some(10));
}
""")

bug("c14-from-stream-oldest", "C14", S, ("""                Some(Poll::Ready(Some(new_value))) => {
                    value = Some(new_value);
                    continue;
                },

                Some(Poll::Pending) => {
                    break false;
                },
            }
        };

        match value {""", """                Some(Poll::Ready(Some(new_value))) => {
                    value = Some(new_value);
                    break false;
                },

                Some(Poll::Pending) => {
                    break false;
                },
            }
        };

        match value {"""), "several items ready at one poll", "from_stream carries old items instead of the newest when polled", r"""
fn main() {
    let mut s = signal::from_stream(futures_util::stream::iter(vec![1, 2, 3]));
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(3))));
}
""")

bug("c15-to-future-pending-after-value", "C15", S, ("""                Poll::Ready(Some(new_value)) => {
                    *this.value = Some(new_value);
                    continue;
                },
                Poll::Pending => {
                    Poll::Pending
                },
            }
        }
    }
}


#[pin_project(project = MapProj)]""", """                Poll::Ready(Some(new_value)) => {
                    if this.value.replace(new_value).is_none() {
                        continue;
                    }

                    Poll::Pending
                },
                Poll::Pending => {
                    Poll::Pending
                },
            }
        }
    }
}


#[pin_project(project = MapProj)]"""), "a change after the first poll of to_future, and then the end",
"to_future returns pending without the waker being stored, so it is never woken for the end", r"""
fn main() {
    let m = Mutable::new(1);
    let mut f = Box::pin(m.signal().to_future());
    let (c, w) = count();
    assert_eq!(f.as_mut().poll(&mut Context::from_waker(&w)), Poll::Pending);
    m.set(2);
    let n = c.get();
    assert_eq!(n, 1);
    assert_eq!(f.as_mut().poll(&mut Context::from_waker(&w)), Poll::Pending);
    drop(m);
    assert!(c.get() > n, "not woken for the end");
}
""")

bug("c17-insert-clone-end", "C17", V, ("""        fn insert_clone(&mut self, index: usize, value: A) {
            if index == self.values.len() {""", """        fn insert_clone(&mut self, index: usize, value: A) {
            if index >= self.values.len() {"""), "insert_cloned with an index beyond the end",
"an out of range insert_cloned appends instead of panicking like Vec::insert", r"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v = MutableVec::new_with_values(vec![1, 2]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.lock_mut().insert_cloned(5, 3)));
    if r.is_ok() { eprintln!("did not panic"); std::process::exit(1); }
}
""")

bug("c17-clear-keeps-replace", "C17", V, ("""        fn replace_copy(&mut self, values: Vec<A>) {
            self.notify_with(values,""", """        fn replace_copy(&mut self, values: Vec<A>) {
            if values.is_empty() {
                self.senders.retain(|sender| !sender.is_closed());
            }

            if values.is_empty() && self.values.len() <= 1 {
                self.values.clear();
                self.notify(|| VecDiff::Pop {});
                return;
            }

            self.notify_with(values,"""), "replace with an empty list on an empty list",
"the listeners get a pop for an empty list", r"""
fn main() {
    let v: MutableVec<u32> = MutableVec::new();
    let mut s = v.signal_vec(); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().replace(vec![]);
    sync(&mut s, &mut list);
    assert!(list.is_empty());
}
""")

bug("c18-filter-replace-keeps-indexes", "C18", V, ("""                    *indexes = Vec::with_capacity(values.len());

                    Poll::Ready(Some(VecDiff::Replace {
                        values: values.into_iter().filter_map(|value| {
                            let value = callback(value);
                            indexes.push(value.is_some());
                            value""", """                    // Reuse the memory
                    indexes.truncate(values.len());
                    let mut index = 0;

                    Poll::Ready(Some(VecDiff::Replace {
                        values: values.into_iter().filter_map(|value| {
                            let value = callback(value);
                            if index < indexes.len() {
                                indexes[index] |= value.is_some();
                            } else {
                                indexes.push(value.is_some());
                            }
                            index += 1;
                            value"""), "a second replace in which a value at a kept position is rejected, followed by a change at or after it",
"filter and filter_map use wrong positions after a replace", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2, 3]);
    let mut s = v.signal_vec().filter(|x| *x > 0); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().replace(vec![-1, 2, 3]);
    sync(&mut s, &mut list);
    v.lock_mut().set(1, 5);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![5, 3]);
}
""")

bug("c19-filter-signal-update-stale", "C19", V, ("""                                state.signal = Some(signal);
                                state.value = value.clone();
                                state.exists = new_poll;""", """                                state.signal = Some(signal);
                                if new_poll {
                                    state.value = value.clone();
                                }
                                state.exists = new_poll;"""), "an item updated while its new signal is false, which becomes true later",
"the old value of the item appears when its filter signal becomes true", r"""
fn main() {
    let show = Mutable::new(false);
    let v = MutableVec::new_with_values(vec![1]);
    let sh = show.clone();
    let mut s = Box::pin(v.signal_vec().filter_signal_cloned(move |_| sh.signal())); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().set(0, 2);
    sync(&mut s, &mut list);
    show.set(true);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![2]);
}
""")

bug("c19-map-signal-ended-break", "C19", V, ("""                Some(Poll::Ready(Some(value))) => {
                    new_pending.push(VecDiff::UpdateAt { index, value });
                },
                Some(Poll::Ready(None)) => {
                    *signal = None;
                },
                Some(Poll::Pending) => {
                    has_pending = true;
                },
                None => {},
            }
        }

        if let Some(first) = new_pending.first {
            *pending = new_pending.rest;
            Poll::Ready(Some(first))

        } else if done && !has_pending {
            Poll::Ready(None)

        } else {
            Poll::Pending
        }
    }
}


#[derive(Debug)]
struct FilterSignalClonedState""", """                Some(Poll::Ready(Some(value))) => {
                    new_pending.push(VecDiff::UpdateAt { index, value });
                },
                Some(Poll::Ready(None)) => {
                    *signal = None;
                    has_pending = false;
                },
                Some(Poll::Pending) => {
                    has_pending = true;
                },
                None => {},
            }
        }

        if let Some(first) = new_pending.first {
            *pending = new_pending.rest;
            Poll::Ready(Some(first))

        } else if done && !has_pending {
            Poll::Ready(None)

        } else {
            Poll::Pending
        }
    }
}


#[derive(Debug)]
struct FilterSignalClonedState"""), "the input has ended, a later item's signal ends while an earlier one's is still alive",
"map_signal ends although an item signal is still alive", r"""
fn main() {
    let a = Mutable::new(1); let b = Mutable::new(2);
    let (a2, b2) = (a.read_only(), b.read_only());
    let mut s = Box::pin(signal_vec::always(vec![0, 1]).map_signal(move |i| if i == 0 { a2.signal() } else { b2.signal() })); let mut list = vec![];
    assert!(!sync(&mut s, &mut list));
    drop(b);
    assert!(!sync(&mut s, &mut list), "ended too early");
    a.set(7);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![7, 2]);
}
""")

bug("c20-sort-update-inplace", "C20", V, ("""                            if old_index == new_index {
                                indexes.insert(new_index, index);
""", """                            // If it is between the same values then it doesn't need to be moved
                            if old_index == new_index || (new_index > 0 && compare(&values[indexes[new_index - 1]], &values[index]) == Ordering::Equal && old_index == new_index - 1) {
                                let new_index = old_index;
                                indexes.insert(new_index, index);
"""), "an update which makes an item equal to its right neighbour, whose input position is before it",
"equal items are not in input order any more, later removals panic", r"""
fn main() {
    // input: (2,'a') (1,'b'): sorted b a. Update b to 2: a b
    let v = MutableVec::new_with_values(vec![(2, 'a'), (1, 'b')]);
    let mut s = v.signal_vec().sort_by_cloned(|a, b| a.0.cmp(&b.0)); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().set(1, (2, 'b'));
    sync(&mut s, &mut list);
    assert_eq!(list, vec![(2, 'a'), (2, 'b')]);
}
""")

bug("c20-sort-move-skips-indexes", "C20", V, ("""                            if old_sorted_index == new_sorted_index {
                                continue;

                            } else {
                                Poll::Ready(Some(VecDiff::Move {
                                    old_index: old_sorted_index,""", """                            if old_sorted_index == new_sorted_index || compare(&values[indexes[old_sorted_index]], &values[new_index]) == Ordering::Equal {
                                continue;

                            } else {
                                Poll::Ready(Some(VecDiff::Move {
                                    old_index: old_sorted_index,"""), "a move among equal items",
"the listeners are not told that equal items changed their order", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![(1, 'a'), (1, 'b'), (1, 'c')]);
    let mut s = v.signal_vec().sort_by_cloned(|a, b| a.0.cmp(&b.0)); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().move_from_to(0, 2);
    sync(&mut s, &mut list);
    assert_eq!(list, v.lock_ref().to_vec());
}
""")

bug("c21-chain-right-update", "C21", V, ("""                    VecDiff::RemoveAt { index } => {
                        *self.right_len -= 1;
                        Some(VecDiff::RemoveAt { index: index + *self.left_len })
                    },""", """                    VecDiff::RemoveAt { index } => {
                        if index + 1 < *self.right_len {
                            *self.right_len -= 1;
                        }
                        Some(VecDiff::RemoveAt { index: index + *self.left_len })
                    },"""), "a RemoveAt (not a pop) of the last right item, then changes on the left which depend on the right being empty, or a replace",
"the length of the right side is too large, a later replace of the right side pops too many items", r"""
fn main() {
    let right = VecScript { next: vec![
        Poll::Ready(Some(VecDiff::Replace { values: vec![10, 11] })),
        Poll::Ready(Some(VecDiff::RemoveAt { index: 1 })),
        Poll::Ready(Some(VecDiff::Replace { values: vec![20] })),
        Poll::Ready(None)].into() };
    let mut s = signal_vec::always(vec![1, 2]).chain(right); let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 2, 20]);
}
""")

bug("c21-flatten-ended-inner-len", "C21", V, ("""                Some(Poll::Ready(None)) => {
                    self.signal_vec = None;
                    true
                },
                Some(Poll::Pending) => {
                    false
                },
                None => {
                    true
                },
            };
        }
    }
}

#[pin_project(project = FlattenProj)]""", """                Some(Poll::Ready(None)) => {
                    self.signal_vec = None;
                    pending.first.is_none()
                },
                Some(Poll::Pending) => {
                    false
                },
                None => {
                    prev_len == 0
                },
            };
        }
    }
}

#[pin_project(project = FlattenProj)]"""), "all lists ended, with an ended inner list after a non-empty one",
"flatten never ends", r"""
fn main() {
    let mut s = signal_vec::always(vec![vec![1], vec![2]]).map(|x| signal_vec::always(x)).flatten(); let mut list = vec![];
    assert!(sync(&mut s, &mut list), "does not end");
}
""")

bug("c22-enumerate-move-range", "C22", V, ("""                        decrement_indexes(&mutables[old_index..new_index]);
""", """                        decrement_indexes(&mutables[old_index..(new_index - 1)]);
"""), "a move to the right by at least one", "the item right before the new place keeps its old index", r"""
fn main() {
    let v = MutableVec::new_with_values(vec!['a', 'b', 'c']);
    let mut s = v.signal_vec().enumerate(); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().move_from_to(0, 2);
    sync(&mut s, &mut list);
    let got: Vec<_> = list.iter().map(|(i, c)| (i.get(), *c)).collect();
    assert_eq!(got, vec![(Some(0), 'b'), (Some(1), 'c'), (Some(2), 'a')]);
}
""")

bug("c22-enumerate-replace-no-none", "C22", V, ("""                    for mutable in mutables.drain(..) {
                        // TODO use set_neq ?
                        mutable.set(None);
                    }

                    *mutables = Vec::with_capacity(values.len());
""", """                    for mutable in mutables.drain(values.len().min(mutables.len())..) {
                        // TODO use set_neq ?
                        mutable.set(None);
                    }

                    *mutables = Vec::with_capacity(values.len());
"""), "a replace of a non-empty list by a list which is not shorter",
"the index signals of replaced items keep their old index instead of becoming none", r"""
fn main() {
    let v = MutableVec::new_with_values(vec!['a', 'b']);
    let mut s = v.signal_vec().enumerate(); let mut list = vec![];
    sync(&mut s, &mut list);
    let old = list[0].0.clone();
    v.lock_mut().replace(vec!['x', 'y', 'z']);
    sync(&mut s, &mut list);
    assert_eq!(old.get(), None);
}
""")

bug("c23-sum-replace-same-len", "C23", V, ("""                        VecDiff::Replace { values: new_values } => {
                            // TODO only mark changed if the values are different
                            *values = new_values;
                        },
""", """                        VecDiff::Replace { values: new_values } => {
                            let is_empty = new_values.is_empty();
                            *values = new_values;

                            // The sum of nothing is always 0
                            if is_empty {
                                continue;
                            }
                        },
"""), "replacing a non-empty list with an empty one", "sum keeps the old sum", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2]);
    let mut s = v.signal_vec().sum();
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(3)));
    v.lock_mut().replace(vec![]);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(0)));
}
""")

bug("c23-len-changed-reset", "C23", V, ("""                        VecDiff::UpdateAt { .. } | VecDiff::Move { .. } => {},

                        VecDiff::RemoveAt { .. } | VecDiff::Pop {} => {
                            *len -= 1;
                            changed = true;
                        },

                        VecDiff::Clear {} => {
                            if *len != 0 {
                                *len = 0;
                                changed = true;
                            }
                        },""", """                        VecDiff::UpdateAt { .. } | VecDiff::Move { .. } => {},

                        VecDiff::RemoveAt { .. } | VecDiff::Pop {} => {
                            *len -= 1;
                            changed = true;
                        },

                        VecDiff::Clear {} => {
                            changed = *len != 0;
                            *len = 0;
                        },"""), "a batch in which the list becomes empty by removals and is then cleared (a chained or merged input)",
"len isn't delivered for that batch", r"""
fn main() {
    let mut s = VecScript { next: vec![
        Poll::Ready(Some(VecDiff::Push { value: 1 })), Poll::Pending,
        Poll::Ready(Some(VecDiff::Pop {})), Poll::Ready(Some(VecDiff::Clear {})), Poll::Pending].into() }.len();
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(0)));
}
""")

bug("c24-find-index-removing", "C24", V, ("""        futures.into_iter().rposition(|state| !state.is_removing)
""", """        match futures.last() {
            Some(state) if !state.is_removing => Some(futures.len() - 1),
            Some(_) => futures.into_iter().position(|state| !state.is_removing),
            None => None,
        }
"""), "a pop while an already removed item is waiting at the end, with at least two other items",
"the wrong item is removed", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2, 3]);
    let ready = Rc::new(Cell::new(false)); let r = ready.clone();
    let mut s = v.signal_vec().delay_remove(move |_| { let r = r.clone(); std::future::poll_fn(move |_| if r.get() { Poll::Ready(()) } else { Poll::Pending }) }); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().pop(); sync(&mut s, &mut list);
    v.lock_mut().pop(); sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 2, 3]);
    ready.set(true);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1]);
}
""")

bug("c24-replace-existing", "C24", V, ("""                            if futures.len() == 0 {
                                *futures = values""", """                            if futures.iter().all(|state| state.is_removing) {
                                *futures = values"""), "a replace while all the items are already waiting for their removal",
"items whose removal is still delayed vanish at once", r"""
fn main() {
    let v = MutableVec::new_with_values(vec![1]);
    let mut s = v.signal_vec().delay_remove(move |_| std::future::pending()); let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().clear(); sync(&mut s, &mut list);
    v.lock_mut().replace(vec![5]); sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 5]);
}
""")

bug("c25-switch-vec-len-insert", "C25", S, ("""                VecDiff::InsertAt { .. } | VecDiff::Push { .. } => {
                    *len += 1;
                },
                VecDiff::RemoveAt""", """                VecDiff::Push { .. } => {
                    *len += 1;
                },
                VecDiff::InsertAt { index, .. } => {
                    *len = (*len).max(*index);
                },
                VecDiff::RemoveAt"""), "an empty list filled by an insert at 0, then removed or switched",
"items of the old list are left over after switching, or it panics", r"""
fn main() {
    let m = Mutable::new(0);
    let mut s = Box::pin(m.signal().switch_signal_vec(|x| if x == 0 {
        VecScript { next: vec![Poll::Ready(Some(VecDiff::InsertAt { index: 0, value: 1 }))].into() }
    } else { VecScript { next: vec![].into() } })); let mut list = vec![];
    sync(&mut s, &mut list);
    m.set(1);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![]);
}
""")

bug("c26-insert-cloned-update", "C26", P, ("""            if let Some(value) = self.values.insert(key, value) {
                self.notify_clone(x, |(key, value)| MapDiff::Update { key, value });
                Some(value)
""", """            if let Some(value) = self.values.insert(key, value) {
                // There aren't any listeners which need to be updated
                if self.values.len() > 1 || self.senders.len() == 1 {
                    self.notify_clone(x, |(key, value)| MapDiff::Update { key, value });
                }
                Some(value)
"""), "a map with one entry and at least two listeners", "an update isn't sent to the listeners", r"""
fn main() {
    let m = MutableBTreeMap::new();
    let mut a = m.signal_map_cloned(); let mut b = m.signal_map_cloned();
    let (_, w) = count();
    m.lock_mut().insert_cloned(1, 1);
    m.lock_mut().insert_cloned(1, 2);
    let _ = poll_map(&mut a, &w);
    assert!(poll_map(&mut a, &w).is_ready());
    let _ = &mut b;
}
""")

bug("c27-keys-update-skip", "C27", P, ("""                        MapDiff::Update { .. } => {
                            continue;
                        },""", """                        MapDiff::Update { .. } => {
                            Poll::Pending
                        },"""), "an update of an existing key followed by another change",
"the key list returns pending without having stored the waker: it isn't woken for the next change", r"""
fn main() {
    let m = MutableBTreeMap::new();
    m.lock_mut().insert(1, 1);
    let mut s = m.signal_vec_keys();
    let (c, w) = count();
    assert!(poll_vec(&mut s, &w).is_ready());
    assert!(poll_vec(&mut s, &w).is_pending());
    m.lock_mut().insert(1, 2);
    let n = c.get();
    assert!(poll_vec(&mut s, &w).is_pending());
    m.lock_mut().insert(2, 2);
    assert!(c.get() > n, "not woken");
}
""")

bug("c27-map-value-signal-insert-existing", "C27", P, ("""                        MapDiff::Replace { entries } => {
                            *signals = BTreeMap::new();

                            MapDiff::Replace {
                                entries: entries.into_iter().map(|(key, value)| {""", """                        MapDiff::Replace { entries } => {
                            signals.retain(|key, _| entries.iter().any(|(k, _)| k > key) || entries.is_empty());

                            MapDiff::Replace {
                                entries: entries.into_iter().map(|(key, value)| {"""), "a replace which removes a key smaller than a remaining one (or all of them), whose signal then changes",
"updates for keys which are not in the map any more", r"""
fn main() {
    let a = Mutable::new(0); let ar = a.read_only();
    let m = MutableBTreeMap::new();
    m.lock_mut().insert(1, 1);
    let mut s = Box::pin(m.signal_map().map_value_signal(move |_| ar.signal()));
    let (_, w) = count();
    let mut keys = std::collections::BTreeSet::new();
    let mut sync = |s: &mut Pin<Box<_>>| { while let Poll::Ready(Some(d)) = poll_map(s, &w) { match d {
        MapDiff::Replace { entries } => keys = entries.iter().map(|e| e.0).collect(),
        MapDiff::Insert { key, .. } => { keys.insert(key); },
        MapDiff::Update { key, .. } => assert!(keys.contains(&key), "update of an absent key"),
        MapDiff::Remove { key } => { keys.remove(&key); },
        MapDiff::Clear {} => keys.clear(),
    } } };
    sync(&mut s);
    m.lock_mut().replace(Some((5, 5)).into_iter().collect());
    sync(&mut s);
    a.set(1);
    sync(&mut s);
}
""")

bug("c29-deserialize-map-last", "C29", P, ("""            <BTreeMap<K, V>>::deserialize(deserializer).map(MutableBTreeMap::with_values)
""", """            <BTreeMap<K, V>>::deserialize(deserializer).or_else(|_| Ok(BTreeMap::new())).map(MutableBTreeMap::with_values)
"""), "malformed input for a map", "malformed input gives an empty map instead of an error", r"""
fn main() {
    let r: Result<MutableBTreeMap<String, u32>, _> = serde_json::from_str(r#"{"a": "x"}"#);
    assert!(r.is_err());
}
""")

bug("c30-vec-senders-kept", "C30", V, ("""        fn notify<B: FnMut() -> VecDiff<A>>(&mut self, mut change: B) {
            self.senders.retain(|sender| {
                sender.unbounded_send(change()).is_ok()
            });
        }""", """        fn notify<B: FnMut() -> VecDiff<A>>(&mut self, mut change: B) {
            for sender in self.senders.iter() {
                let _ = sender.unbounded_send(change());
            }
        }"""), "many listeners created and dropped, with changes which only notify (pop, remove, push of Copy values)",
"the senders of dropped listeners are never removed, memory grows without bound", r"""
use std::alloc::{GlobalAlloc, Layout, System};
struct Counting; static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: Counting = Counting;
fn main() {
    let v = MutableVec::new_with_values(vec![1]);
    let mut at = Vec::with_capacity(2000);
    for _ in 0..2000 {
        drop(v.signal_vec());
        { let mut l = v.lock_mut(); l.push(1); l.pop(); }
        at.push(BYTES.load(SeqCst));
    }
    assert!(at[1999] < at[200] + 10_000, "memory grows: {} {}", at[200], at[1999]);
}
""")

bug("c30-mutable-dead-signals-kept", "C30", M, ("""            if let Some(signal) = signal.upgrade() {
                signal.wake(has_changed);
                true

            } else {
                false
            }
        });
    }
}


#[derive(Debug)]
struct MutableState""", """            if let Some(signal) = signal.upgrade() {
                signal.wake(has_changed);
            }

            true
        });
    }
}


#[derive(Debug)]
struct MutableState"""), "many signals of one Mutable created and dropped",
"the entries of dropped signals are never removed, memory grows without bound", r"""
use std::alloc::{GlobalAlloc, Layout, System};
struct Counting; static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: Counting = Counting;
fn main() {
    let m = Mutable::new(1);
    let mut at = Vec::with_capacity(2000);
    for i in 0..2000 { drop(m.signal()); m.set(i); at.push(BYTES.load(SeqCst)); }
    assert!(at[1999] < at[200] + 10_000, "memory grows: {} {}", at[200], at[1999]);
}
""")
