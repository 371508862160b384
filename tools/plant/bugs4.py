S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c06-close-drops-value", "C06", CH, ("""                inner.remove_all_senders();
                inner.notify();""", """                inner.remove_all_senders();
                // Nothing can be sent any more, so release what is stored
                drop(inner.value.take());
                inner.notify();"""), "the channel is closed before the receiver has taken the last value",
"the last value which was sent before the close is lost", r"""
fn main() {
    let (s, mut r) = channel(0);
    let (_, w) = count();
    assert_eq!(poll(&mut r, &w), Poll::Ready(Some(0)));
    s.send(1).unwrap();
    s.close();
    assert_eq!(poll(&mut r, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut r, &w), Poll::Ready(None));
}
""")

bug("c12-filter-map-none-again", "C12", S, ("""                        if *first {
                            *first = false;
                            Poll::Ready(Some(None))

                        } else {
                            continue;
                        }""", """                        if *first {
                            Poll::Ready(Some(None))

                        } else {
                            continue;
                        }"""), "filter_map rejects several values before it accepts the first",
"filter_map delivers a none for each of them", r"""
fn main() {
    let m = Mutable::new(0);
    let mut s = Box::pin(m.signal().filter_map(|x| if x > 10 { Some(x) } else { None }));
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(None)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(5);
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.set(50);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(50))));
}
""")

bug("c26-dead-listener-ends-next", "C26", MP, ("""                    self.senders.retain(move |sender| {
                        let value = copy.take().unwrap();

                        len -= 1;

                        // This isn't the last element
                        if len != 0 {
                            copy = Some(value.clone());
                        }
""", """                    self.senders.retain(move |sender| {
                        let value = match copy.take() {
                            Some(value) => value,
                            None => return false,
                        };

                        len -= 1;

                        // This isn't the last element
                        if len != 0 && !sender.is_closed() {
                            copy = Some(value.clone());
                        }
"""), "a listener of the map is dropped, and another which was created after it is still there when the map changes",
"the listeners after a dropped one miss the change and end", r"""
fn main() {
    let m: MutableBTreeMap<u32, String> = MutableBTreeMap::new();
    let (_, w) = count();
    let first = m.signal_map_cloned();
    let mut second = m.signal_map_cloned();
    drop(first);
    m.lock_mut().insert_cloned(1, "a".into());
    match poll_map(&mut second, &w) {
        Poll::Ready(Some(MapDiff::Insert { key: 1, .. })) => {},
        x => panic!("{:?}", x),
    }
    assert!(poll_map(&mut second, &w).is_pending());
}
""")

bug("c17-excluded-start", "C17", V, ("""            Bound::Excluded(start) => {
                start.checked_add(1).unwrap_or_else(|| panic!("attempted to index slice from after maximum usize"))
            }""", """            Bound::Excluded(&start) => start,"""), "drain with a range whose start is excluded, a pair of bounds",
"drain removes one item too many", r"""
use std::ops::Bound;
fn main() {
    let v = MutableVec::new_with_values(vec![1, 2, 3, 4]);
    let got: Vec<i32> = v.lock_mut().drain((Bound::Excluded(0), Bound::Included(2))).collect();
    assert_eq!(got, vec![2, 3]);
    assert_eq!(v.lock_ref().to_vec(), vec![1, 4]);
}
""")

bug("c25-switch-vec-stale-len", "C25", S, ("""                        *len = values.len();

                        Poll::Ready(Some(VecDiff::Replace { values }))""", """                        Poll::Ready(Some(VecDiff::Replace { values }))"""),
"switching between two filled lists, then removing more items than the first one had",
"switch_signal_vec panics (or wraps its length)", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1]);
    let b = MutableVec::new_with_values(vec![1, 2, 3]);
    let which = Mutable::new(false);
    let (a2, b2) = (a.clone(), b.clone());
    let mut s = Box::pin(which.signal().switch_signal_vec(move |x| if x { b2.signal_vec() } else { a2.signal_vec() }));
    let mut list = vec![];
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1]);
    which.set(true);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 2, 3]);
    b.lock_mut().pop();
    b.lock_mut().pop();
    b.lock_mut().remove(0);
    sync(&mut s, &mut list);
    assert!(list.is_empty());
    b.lock_mut().push(7);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![7]);
}
""")

bug("c27-key-update-only-present", "C27", MP, ("""                    Some(MapDiff::Remove { key }) => {
                        if key == *watch_key {
                            changed = Some(None);
                        }
                        continue;
                    },""", """                    Some(MapDiff::Remove { key }) => {
                        if key == *watch_key && changed.take().is_none() {
                            changed = Some(None);
                        }
                        continue;
                    },"""), "the watched key is changed and then removed between two polls",
"key_cloned keeps the old value", r"""
fn main() {
    let m: MutableBTreeMap<u32, u32> = MutableBTreeMap::with_values([(1, 1)].into());
    let mut s = Box::pin(m.signal_map().key_cloned(1));
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(Some(1))));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    m.lock_mut().insert(1, 2);
    m.lock_mut().remove(&1);
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(None)));
}
""")

bug("c16-map-signal-move-swaps", "C16", V, ("""                            let value = signals.remove(old_index);
                            signals.insert(new_index, value);
                            VecDiff::Move { old_index, new_index }""", """                            signals.swap(old_index, new_index);
                            VecDiff::Move { old_index, new_index }"""), "an item is moved by more than one place, and an item's signal changes later",
"the change is delivered at the place of another item", r"""
fn main() {
    let cells: Vec<Mutable<i32>> = (0..4).map(|i| Mutable::new(i)).collect();
    let v = MutableVec::new_with_values(vec![0usize, 1, 2, 3]);
    let c2 = cells.clone();
    let mut s = Box::pin(v.signal_vec().map_signal(move |i| c2[i].signal()));
    let mut list = vec![];
    sync(&mut s, &mut list);
    v.lock_mut().move_from_to(0, 3);
    sync(&mut s, &mut list);
    cells[2].set(20);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 20, 3, 0]);
}
""")

bug("c29-missing-field", "C29", V, ("""    Move {
        old_index: usize,
        new_index: usize,
    },""", """    Move {
        old_index: usize,
        #[cfg_attr(feature = "serde", serde(default))]
        new_index: usize,
    },"""), "a list diff which lacks a field is deserialized",
"malformed input is accepted as a different diff", r"""
fn main() {
    let r: Result<VecDiff<i32>, _> = serde_json::from_str("{\"Move\":{\"old_index\":3}}");
    assert!(r.is_err(), "{:?}", r);
    let r: Result<VecDiff<i32>, _> = serde_json::from_str("{\"Move\":{\"old_index\":3,\"new_index\":1}}");
    assert!(r.is_ok());
}
""")
