S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c09-replace-with-read", "C09", M, ("""        let new_value = f(&mut state.value);
        let value = std::mem::replace(&mut state.value, new_value);
""", """        // Takes the value out, so that it doesn't need to be replaced
        let mut value = unsafe { std::ptr::read(&state.value) };
        let new_value = f(&mut value);
        unsafe { std::ptr::write(&mut state.value, new_value) };
"""),
"the closure given to replace_with panics",
"the old value is dropped twice", r"""
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct D;
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
fn main() {
    let m = Mutable::new(D);
    let m2 = m.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        m.replace_with(|_| panic!("on purpose"));
    }));
    assert!(r.is_err());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { drop(m2); drop(m); }));
    drop(r);
    assert!(DROPS.load(SeqCst) <= 1);
}
""")

bug("c11-end-drops-value", "C11", I, ("""            Some(Poll::Ready(None)) => {
                this.signal.set(None);

                PollResult {
                    changed: false,
                    done: true,
                }
            },
            Some(Poll::Ready(a)) => {
                *this.value = a;

                PollResult {
                    changed: true,
                    done: false,
                }
            },
            Some(Poll::Pending)""", """            Some(Poll::Ready(a)) => {
                let done = a.is_none();

                // Frees the memory of the signal and its value as soon as possible
                if done {
                    this.signal.set(None);
                }

                *this.value = a;

                PollResult {
                    changed: !done,
                    done,
                }
            },
            Some(Poll::Pending)"""),
"an input ends while another one lives and changes later",
"its last value is lost, the next change of another input panics", r"""
fn main() {
    let a = Mutable::new(1);
    let b = Mutable::new(2);
    let mut s = Box::pin(map_ref! { let x = a.signal(), let y = b.signal() => *x + *y });
    let (_w, waker) = count();
    let mut c = Context::from_waker(&waker);
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Ready(Some(3)));
    drop(a);
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Pending);
    b.set(5);
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Ready(Some(6)));
}
""")

bug("c12-stop-if-end", "C12", S, ("""                Poll::Ready(None) => {
                    *stopped = true;
                    Poll::Ready(None)
                },
                Poll::Pending => Poll::Pending,
            }
        }
    }
}


#[pin_project(project = EqProj)]""", """                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            }
        }
    }
}


#[pin_project(project = EqProj)]"""),
"stop_if is polled after its input has ended",
"the input is polled again after its end", r"""
struct Once(usize);
impl Signal for Once {
    type Item = usize;
    fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<usize>> {
        self.0 += 1;
        match self.0 { 1 => Poll::Ready(Some(1)), 2 => Poll::Ready(None), _ => panic!("polled after its end") }
    }
}
fn main() {
    let mut s = Box::pin(Once(0).stop_if(|x| *x == 5));
    let (_w, waker) = count();
    let mut c = Context::from_waker(&waker);
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Ready(Some(1)));
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Ready(None));
    assert_eq!(s.as_mut().poll_change(&mut c), Poll::Ready(None));
}
""")

bug("c16-chain-right-end", "C16", V, ("""            Some(Poll::Ready(None)) => {
                self.right.set(None);
                None
            },""", """            Some(Poll::Ready(None)) => {
                self.right.set(None);
                *self.right_len = 0;
                None
            },"""),
"chain whose right list ended with items, and then the left one is replaced or cleared, or grows by a push",
"the items of the right list are lost or come too early", r"""
fn main() {
    let a = MutableVec::new_with_values(vec![1, 2]);
    let b = MutableVec::new_with_values(vec![3, 4]);
    let mut s = Box::pin(a.signal_vec().chain(b.signal_vec()));
    let mut list = vec![];
    sync(&mut s, &mut list);
    drop(b);
    sync(&mut s, &mut list);
    a.lock_mut().push(9);
    sync(&mut s, &mut list);
    assert_eq!(list, vec![1, 2, 9, 3, 4]);
}
""")

bug("c16-switch-vec-same-len", "C16", S, ("""                Some(Poll::Pending) => {
                    new_signal_vec(len)
                },

                Some(Poll::Ready(None)) => {
                    signal_vec.set(None);

""", """                Some(Poll::Pending) => {
                    // It will give a Replace
                    Poll::Pending
                },

                Some(Poll::Ready(None)) => {
                    signal_vec.set(None);

"""),
"switch_signal_vec to a list which has nothing yet (e.g. a filtered or delayed one)",
"the items of the old list stay", r"""
fn main() {
    let a = Mutable::new(true);
    let old = MutableVec::new_with_values(vec![1, 2]);
    let mut s = Box::pin(a.signal().switch_signal_vec(move |x| {
        if x { old.signal_vec() } else { MutableVec::<i32>::new().signal_vec() }
    }));
    let (_w, waker) = count();
    let mut c = Context::from_waker(&waker);
    let mut list = vec![];
    while let Poll::Ready(Some(d)) = s.as_mut().poll_vec_change(&mut c) { d.apply_to_vec(&mut list); }
    assert_eq!(list, vec![1, 2]);
    a.set(false);
    while let Poll::Ready(Some(d)) = s.as_mut().poll_vec_change(&mut c) { d.apply_to_vec(&mut list); }
    let pending = MutableVec::<i32>::new();
    let b = Mutable::new(true);
    let old = MutableVec::new_with_values(vec![1, 2]);
    let p = pending.clone();
    let mut s = Box::pin(b.signal().switch_signal_vec(move |x| {
        if x { old.signal_vec() } else { p.signal_vec() }
    }));
    let mut list2 = vec![];
    while let Poll::Ready(Some(d)) = s.as_mut().poll_vec_change(&mut c) { d.apply_to_vec(&mut list2); }
    b.set(false);
    while let Poll::Ready(Some(d)) = s.as_mut().poll_vec_change(&mut c) { d.apply_to_vec(&mut list2); }
    assert_eq!(list2, Vec::<i32>::new());
}
""")
