S = "src/signal/signal.rs"; V = "src/signal_vec.rs"; MP = "src/signal_map.rs"; B = "src/signal/broadcaster.rs"; M = "src/signal/mutable.rs"
A = "src/atomic.rs"; CH = "src/signal/channel.rs"; F = "src/future.rs"; I = "src/internal.rs"; MA = "src/signal/macros.rs"

bug("c04-set-if-args", "C04", M, ("""        if f(&state.value, &value) {""", """        if f(&value, &state.value) {"""),
"set_if with a condition which isn't symmetric",
"the condition gets the new value as the old one", r"""
fn main() {
    let m = Mutable::new(1);
    m.set_if(5, |old, new| new > old);
    assert_eq!(m.get(), 5);
}
""")

bug("c03-set-if-try-write", "C03", M, ("""    pub fn set_if<F>(&self, value: A, f: F) where F: FnOnce(&A, &A) -> bool {
        let mut state = self.state().lock.write().unwrap();
""", """    pub fn set_if<F>(&self, value: A, f: F) where F: FnOnce(&A, &A) -> bool {
        // It's conditional anyways, so it doesn't wait
        let mut state = match self.state().lock.try_write() {
            Ok(state) => state,
            Err(_) => return,
        };
"""),
"set_if or set_neq while another thread holds the lock",
"the value isn't set", r"""
fn main() {
    watchdog(20);
    let m = Mutable::new(1);
    let m2 = m.clone();
    let (tx, rx) = mpsc::channel();
    let t = std::thread::spawn(move || {
        let _lock = m2.lock_ref();
        tx.send(()).unwrap();
        std::thread::sleep(Duration::from_millis(300));
    });
    rx.recv().unwrap();
    m.set_neq(2);
    t.join().unwrap();
    assert_eq!(m.get(), 2);
}
""")

bug("c02-drop-takes-signals", "C02", M, ("""            if lock.signals.len() > 0 {
                lock.notify(false);
                // TODO is this necessary ?
                lock.signals = vec![];
            }""", """            // Wakes up the signals without keeping it locked
            let signals = std::mem::replace(&mut lock.signals, vec![]);
            drop(lock);

            for signal in signals.iter().take_while(|signal| signal.strong_count() > 0) {
                if let Some(signal) = signal.upgrade() {
                    signal.wake(false);
                }
            }"""),
"a signal was dropped, and one which was created later is asleep when the last handle is dropped",
"the later signals aren't woken up, so they don't end", r"""
fn main() {
    let m = Mutable::new(1);
    let a = m.signal();
    let mut b = m.signal();
    let (c, w) = count();
    assert_eq!(poll(&mut b, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut b, &w), Poll::Pending);
    drop(a);
    drop(m);
    assert_eq!(c.get(), 1);
    assert_eq!(poll(&mut b, &w), Poll::Ready(None));
}
""")

bug("c13-switch-outer-once", "C13", S, ("""            Some(Poll::Ready(Some(new_inner))) => {
                inner.set(Some(new_inner));
                false
            },
            Some(Poll::Pending) => false,
        };

        match inner.as_mut().as_pin_mut().map(|inner| inner.poll_change(cx)) {
            Some(Poll::Ready(None)) => {
                inner.set(None);
            },""", """            Some(Poll::Ready(Some(new_inner))) => {
                inner.set(Some(new_inner));
                false
            },
            Some(Poll::Pending) => false,
        };

        match inner.as_mut().as_pin_mut().map(|inner| inner.poll_change(cx)) {
            Some(Poll::Ready(None)) => {
                // It has ended, so nothing can change until there's a new one
                inner.set(None);

                if done {
                    signal.set(None);
                    return Poll::Pending;
                }
            },"""),
"the outer has ended before, and the inner ends by itself (not in the poll in which it delivered its last value)",
"the output never ends", r"""
fn main() {
    let m = Mutable::new(1);
    let mut s = always(m.signal()).flatten();
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
    assert_eq!(poll(&mut s, &w), Poll::Pending);
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

bug("c16-result-drops-signal", "C16", S, ("""                signal.poll_change(cx).map(|value| value.map(map_signal))
            },""", """                match signal.poll_change(cx) {
                    Poll::Ready(Some(value)) => Poll::Ready(Some(map_signal(value))),
                    // It can be replaced by a different one later
                    Poll::Ready(None) | Poll::Pending => Poll::Pending,
                }
            },"""),
"a signal inside of option or result which ends",
"the pipeline never ends", r"""
fn main() {
    let m = Mutable::new(1);
    let mut s = signal::result::<_, ()>(Ok(m.signal())).map(|x| x.unwrap());
    let (_, w) = count();
    assert_eq!(poll(&mut s, &w), Poll::Ready(Some(1)));
    drop(m);
    assert_eq!(poll(&mut s, &w), Poll::Ready(None));
}
""")

