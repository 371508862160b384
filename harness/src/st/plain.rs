//! Values of plain types (numbers, arrays, `()`, strings, boxes): what is sent arrives unharmed, and exactly the memory
//! which was taken for it is given back. The `Ledger` cannot tell that of values which have no destructor.

use crate::ctx::Case;
use crate::rng::{mix, Rng};
use futures_signals::cancelable_future;
use futures_signals::signal::{channel, Broadcaster, Mutable, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub trait Plain: Clone + Debug + PartialEq + 'static {
    const NAME: &'static str;
    fn make(x: u64) -> Self;
}

macro_rules! plain {
    ($t:ty, $name:expr, $x:ident, $make:expr) => {
        impl Plain for $t {
            const NAME: &'static str = $name;
            fn make($x: u64) -> Self {
                $make
            }
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(64))]
struct Aligned(u64);

plain!(u8, "u8", x, x as u8);
plain!(bool, "bool", x, x % 2 == 0);
plain!(u64, "u64", x, x);
plain!([u64; 16], "[u64; 16]", x, [x; 16]);
plain!((), "()", _x, ());
plain!(Aligned, "aligned", x, Aligned(x));
plain!(&'static str, "&str", x, ["", "a", "bc"][x as usize % 3]);
plain!(String, "String", x, format!("text{}", x));
plain!(Vec<u64>, "Vec", x, (0..x % 4).collect());
plain!(Option<Box<u64>>, "Option<Box>", x, if x % 3 == 0 { None } else { Some(Box::new(x)) });

/// Returns the number of operations, or what went wrong
fn history<T: Plain>(rng: &mut Rng, sig: &mut u64) -> Result<u64, String> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut n = 0;
    let v = |rng: &mut Rng| T::make(rng.below(100) as u64);
    let ops = rng.range(0, 6);
    let kind = rng.below(8);
    *sig = mix(*sig, kind as u64);
    macro_rules! op {
        ($k:expr) => {{
            n += 1;
            let k = rng.below($k);
            *sig = mix(*sig, k as u64);
            k
        }};
    }
    match kind {
        0 | 1 => {
            let first = v(rng);
            let (tx, rx) = channel(first.clone());
            let mut waiting = Some(first);
            let mut tx = Some(tx);
            let mut rx = Some(Box::pin(rx));
            for _ in 0..ops {
                match op!(6) {
                    0 | 1 => {
                        if let Some(tx) = &tx {
                            let x = v(rng);
                            match tx.send(x.clone()) {
                                Ok(()) if rx.is_some() => waiting = Some(x),
                                Err(y) if rx.is_none() && x == y => {}
                                r => return Err(format!("send: {:?}", r)),
                            }
                        }
                    }
                    2 | 3 => {
                        if let Some(r) = &mut rx {
                            let want = match waiting.take() {
                                Some(x) => Poll::Ready(Some(x)),
                                None if tx.is_none() => Poll::Ready(None),
                                None => Poll::Pending,
                            };
                            let got = r.as_mut().poll_change(&mut cx);
                            if got != want {
                                return Err(format!("a channel of {} delivered {:?} instead of {:?}", T::NAME, got, want));
                            }
                            if got == Poll::Ready(None) {
                                break;
                            }
                        }
                    }
                    4 => tx = if rng.flip() { tx.clone() } else { None },
                    _ => {
                        if rng.chance(1, 3) {
                            rx = None;
                        }
                    }
                }
            }
            if rng.flip() {
                drop(tx);
                drop(rx);
            }
        }
        2 | 3 => {
            let m = Mutable::new(v(rng));
            let other = Mutable::new(v(rng));
            let bc = Broadcaster::new(m.signal_cloned());
            let mut s: Vec<Pin<Box<dyn Signal<Item = T>>>> = vec![];
            for _ in 0..ops {
                let x = v(rng);
                match op!(8) {
                    0 => m.set(x),
                    1 => drop(m.replace(x)),
                    2 => *m.lock_mut() = x,
                    3 => m.swap(&other),
                    4 => s.push(Box::pin(m.signal_cloned())),
                    5 => s.push(Box::pin(bc.signal_cloned())),
                    6 => s.push(Box::pin(m.signal_cloned().map_future(|x| async move { x }).map(|x| x.unwrap()))),
                    _ => {
                        if !s.is_empty() {
                            let i = rng.below(s.len());
                            let got = s[i].as_mut().poll_change(&mut cx);
                            if let Poll::Ready(Some(x)) = got {
                                if x != m.get_cloned() {
                                    return Err(format!("a signal of a Mutable of {} delivered {:?}", T::NAME, x));
                                }
                            }
                            if rng.chance(1, 4) {
                                drop(s.remove(i));
                            }
                        }
                    }
                }
            }
        }
        4 | 5 => {
            let l = MutableVec::<T>::new();
            let mut want: Vec<T> = vec![];
            let mut s: Vec<Pin<Box<dyn SignalVec<Item = T>>>> = vec![];
            for _ in 0..ops + 3 {
                let x = v(rng);
                let k = op!(11);
                if k == 8 {
                    s.push(match rng.below(3) {
                        0 => Box::pin(l.signal_vec_cloned()),
                        1 => Box::pin(l.signal_vec_cloned().delay_remove(|_| async {})),
                        _ => Box::pin(l.signal_vec_cloned().filter(|_| true)),
                    });
                    continue;
                }
                if k == 9 {
                    if !s.is_empty() {
                        let i = rng.below(s.len());
                        let _ = s[i].as_mut().poll_vec_change(&mut cx);
                    }
                    continue;
                }
                let mut g = l.lock_mut();
                let len = want.len();
                match k {
                    0 => {
                        g.push_cloned(x.clone());
                        want.push(x);
                    }
                    1 => {
                        let i = rng.below(len + 1);
                        g.insert_cloned(i, x.clone());
                        want.insert(i, x);
                    }
                    2 if len > 0 => {
                        let i = rng.below(len);
                        if g.remove(i) != want.remove(i) {
                            return Err(format!("a MutableVec of {} removed something else", T::NAME));
                        }
                    }
                    3 if len > 0 => {
                        let i = rng.below(len);
                        g.set_cloned(i, x.clone());
                        want[i] = x;
                    }
                    4 => {
                        if g.pop() != want.pop() {
                            return Err(format!("a MutableVec of {} popped something else", T::NAME));
                        }
                    }
                    5 => {
                        let n = rng.below(len + 1);
                        g.truncate(n);
                        want.truncate(n);
                    }
                    6 => {
                        g.replace_cloned(vec![x.clone(); 2]);
                        want = vec![x; 2];
                    }
                    7 => {
                        let n = rng.below(len + 1);
                        if g.drain(..n).collect::<Vec<_>>() != want.drain(..n).collect::<Vec<_>>() {
                            return Err(format!("a MutableVec of {} drained something else", T::NAME));
                        }
                    }
                    _ if len > 0 => {
                        let (a, b) = (rng.below(len), rng.below(len));
                        g.move_from_to(a, b);
                        let x = want.remove(a);
                        want.insert(b, x);
                    }
                    _ => {}
                }
                drop(g);
                if l.lock_ref().as_slice() != want.as_slice() {
                    return Err(format!("a MutableVec of {} contains {:?} instead of {:?}", T::NAME, l.lock_ref(), want));
                }
            }
        }
        6 => {
            let m = MutableBTreeMap::<u8, T>::new();
            let mut want = std::collections::BTreeMap::new();
            let mut s: Vec<Pin<Box<dyn SignalMap<Key = u8, Value = T>>>> = vec![];
            let mut e: Vec<Pin<Box<dyn SignalVec<Item = (u8, T)>>>> = vec![];
            for _ in 0..ops {
                let x = v(rng);
                let key = rng.below(4) as u8;
                match op!(6) {
                    0 | 1 => {
                        if m.lock_mut().insert_cloned(key, x.clone()) != want.insert(key, x) {
                            return Err(format!("a MutableBTreeMap of {} replaced something else", T::NAME));
                        }
                    }
                    2 => {
                        if m.lock_mut().remove(&key) != want.remove(&key) {
                            return Err(format!("a MutableBTreeMap of {} removed something else", T::NAME));
                        }
                    }
                    3 => {
                        s.push(Box::pin(m.signal_map_cloned()));
                        e.push(Box::pin(m.entries_cloned()));
                    }
                    4 => {
                        m.lock_mut().clear();
                        want.clear();
                    }
                    _ => {
                        for s in &mut s {
                            let _ = s.as_mut().poll_map_change(&mut cx);
                        }
                        for e in &mut e {
                            let _ = e.as_mut().poll_vec_change(&mut cx);
                        }
                        let _ = Box::pin(m.signal_map_cloned().key_cloned(key)).as_mut().poll_change(&mut cx);
                    }
                }
            }
        }
        _ => {
            let (x, y) = (v(rng), v(rng));
            let (x2, y2) = (x.clone(), y.clone());
            let ready = rng.flip();
            let (h, f) = cancelable_future(
                async move {
                    if !ready {
                        std::future::pending::<()>().await;
                    }
                    x2
                },
                move || y2,
            );
            let mut f = Box::pin(f);
            let cancel = rng.flip();
            n += 1;
            *sig = mix(*sig, cancel as u64 * 2 + ready as u64);
            let mut h = Some(h);
            if cancel {
                h = None;
            }
            if rng.flip() {
                let want = match (cancel, ready) {
                    (true, _) => Poll::Ready(y),
                    (false, true) => Poll::Ready(x),
                    _ => Poll::Pending,
                };
                let got = f.as_mut().poll(&mut cx);
                if got != want {
                    return Err(format!("a cancelable future of {} resolved to {:?} instead of {:?}", T::NAME, got, want));
                }
            }
            drop(h);
        }
    }
    Ok(n)
}

fn measured<T: Plain>(seed: u64) -> (Result<u64, String>, i64, u64) {
    let mut rng = Rng::new(seed);
    let mut sig = 0;
    let before = crate::alloc::live();
    let r = history::<T>(&mut rng, &mut sig);
    let left = crate::alloc::live() - before - r.as_ref().err().map_or(0, |e| e.capacity() as i64);
    (r, left, sig)
}

fn typed<T: Plain>(seed: u64, case: &mut Case) {
    case.note(|| format!("values of the type {}", T::NAME));
    let (mut r, mut left, sig) = measured::<T>(seed);
    if left != 0 {
        // Something which is made only once
        (r, left, _) = measured::<T>(seed);
    }
    case.mix_sig(mix(sig, T::NAME.len() as u64));
    match r {
        Ok(n) => {
            case.count("operations", n);
            case.nontrivial = n >= 3;
            if left != 0 {
                case.fail(&["C09"], format!("{} bytes are left after dropping everything (values of the type {})", left, T::NAME));
            }
        }
        Err(e) => case.fail(&["C09"], e),
    }
}

pub fn run(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let seed = rng.next();
    match rng.below(10) {
        0 => typed::<u8>(seed, case),
        1 => typed::<bool>(seed, case),
        2 => typed::<u64>(seed, case),
        3 => typed::<[u64; 16]>(seed, case),
        4 => typed::<()>(seed, case),
        5 => typed::<Aligned>(seed, case),
        6 => typed::<&'static str>(seed, case),
        7 => typed::<String>(seed, case),
        8 => typed::<Vec<u64>>(seed, case),
        _ => typed::<Option<Box<u64>>>(seed, case),
    }
}
