//! Which types claim to be Send, Sync and Unpin: a type which moves or shares a value between threads while
//! the value does not allow it, or which can be moved while something inside of it is pinned, lets safe
//! programs race or use freed memory.

use futures_signals::signal::*;
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableSignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableSignalVec, MutableVec, SignalVecExt, VecDiff};
use futures_signals::{cancelable_future, map_mut, map_ref, CancelableFuture};
use std::cell::Cell;
use std::future::{Pending, Ready};
use std::marker::{PhantomData, PhantomPinned};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::MutexGuard;
use std::task::{Context, Poll};

pub const PROBES: usize = 130;

struct Is<T>(PhantomData<T>);
trait MaybeUnpin {
    fn is_unpin(&self) -> bool;
}
impl<T: Unpin> MaybeUnpin for &Is<T> {
    fn is_unpin(&self) -> bool {
        true
    }
}
impl<T> MaybeUnpin for Is<T> {
    fn is_unpin(&self) -> bool {
        false
    }
}
struct S<T>(PhantomData<T>);
struct Y<T>(PhantomData<T>);
trait No {
    const V: bool = false;
}
impl<T> No for S<T> {}
impl<T> No for Y<T> {}
impl<T: Send> S<T> {
    const V: bool = true;
}
impl<T: Sync> Y<T> {
    const V: bool = true;
}

/// Neither Send nor Sync / Send only / Sync only
type Nothing = Rc<()>;
type SendOnly = Cell<u8>;
type SyncOnly = MutexGuard<'static, u8>;

#[derive(Clone)]
struct NotUnpin(#[allow(dead_code)] u8, PhantomPinned);
impl Signal for NotUnpin {
    type Item = u8;
    fn poll_change(self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<u8>> {
        Poll::Pending
    }
}
impl futures_signals::signal_vec::SignalVec for NotUnpin {
    type Item = u8;
    fn poll_vec_change(self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<VecDiff<u8>>> {
        Poll::Pending
    }
}
impl futures_signals::signal_map::SignalMap for NotUnpin {
    type Key = u8;
    type Value = u8;
    fn poll_map_change(self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<MapDiff<u8, u8>>> {
        Poll::Pending
    }
}
impl std::future::Future for NotUnpin {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
        Poll::Pending
    }
}
impl futures_core::Stream for NotUnpin {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<u8>> {
        Poll::Pending
    }
}
fn np() -> NotUnpin {
    NotUnpin(0, PhantomPinned)
}

pub fn verdict() -> Vec<String> {
    let mut bad = vec![];
    let mut probes = 0usize;
    macro_rules! not {
        ($trait:ident $name:literal: $($t:ty),* $(,)?) => {$(
            probes += 1;
            if $trait::<$t>::V {
                bad.push(format!("{} is {}", stringify!($t), $name));
            }
        )*};
    }
    macro_rules! all {
        ($v:ident; $do:ident) => {
            $do! { $v;
                Sender<$v>, Receiver<$v>, Mutable<$v>, ReadOnlyMutable<$v>, MutableSignal<$v>, MutableSignalCloned<$v>,
                MutableSignalRef<$v, ()>, MutableLockRef<'static, $v>, MutableLockMut<'static, $v>,
                Always<$v>, Broadcaster<Always<$v>>, BroadcasterSignal<Always<$v>>, BroadcasterSignalCloned<Always<$v>>,
                MutableVec<$v>, MutableSignalVec<$v>, MutableBTreeMap<u8, $v>, MutableBTreeMap<$v, u8>,
                MutableSignalMap<u8, $v>, MutableSignalMap<$v, u8>, VecDiff<$v>, MapDiff<u8, $v>,
                CancelableFuture<Ready<$v>, ()>, CancelableFuture<Pending<()>, $v>,
            }
        };
    }
    macro_rules! neither { ($v:ident; $($t:ty,)*) => { not!(S "Send": $($t),*); not!(Y "Sync": $($t),*); } }
    macro_rules! not_send { ($v:ident; $($t:ty,)*) => { not!(S "Send": $($t),*); } }
    all!(Nothing; neither);
    all!(SyncOnly; not_send);
    // Sharing a handle gives several threads a reference to the value
    not!(Y "Sync": Mutable<SendOnly>, ReadOnlyMutable<SendOnly>, MutableVec<SendOnly>, MutableBTreeMap<u8, SendOnly>, Broadcaster<Always<SendOnly>>);
    not!(S "Send": Mutable<SendOnly>, ReadOnlyMutable<SendOnly>, MutableVec<SendOnly>, MutableBTreeMap<u8, SendOnly>);
    not!(S "Send": MutableSignalRef<u8, Rc<()>>, BroadcasterSignalRef<Always<u8>, Rc<()>>);

    // the type of an expression, by autoref: the first one applies only to Unpin types
    macro_rules! unpin_of {
        ($e:expr) => {{
            fn make() -> impl Sized {
                $e
            }
            let p = of(&make);
            (&&p).is_unpin()
        }};
    }
    fn of<T>(_: &impl Fn() -> T) -> Is<T> {
        Is(PhantomData)
    }
    macro_rules! pinned {
        ($($e:expr),* $(,)?) => {$(
            probes += 1;
            if unpin_of!($e) {
                bad.push(format!("{} is Unpin although something inside of it is not", stringify!($e)));
            }
        )*};
    }
    pinned!(
        map_ref! { let x = np(), let y = always(1) => *x + *y },
        map_ref! { let y = always(1), let x = np() => *x + *y },
        map_mut! { let x = np(), let y = always(1) => *x + *y },
        map_ref! { let x = always(1).map_future(|_| np()) => x.is_some() },
        not(SignalExt::map(np(), |x| x == 1)),
        and(SignalExt::map(np(), |x| x == 1), always(true)),
        or(always(true), SignalExt::map(np(), |x| x == 1)),
        SignalExt::map(np(), |x| x),
        SignalExt::inspect(np(), |_| ()),
        SignalExt::eq(np(), 1),
        SignalExt::neq(np(), 1),
        SignalExt::dedupe(np()),
        SignalExt::dedupe_cloned(np()),
        SignalExt::dedupe_map(np(), |x| *x),
        SignalExt::filter_map(np(), |x| Some(x)),
        SignalExt::first(np()),
        SignalExt::stop_if(np(), |_| true),
        SignalExt::debug(np()),
        SignalExt::map_future(np(), |_| std::future::ready(())),
        always(1).map_future(|_| np()),
        SignalExt::throttle(np(), || std::future::ready(())),
        always(1).throttle(np),
        SignalExt::flatten(always(np())),
        SignalExt::switch(np(), |_| always(1)),
        always(1).switch(|_| np()),
        SignalExt::switch_signal_vec(np(), |_| futures_signals::signal_vec::always(vec![1])),
        always(1).switch_signal_vec(|_| np()),
        SignalExt::map(np(), |x| vec![x]).to_signal_vec(),
        SignalExt::to_stream(np()),
        SignalExt::to_future(np()),
        SignalExt::wait_for(np(), 1),
        SignalExt::sample_stream_cloned(np(), futures_util::stream::empty::<u8>()),
        always(1).sample_stream_cloned(np()),
        SignalExt::for_each(np(), |_| std::future::ready(())),
        always(1).for_each(|_| np()),
        from_future(np()),
        from_stream(np()),
        option(Some(np())),
        result::<_, u8>(Ok(np())),
        futures_signals::signal_vec::from_stream(np()),
        SignalVecExt::map(np(), |x| x),
        SignalVecExt::map_signal(np(), |x| always(x)),
        SignalVecExt::filter(np(), |_| true),
        SignalVecExt::filter_map(np(), |x| Some(x)),
        SignalVecExt::filter_signal_cloned(np(), |_| always(true)),
        SignalVecExt::chain(np(), futures_signals::signal_vec::always(vec![1])),
        futures_signals::signal_vec::always(vec![1]).chain(np()),
        SignalVecExt::to_signal_map(np(), |_| 1),
        SignalVecExt::to_signal_cloned(np()),
        SignalVecExt::map(np(), |_| futures_signals::signal_vec::always(vec![1])).flatten(),
        SignalVecExt::enumerate(np()),
        SignalVecExt::sort_by_cloned(np(), |a, b| a.cmp(b)),
        SignalVecExt::delay_remove(np(), |_| std::future::ready(())),
        SignalVecExt::len(np()),
        SignalVecExt::is_empty(np()),
        SignalVecExt::sum(np()),
        SignalVecExt::to_stream(np()),
        SignalVecExt::for_each(np(), |_| std::future::ready(())),
        futures_signals::signal_vec::always(vec![1]).for_each(|_| np()),
        SignalVecExt::debug(np()),
        SignalMapExt::map_value(np(), |x| x),
        SignalMapExt::map_value_signal(np(), |x| always(x)),
        SignalMapExt::key_cloned(np(), 1),
        SignalMapExt::for_each(np(), |_| std::future::ready(())),
        cancelable_future(np(), || ()).1,
    );
    if probes < PROBES {
        bad.push(format!("HARNESS: only {} probes", probes));
    }
    bad
}
