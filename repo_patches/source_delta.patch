From de2cdbc69b782daa24ffd198521a6beb25755784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 01/18] Add guarded hooks for observing the synchronization
 operations

---
 src/atomic.rs             |   2 +-
 src/future.rs             |   4 +-
 src/lib.rs                |   9 ++
 src/signal/broadcaster.rs |   4 +-
 src/signal/channel.rs     |   4 +-
 src/signal/mutable.rs     |   4 +-
 src/signal_map.rs         |   2 +-
 src/signal_vec.rs         |   2 +-
 src/sync.rs               | 302 ++++++++++++++++++++++++++++++++++++++
 9 files changed, 322 insertions(+), 11 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/atomic.rs b/src/atomic.rs
index 0791417..139f9ae 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{AtomicPtr, Ordering};
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 
 /*#[derive(Debug)]
diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..1f2f6c6 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -1,10 +1,10 @@
 use std::pin::Pin;
 // TODO use parking_lot ?
-use std::sync::{Arc, Weak, Mutex};
+use crate::sync::{Arc, Weak, Mutex};
 use std::future::Future;
 use std::task::{Poll, Waker, Context};
 // TODO use parking_lot ?
-use std::sync::atomic::{AtomicBool, Ordering};
+use crate::sync::atomic::{AtomicBool, Ordering};
 use discard::{Discard, DiscardOnDrop};
 use pin_project::pin_project;
 
diff --git a/src/lib.rs b/src/lib.rs
index 3a64366..1c6115b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![warn(unreachable_pub)]
 // missing_docs
 #![deny(warnings, missing_debug_implementations, macro_use_extern_crate)]
+// `futures_signals_hooks` is only set by external test harnesses
+#![allow(unexpected_cfgs)]
 
 ///! It is *very highly* recommended to read the tutorial.
 ///! It explains all of the concepts you will need to use Signals effectively.
@@ -21,6 +23,13 @@ pub mod signal;
 pub mod signal_vec;
 pub mod signal_map;
 
+#[cfg(not(futures_signals_hooks))]
+mod sync;
+
+#[cfg(futures_signals_hooks)]
+#[doc(hidden)]
+pub mod sync;
+
 mod atomic;
 mod future;
 pub use crate::future::{cancelable_future, CancelableFutureHandle, CancelableFuture};
diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..e9763da 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -2,8 +2,8 @@ use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
 use std::fmt::Debug;
-use std::sync::{Arc, Mutex, RwLock, Weak};
-use std::sync::atomic::{AtomicBool, Ordering};
+use crate::sync::{Arc, Mutex, RwLock, Weak};
+use crate::sync::atomic::{AtomicBool, Ordering};
 use std::task::{Poll, Waker, Context};
 use futures_util::task::{self, ArcWake};
 use crate::signal::ChangedWaker;
diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..101043f 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -1,8 +1,8 @@
 use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
-use std::sync::{Arc, Weak};
-use std::sync::atomic::{AtomicUsize, Ordering};
+use crate::sync::{Arc, Weak};
+use crate::sync::atomic::{AtomicUsize, Ordering};
 use std::task::{Poll, Context, Waker};
 use crate::atomic::AtomicOption;
 
diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..25565a7 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -5,9 +5,9 @@ use std::pin::Pin;
 use std::marker::Unpin;
 use std::ops::{Deref, DerefMut};
 // TODO use parking_lot ?
-use std::sync::{Arc, Weak, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use crate::sync::{Arc, Weak, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 // TODO use parking_lot ?
-use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use crate::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::task::{Poll, Waker, Context};
 
 
diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..f097c28 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -516,7 +516,7 @@ mod mutable_btree_map {
     use std::cmp::{Ord, Ordering};
     use std::hash::{Hash, Hasher};
     use std::collections::BTreeMap;
-    use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+    use crate::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
     use std::task::{Poll, Context};
     use futures_channel::mpsc;
     use futures_util::stream::StreamExt;
diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..28e1333 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2786,7 +2786,7 @@ mod mutable_vec {
     use std::borrow::Borrow;
     use std::cmp::{Ord, Ordering};
     use std::hash::{Hash, Hasher};
-    use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+    use crate::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
     use std::task::{Poll, Context};
     use futures_channel::mpsc;
     use futures_util::stream::StreamExt;
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..3f62c68
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,302 @@
+//! The synchronization primitives which are used by this crate.
+//!
+//! Normally these are exactly the ones from `std::sync`. When the crate is compiled with
+//! `--cfg futures_signals_hooks` the locks and atomics are replaced with thin wrappers which
+//! report every operation to an installed observer, so that an external test harness can
+//! control and record the order in which the operations happen.
+
+#[cfg(not(futures_signals_hooks))]
+pub(crate) use std::sync::*;
+
+#[cfg(futures_signals_hooks)]
+pub use self::hooked::*;
+
+
+#[cfg(futures_signals_hooks)]
+mod hooked {
+    use std::fmt;
+    use std::ops::{Deref, DerefMut};
+    use std::sync as std_sync;
+    use std::sync::{LockResult, PoisonError, TryLockError};
+
+    pub use std::sync::{Arc, Weak};
+
+    /// Observes (and schedules) the operations on the primitives.
+    pub trait Hooks: Sync {
+        /// Whether the current thread is controlled by the observer.
+        fn managed(&self) -> bool;
+
+        /// Called immediately before each operation.
+        fn point(&self, op: &'static str, addr: usize);
+
+        /// Called when a lock could not be acquired, returns when it should be tried again.
+        fn blocked(&self, addr: usize);
+
+        /// Called after a lock was released.
+        fn released(&self, addr: usize);
+    }
+
+    static HOOKS: std_sync::OnceLock<&'static dyn Hooks> = std_sync::OnceLock::new();
+
+    /// Installs the observer, it cannot be changed afterwards.
+    pub fn install_hooks(hooks: &'static dyn Hooks) -> bool {
+        HOOKS.set(hooks).is_ok()
+    }
+
+    #[inline]
+    fn hooks() -> Option<&'static dyn Hooks> {
+        match HOOKS.get() {
+            Some(hooks) if hooks.managed() => Some(*hooks),
+            _ => None,
+        }
+    }
+
+    #[inline]
+    fn point<A: ?Sized>(op: &'static str, value: &A) {
+        if let Some(hooks) = hooks() {
+            hooks.point(op, addr(value));
+        }
+    }
+
+    #[inline]
+    fn addr<A: ?Sized>(value: &A) -> usize {
+        value as *const A as *const () as usize
+    }
+
+    fn acquire<G>(op: &'static str, addr: usize, block: impl FnOnce() -> LockResult<G>, attempt: impl Fn() -> std_sync::TryLockResult<G>) -> LockResult<Guard<G>> {
+        let wrap = |inner| Guard { inner: Some(inner), addr };
+
+        let result = match hooks() {
+            Some(hooks) => {
+                hooks.point(op, addr);
+
+                loop {
+                    match attempt() {
+                        Ok(guard) => break Ok(guard),
+                        Err(TryLockError::Poisoned(error)) => break Err(error),
+                        Err(TryLockError::WouldBlock) => hooks.blocked(addr),
+                    }
+                }
+            },
+            None => block(),
+        };
+
+        match result {
+            Ok(guard) => Ok(wrap(guard)),
+            Err(error) => Err(PoisonError::new(wrap(error.into_inner()))),
+        }
+    }
+
+
+    pub struct Guard<G> {
+        inner: Option<G>,
+        addr: usize,
+    }
+
+    impl<G> Deref for Guard<G> where G: Deref {
+        type Target = G::Target;
+
+        #[inline]
+        fn deref(&self) -> &Self::Target {
+            self.inner.as_ref().unwrap().deref()
+        }
+    }
+
+    impl<G> DerefMut for Guard<G> where G: DerefMut {
+        #[inline]
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            self.inner.as_mut().unwrap().deref_mut()
+        }
+    }
+
+    impl<G> fmt::Debug for Guard<G> where G: fmt::Debug {
+        fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
+            self.inner.as_ref().unwrap().fmt(fmt)
+        }
+    }
+
+    impl<G> Drop for Guard<G> {
+        #[inline]
+        fn drop(&mut self) {
+            self.inner = None;
+
+            if let Some(hooks) = hooks() {
+                hooks.released(self.addr);
+            }
+        }
+    }
+
+    pub type MutexGuard<'a, A> = Guard<std_sync::MutexGuard<'a, A>>;
+    pub type RwLockReadGuard<'a, A> = Guard<std_sync::RwLockReadGuard<'a, A>>;
+    pub type RwLockWriteGuard<'a, A> = Guard<std_sync::RwLockWriteGuard<'a, A>>;
+
+
+    #[derive(Default)]
+    pub struct Mutex<A: ?Sized>(std_sync::Mutex<A>);
+
+    impl<A> Mutex<A> {
+        #[inline]
+        pub const fn new(value: A) -> Self {
+            Mutex(std_sync::Mutex::new(value))
+        }
+
+        pub fn into_inner(self) -> LockResult<A> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<A: ?Sized> Mutex<A> {
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, A>> {
+            acquire("lock", addr(self), || self.0.lock(), || self.0.try_lock())
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut A> {
+            self.0.get_mut()
+        }
+    }
+
+    impl<A: ?Sized + fmt::Debug> fmt::Debug for Mutex<A> {
+        fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
+            self.0.fmt(fmt)
+        }
+    }
+
+    impl<A: ?Sized> Deref for Mutex<A> {
+        type Target = std_sync::Mutex<A>;
+
+        #[inline]
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+
+    #[derive(Default)]
+    pub struct RwLock<A: ?Sized>(std_sync::RwLock<A>);
+
+    impl<A> RwLock<A> {
+        #[inline]
+        pub const fn new(value: A) -> Self {
+            RwLock(std_sync::RwLock::new(value))
+        }
+
+        pub fn into_inner(self) -> LockResult<A> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<A: ?Sized> RwLock<A> {
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, A>> {
+            acquire("read", addr(self), || self.0.read(), || self.0.try_read())
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, A>> {
+            acquire("write", addr(self), || self.0.write(), || self.0.try_write())
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut A> {
+            self.0.get_mut()
+        }
+    }
+
+    impl<A: ?Sized + fmt::Debug> fmt::Debug for RwLock<A> {
+        fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
+            self.0.fmt(fmt)
+        }
+    }
+
+    impl<A: ?Sized> Deref for RwLock<A> {
+        type Target = std_sync::RwLock<A>;
+
+        #[inline]
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+
+    pub mod atomic {
+        use std::fmt;
+        use std::ops::{Deref, DerefMut};
+        use std::sync::atomic as std_atomic;
+        use super::point;
+
+        pub use std_atomic::{fence, Ordering};
+
+        macro_rules! wrapper {
+            ($name:ident $(<$arg:ident>)?, $value:ty, { $($op:ident)* }) => {
+                pub struct $name $(<$arg>)? (std_atomic::$name $(<$arg>)?);
+
+                impl $(<$arg>)? $name $(<$arg>)? {
+                    #[inline]
+                    pub const fn new(value: $value) -> Self {
+                        $name(std_atomic::$name::new(value))
+                    }
+
+                    #[inline]
+                    pub fn into_inner(self) -> $value {
+                        self.0.into_inner()
+                    }
+
+                    #[inline]
+                    pub fn load(&self, order: Ordering) -> $value {
+                        point("load", self);
+                        self.0.load(order)
+                    }
+
+                    #[inline]
+                    pub fn store(&self, value: $value, order: Ordering) {
+                        point("store", self);
+                        self.0.store(value, order)
+                    }
+
+                    #[inline]
+                    pub fn compare_exchange(&self, current: $value, new: $value, success: Ordering, failure: Ordering) -> Result<$value, $value> {
+                        point("compare_exchange", self);
+                        self.0.compare_exchange(current, new, success, failure)
+                    }
+
+                    #[inline]
+                    pub fn compare_exchange_weak(&self, current: $value, new: $value, success: Ordering, failure: Ordering) -> Result<$value, $value> {
+                        point("compare_exchange", self);
+                        self.0.compare_exchange(current, new, success, failure)
+                    }
+
+                    $(
+                        #[inline]
+                        pub fn $op(&self, value: $value, order: Ordering) -> $value {
+                            point(stringify!($op), self);
+                            self.0.$op(value, order)
+                        }
+                    )*
+                }
+
+                impl $(<$arg>)? fmt::Debug for $name $(<$arg>)? {
+                    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
+                        self.0.fmt(fmt)
+                    }
+                }
+
+                impl $(<$arg>)? Deref for $name $(<$arg>)? {
+                    type Target = std_atomic::$name $(<$arg>)?;
+
+                    #[inline]
+                    fn deref(&self) -> &Self::Target {
+                        &self.0
+                    }
+                }
+
+                impl $(<$arg>)? DerefMut for $name $(<$arg>)? {
+                    #[inline]
+                    fn deref_mut(&mut self) -> &mut Self::Target {
+                        &mut self.0
+                    }
+                }
+            };
+        }
+
+        wrapper!(AtomicBool, bool, { swap fetch_and fetch_or fetch_xor fetch_nand });
+        wrapper!(AtomicUsize, usize, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+        wrapper!(AtomicPtr<A>, *mut A, { swap });
+    }
+}
-- 
2.43.0


From 32fe948542dca4661f50acac3984dfcfb5f230b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 02/18] fix: don't lose changes of a Mutable which happen while
 its signal is polled

A change between checking the changed flag and storing the waker didn't wake
up the task, and a change right before the last Mutable was dropped could be
skipped by a signal which then ended.
---
 src/signal/mutable.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 25565a7..953d86e 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -100,20 +100,29 @@ impl<A> MutableSignalState<A> {
     }
 
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        if !self.waker.is_changed() {
+            // The waker must be stored before checking again, otherwise a change which happens
+            // between the check and storing the waker wouldn't wake up the task.
+            self.waker.set_waker(cx);
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            let has_senders = self.state.senders.load(Ordering::SeqCst) != 0;
 
-        } else {
-            self.waker.set_waker(cx);
-            Poll::Pending
+            // This must be after checking the senders, otherwise it would miss the changes which
+            // happened right before the last sender was dropped.
+            if !self.waker.is_changed() {
+                return if has_senders {
+                    Poll::Pending
+                } else {
+                    Poll::Ready(None)
+                };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From 00b9d36b9193b43395be248534cb70e26eeb3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 03/18] fix: don't dead lock when swapping Mutables in opposite
 directions or with itself

---
 src/signal/mutable.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 953d86e..d4e531c 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -286,9 +286,21 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        // Swapping a Mutable with itself must not lock it twice
+        if Arc::ptr_eq(self.state(), other.state()) {
+            self.state().lock.write().unwrap().notify(true);
+            return;
+        }
+
+        // The locks are always taken in the same order, so that swapping in opposite directions can't dead lock
+        let (first, second) = if Arc::as_ptr(self.state()) < Arc::as_ptr(other.state()) {
+            (self, other)
+        } else {
+            (other, self)
+        };
+
+        let mut state1 = first.state().lock.write().unwrap();
+        let mut state2 = second.state().lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From 63029777c2b23ec69bc1fc277244fc98838f0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 04/18] fix: don't lose changes of a channel which happen while
 its receiver is polled

A value which was sent (or a sender which was dropped) between taking the value
and storing the waker didn't wake up the task, and a value sent right before
the last sender was dropped could be skipped.
---
 src/signal/channel.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 101043f..339b186 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -123,12 +123,23 @@ impl<A> Signal for Receiver<A> {
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+                // The waker must be stored before checking again, otherwise a change which happens
+                // between the check and storing the waker wouldn't wake up the task.
+                self.inner.waker.store(Some(cx.waker().clone()));
 
-                } else {
-                    Poll::Ready(None)
+                let has_senders = self.inner.has_senders();
+
+                // This must be after checking the senders, otherwise it would miss the value which
+                // was sent right before the last sender was dropped.
+                match self.inner.value.take() {
+                    None => if has_senders {
+                        Poll::Pending
+
+                    } else {
+                        Poll::Ready(None)
+                    },
+
+                    a => Poll::Ready(a),
                 }
             },
 
-- 
2.43.0


From ea6ec0e8b06bc4aaa635bb4e1141dd7766f60cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 05/18] fix: don't reopen a closed channel when cloning or
 dropping a sender concurrently

A sender which was cloned or dropped while another one closed the channel
changed the number of senders after it had been set to 0, which reopened the
channel for ever (or overflowed).
---
 src/signal/channel.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 339b186..3f465cf 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,15 +22,29 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    /// Returns the old number of senders, it isn't changed if the channel was closed
+    fn update_senders<F>(&self, f: F) -> usize where F: Fn(usize) -> usize {
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            match self.senders.compare_exchange_weak(senders, f(senders), Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => break,
+                Err(new) => senders = new,
+            }
+        }
+
+        senders
+    }
+
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1) == 1
     }
 
     #[inline]
-- 
2.43.0


From 85ec346c09aa298fe96417fbb1190f17a88f49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 06/18] fix: notice the cancellation of a future which happens
 while it is polled

If it was cancelled between checking is_cancelled and storing the waker then
the task was never woken up.
---
 src/future.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 1f2f6c6..ead2983 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -69,8 +69,17 @@ impl<A, B> Future for CancelableFuture<A, B>
         } else {
             match future.as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while polling the future, in that case it must be polled again
+                    if state.is_cancelled.load(Ordering::SeqCst) {
+                        drop(lock);
+                        cx.waker().wake_by_ref();
+
+                    } else {
+                        *lock = Some(cx.waker().clone());
+                    }
+
                     Poll::Pending
                 },
                 a => a,
-- 
2.43.0


From 0b0cc9eff11fcb8b7ac57e6fa7ec5eb6ab273a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 07/18] fix: don't lose changes of a Broadcaster which happen
 while its signals are polled

The changed flag was reset before the state was locked, so another signal could
see the old value and then sleep, and a change before the waker of the signal
was set didn't wake up its task.
---
 src/signal/broadcaster.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index e9763da..61109aa 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -45,6 +45,11 @@ impl BroadcasterNotifier {
     fn is_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
+
+    /// The same as `is_changed` except it doesn't reset it
+    fn has_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
 }
 
 impl ArcWake for BroadcasterNotifier {
@@ -126,10 +131,13 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
     }
 
     fn poll<B, F>(&self, f: F) -> B where F: FnOnce(&BroadcasterInnerState<A>) -> B {
-        if self.notifier.is_changed() {
+        if self.notifier.has_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must be reset while it is locked, otherwise another child could use the old value
+            if self.notifier.is_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -180,7 +188,9 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
-        shared_state.poll(|state| {
+        let mut has_changed = false;
+
+        let poll = shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
                 if state.signal.is_none() {
@@ -188,6 +198,9 @@ impl<A> BroadcasterState<A> where A: Signal {
 
                 } else {
                     waker.set_waker(cx);
+                    // It might have changed before the waker was set, in that case it must be polled again.
+                    // This must be checked while it is locked, otherwise another child could reset it.
+                    has_changed = shared_state.notifier.has_changed();
                     Poll::Pending
                 }
 
@@ -195,7 +208,13 @@ impl<A> BroadcasterState<A> where A: Signal {
                 *epoch = state.epoch;
                 Poll::Ready(Some(f(state.value.as_ref().unwrap())))
             }
-        })
+        });
+
+        if has_changed {
+            cx.waker().wake_by_ref();
+        }
+
+        poll
     }
 }
 
-- 
2.43.0


From 6fc13d2f0f0e548365c8fbcf88670279e22a84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 08/18] fix: give the correct old index when a filtered
 SignalVec moves an item

---
 src/signal_vec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 28e1333..d269852 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1767,12 +1767,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                         VecDiff::Move { old_index, new_index } => {
                             let state = signals.remove(old_index);
                             let exists = state.exists;
+                            // This must be calculated before it's inserted again
+                            let old_real_index = Self::find_index(signals, old_index);
 
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index: old_real_index,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
@@ -2067,10 +2069,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must be calculated before it's inserted again
+                        let old_real_index = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index: old_real_index,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From 993daa5fef631fe649e070c9d7b31df591ff797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 09/18] fix: wake up is_empty when the emptiness hasn't changed
 but its input might have ended

---
 src/signal_vec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index d269852..675bed8 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1900,6 +1900,9 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
                     Poll::Ready(new)
 
                 } else {
+                    // It must be polled again, otherwise it won't be woken up
+                    // if this was the last change of the input
+                    cx.waker().wake_by_ref();
                     Poll::Pending
                 }
             },
-- 
2.43.0


From bc161b56a53d25cea56a129254f2b8a1e3e26f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 10/18] fix: don't poll the input of key_cloned again after it
 has ended

---
 src/signal_map.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index f097c28..6548d31 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal| signal.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,10 +443,12 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        // The input must not be polled again after it has ended
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0


From 85a90b8e40debdc05d6003b0cbcc33833fc9b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 11/18] fix: remove the old values when switch_signal_vec
 switches to an empty SignalVec which has ended

---
 src/signal/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..a40ab29 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,7 +1728,8 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
+                    // If it has old values then they must be removed before it ends
+                    if signal_done && *len == 0 {
                         Poll::Ready(None)
 
                     } else {
-- 
2.43.0


From 97dfb2de4de85598252a62c548c8f69afd5481e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 12/18] fix: don't go to sleep when chain processed a change
 which doesn't output a diff

---
 src/signal_vec.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 675bed8..7f3218a 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -747,7 +747,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     None
                 };
 
-                if let Some(change) = self.process_right_change(change) {
+                if let Some(Some(change)) = self.process_right_change(change) {
                     self.pending.push_back(change);
                 }
 
@@ -781,7 +781,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     None
                 };
 
-                if let Some(change) = self.process_right_change(change) {
+                if let Some(Some(change)) = self.process_right_change(change) {
                     self.pending.push_back(change);
                 }
 
@@ -790,10 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    /// Returns `None` if it is pending or ended, and `Some(None)` if there was a change but it didn't output a diff
+    fn process_left(&mut self, cx: &mut Context) -> Option<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Some(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,7 +836,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
@@ -846,10 +847,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right_change(&mut self, change: Option<Poll<Option<VecDiff<A::Item>>>>) -> Option<VecDiff<A::Item>> {
+    /// The same return value as `process_left`
+    fn process_right_change(&mut self, change: Option<Poll<Option<VecDiff<A::Item>>>>) -> Option<Option<VecDiff<A::Item>>> {
         match change {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Some(match change {
                     VecDiff::Replace { values } => {
                         let removing = *self.right_len;
                         let adding = values.len();
@@ -916,7 +918,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                             None
                         }
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.right.set(None);
@@ -927,7 +929,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    fn process_right(&mut self, cx: &mut Context) -> Option<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
         self.process_right_change(change)
     }
@@ -947,18 +949,29 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
+            let left = this.process_left(cx);
+
+            if let Some(Some(change)) = left {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
+
+            } else if left.is_some() {
+                // There was a change but it didn't output a diff, so it must be polled again
+                continue;
             }
 
-            if let Some(change) = this.process_right(cx) {
+            let right = this.process_right(cx);
+
+            if let Some(Some(change)) = right {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
+
+            } else if right.is_some() {
+                continue;
             }
 
             if this.left.is_none() && this.right.is_none() {
-- 
2.43.0


From fbac3c3c1afb27a2820047e997ddd4dad1fa3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 13/18] fix: update the output of flatten when an inner
 SignalVec is updated, moved or removed

---
 src/signal_vec.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 7f3218a..14a7acf 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1018,6 +1018,32 @@ impl<A> FlattenState<A> where A: SignalVec {
         }
     }
 
+    /// The number of values which have been output for the given states
+    fn sum_len(states: &[Self]) -> usize {
+        states.iter().map(|state| state.len).sum()
+    }
+
+    /// Removes the values which have already been output
+    fn remove_values(&self, prev_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in (0..self.len).rev() {
+            pending.push(VecDiff::RemoveAt { index: prev_len + index });
+        }
+    }
+
+    /// Moves the values which have already been output
+    fn move_values(&self, old_len: usize, new_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        if old_len < new_len {
+            for _ in 0..self.len {
+                pending.push(VecDiff::Move { old_index: old_len, new_index: new_len + self.len - 1 });
+            }
+
+        } else if new_len < old_len {
+            for _ in 0..self.len {
+                pending.push(VecDiff::Move { old_index: old_len + self.len - 1, new_index: new_len });
+            }
+        }
+    }
+
     fn poll(&mut self, cx: &mut Context) -> Option<Poll<Option<VecDiff<A::Item>>>> {
         self.signal_vec.as_mut().map(|s| s.poll_vec_change_unpin(cx))
     }
@@ -1158,20 +1184,28 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
-                            this.inner[index] = FlattenState::new(value);
+                            let old = std::mem::replace(&mut this.inner[index], FlattenState::new(value));
+                            old.remove_values(FlattenState::sum_len(&this.inner[..index]), &mut pending);
                         },
                         VecDiff::RemoveAt { index } => {
-                            this.inner.remove(index);
+                            let old = this.inner.remove(index);
+                            old.remove_values(FlattenState::sum_len(&this.inner[..index]), &mut pending);
                         },
                         VecDiff::Move { old_index, new_index } => {
                             let value = this.inner.remove(old_index);
+                            value.move_values(
+                                FlattenState::sum_len(&this.inner[..old_index]),
+                                FlattenState::sum_len(&this.inner[..new_index]),
+                                &mut pending,
+                            );
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let old = this.inner.pop().unwrap();
+                            old.remove_values(FlattenState::sum_len(&this.inner), &mut pending);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From 2d0a5a7d27e4ebdef36e9b603faf8030ebd418fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 14/18] fix: don't lose the item when moving it to an index
 which is out of range

---
 src/signal_vec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 14a7acf..e151a2e 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2953,6 +2953,13 @@ mod mutable_vec {
 
         fn move_from_to(&mut self, old_index: usize, new_index: usize) {
             if old_index != new_index {
+                let len = self.values.len();
+
+                // This must panic before removing the value, otherwise the value would be lost without notifying
+                if new_index >= len {
+                    panic!("new_index (is {}) should be < len (is {})", new_index, len);
+                }
+
                 let value = self.values.remove(old_index);
                 self.values.insert(new_index, value);
                 self.notify(|| VecDiff::Move { old_index, new_index });
-- 
2.43.0


From d3af2f93120956b5691812f04ee267bab842f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 15/18] fix: channel Sender and Receiver are Send and Sync only
 if the value is Send

---
 src/atomic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atomic.rs b/src/atomic.rs
index 139f9ae..a72e739 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -1,3 +1,5 @@
+use std::marker::PhantomData;
+use std::sync::Mutex;
 use crate::sync::atomic::{AtomicPtr, Ordering};
 
 
@@ -54,6 +56,9 @@ impl<A> Drop for Atomic<A> {
 #[derive(Debug)]
 pub(crate) struct AtomicOption<A> {
     ptr: AtomicPtr<A>,
+
+    // `AtomicPtr<A>` is `Send` and `Sync` for every `A`, but this owns an `A` and moves it between threads.
+    _marker: PhantomData<Mutex<A>>,
 }
 
 impl<A> AtomicOption<A> {
@@ -79,6 +84,7 @@ impl<A> AtomicOption<A> {
     pub(crate) fn new(value: Option<A>) -> Self {
         Self {
             ptr: AtomicPtr::new(Self::to_ptr(value)),
+            _marker: PhantomData,
         }
     }
 
-- 
2.43.0


From fe0d0a2ce0683b3b269f0e897fc6de8d6df9d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 16/18] fix: map_ref is Unpin only if its inputs are

---
 src/internal.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal.rs b/src/internal.rs
index f5f9184..75b8620 100644
--- a/src/internal.rs
+++ b/src/internal.rs
@@ -1,4 +1,5 @@
 use super::signal::Signal;
+use std::marker::PhantomData;
 use std::pin::Pin;
 use std::task::{Poll, Context};
 use pin_project::pin_project;
@@ -115,12 +116,17 @@ impl<S> MapRef1<S> where S: Signal {
 #[must_use = "Signals do nothing unless polled"]
 pub struct MapRefSignal<F> {
     callback: F,
+
+    // The `callback` contains the `MapRef1`s, and `map_ref` pins them in place, so this must
+    // not be `Unpin` unless all of them are.
+    #[pin]
+    _pinned: PhantomData<F>,
 }
 
 impl<A, F> MapRefSignal<F> where F: FnMut(&mut Context) -> Poll<Option<A>> {
     #[inline]
     pub fn new(callback: F) -> Self {
-        Self { callback }
+        Self { callback, _pinned: PhantomData }
     }
 }
 
-- 
2.43.0


From 274ba2096899849875cf2fdca1de0e76cc27b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 17/18] Hooks: cover the rest of std::sync (guarded by
 futures_signals_hooks)

---
 src/sync.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 3f62c68..4ef3246 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -17,9 +17,8 @@ mod hooked {
     use std::fmt;
     use std::ops::{Deref, DerefMut};
     use std::sync as std_sync;
-    use std::sync::{LockResult, PoisonError, TryLockError};
 
-    pub use std::sync::{Arc, Weak};
+    pub use std::sync::{Arc, Barrier, LazyLock, LockResult, Once, OnceLock, PoisonError, TryLockError, TryLockResult, Weak, mpsc};
 
     /// Observes (and schedules) the operations on the primitives.
     pub trait Hooks: Sync {
@@ -63,7 +62,7 @@ mod hooked {
         value as *const A as *const () as usize
     }
 
-    fn acquire<G>(op: &'static str, addr: usize, block: impl FnOnce() -> LockResult<G>, attempt: impl Fn() -> std_sync::TryLockResult<G>) -> LockResult<Guard<G>> {
+    fn acquire<G>(op: &'static str, addr: usize, block: impl FnOnce() -> LockResult<G>, attempt: impl Fn() -> TryLockResult<G>) -> LockResult<Guard<G>> {
         let wrap = |inner| Guard { inner: Some(inner), addr };
 
         let result = match hooks() {
@@ -88,6 +87,21 @@ mod hooked {
     }
 
 
+    fn try_acquire<G>(op: &'static str, addr: usize, attempt: impl FnOnce() -> TryLockResult<G>) -> TryLockResult<Guard<G>> {
+        if let Some(hooks) = hooks() {
+            hooks.point(op, addr);
+        }
+
+        let wrap = |inner| Guard { inner: Some(inner), addr };
+
+        match attempt() {
+            Ok(guard) => Ok(wrap(guard)),
+            Err(TryLockError::Poisoned(error)) => Err(TryLockError::Poisoned(PoisonError::new(wrap(error.into_inner())))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+
     pub struct Guard<G> {
         inner: Option<G>,
         addr: usize,
@@ -150,6 +164,10 @@ mod hooked {
             acquire("lock", addr(self), || self.0.lock(), || self.0.try_lock())
         }
 
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, A>> {
+            try_acquire("try_lock", addr(self), || self.0.try_lock())
+        }
+
         pub fn get_mut(&mut self) -> LockResult<&mut A> {
             self.0.get_mut()
         }
@@ -194,6 +212,14 @@ mod hooked {
             acquire("write", addr(self), || self.0.write(), || self.0.try_write())
         }
 
+        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, A>> {
+            try_acquire("try_read", addr(self), || self.0.try_read())
+        }
+
+        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, A>> {
+            try_acquire("try_write", addr(self), || self.0.try_write())
+        }
+
         pub fn get_mut(&mut self) -> LockResult<&mut A> {
             self.0.get_mut()
         }
@@ -221,7 +247,7 @@ mod hooked {
         use std::sync::atomic as std_atomic;
         use super::point;
 
-        pub use std_atomic::{fence, Ordering};
+        pub use std_atomic::{compiler_fence, fence, Ordering};
 
         macro_rules! wrapper {
             ($name:ident $(<$arg:ident>)?, $value:ty, { $($op:ident)* }) => {
@@ -297,6 +323,10 @@ mod hooked {
 
         wrapper!(AtomicBool, bool, { swap fetch_and fetch_or fetch_xor fetch_nand });
         wrapper!(AtomicUsize, usize, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+        wrapper!(AtomicIsize, isize, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+        wrapper!(AtomicU8, u8, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+        wrapper!(AtomicU32, u32, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+        wrapper!(AtomicU64, u64, { swap fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
         wrapper!(AtomicPtr<A>, *mut A, { swap });
     }
 }
-- 
2.43.0


From d0246c83b59a4f07300aaa678bab60b98f0d1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 18/18] hooks: Debug of a lock reports that it was released

---
 src/sync.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 4ef3246..8508403 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -62,6 +62,13 @@ mod hooked {
         value as *const A as *const () as usize
     }
 
+    #[inline]
+    fn released(addr: usize) {
+        if let Some(hooks) = hooks() {
+            hooks.released(addr);
+        }
+    }
+
     fn acquire<G>(op: &'static str, addr: usize, block: impl FnOnce() -> LockResult<G>, attempt: impl Fn() -> TryLockResult<G>) -> LockResult<Guard<G>> {
         let wrap = |inner| Guard { inner: Some(inner), addr };
 
@@ -133,10 +140,7 @@ mod hooked {
         #[inline]
         fn drop(&mut self) {
             self.inner = None;
-
-            if let Some(hooks) = hooks() {
-                hooks.released(self.addr);
-            }
+            released(self.addr);
         }
     }
 
@@ -175,7 +179,9 @@ mod hooked {
 
     impl<A: ?Sized + fmt::Debug> fmt::Debug for Mutex<A> {
         fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
-            self.0.fmt(fmt)
+            let result = self.0.fmt(fmt);
+            released(addr(self));
+            result
         }
     }
 
@@ -227,7 +233,9 @@ mod hooked {
 
     impl<A: ?Sized + fmt::Debug> fmt::Debug for RwLock<A> {
         fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
-            self.0.fmt(fmt)
+            let result = self.0.fmt(fmt);
+            released(addr(self));
+            result
         }
     }
 
-- 
2.43.0

