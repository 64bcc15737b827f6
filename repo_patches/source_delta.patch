From d9d8a02d6cd664f6c76cc38d794a90c57a9f135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 01/17] verif hook: atomics shim under
 cfg(orx_concurrent_iter_verif)

---
 src/iter/atomic_counter.rs    |   3 +
 src/iter/implementors/iter.rs |  10 +-
 src/lib.rs                    |   6 +
 src/verif.rs                  | 242 ++++++++++++++++++++++++++++++++++
 4 files changed, 256 insertions(+), 5 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..93db797 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -1,3 +1,6 @@
+#[cfg(orx_concurrent_iter_verif)]
+use crate::verif::atomic::{AtomicUsize, Ordering};
+#[cfg(not(orx_concurrent_iter_verif))]
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// An atomic counter, simply a wrapper around `AtomicUsize` with utility methods useful for atomic iterators.
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..f4aaa7f 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -7,11 +7,11 @@ use crate::{
     next::NextChunk,
     ConcurrentIter, Next,
 };
-use std::{
-    cell::UnsafeCell,
-    cmp::Ordering,
-    sync::atomic::{self, AtomicBool},
-};
+#[cfg(orx_concurrent_iter_verif)]
+use crate::verif::atomic::{self, AtomicBool};
+#[cfg(not(orx_concurrent_iter_verif))]
+use std::sync::atomic::{self, AtomicBool};
+use std::{cell::UnsafeCell, cmp::Ordering};
 
 /// A regular `Iter: Iterator` ascended to the concurrent programs with use of atomics.
 ///
diff --git a/src/lib.rs b/src/lib.rs
index 32238c4..a821900 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -343,10 +343,16 @@
     clippy::todo
 )]
 
+// `orx_concurrent_iter_verif` is not a feature: it is only set by the verification harness.
+#![allow(unexpected_cfgs)]
+
 mod has_more;
 /// Module defining concurrent iterator traits and implementations.
 pub mod iter;
 mod next;
+/// Verification hooks.
+#[cfg(orx_concurrent_iter_verif)]
+pub mod verif;
 
 pub use has_more::HasMore;
 pub use iter::atomic_counter::AtomicCounter;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..529ee07
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,242 @@
+//! Verification hooks, compiled only with `--cfg orx_concurrent_iter_verif`.
+//!
+//! [`atomic`] mirrors `std::sync::atomic`; every operation on the types defined here is executed on the standard
+//! atomic of the same name, and is reported to the registered [`Observer`] right before and right after it.
+#![allow(missing_docs)]
+
+use std::sync::atomic::Ordering;
+use std::sync::OnceLock;
+
+/// Kind of an atomic operation.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Kind {
+    Load,
+    Store,
+    /// Successful read-modify-write.
+    Rmw,
+    /// Read-modify-write which did not write (failed compare-exchange); it has the semantics of a load.
+    RmwFail,
+    Fence,
+    /// A hint executed in a spin loop.
+    Spin,
+}
+
+/// Receives the atomic operations of the crate.
+pub trait Observer: Sync + Send {
+    /// Called right before the operation is executed; may block.
+    fn before(&self, addr: usize);
+    /// Called right after the operation is executed; `old` is the value read, `new` is the value written.
+    fn after(&self, addr: usize, kind: Kind, order: Ordering, old: usize, new: usize);
+}
+
+static OBSERVER: OnceLock<&'static dyn Observer> = OnceLock::new();
+
+/// Registers the observer; only the first registration counts.
+pub fn set_observer(observer: &'static dyn Observer) {
+    _ = OBSERVER.set(observer);
+}
+
+fn before(addr: usize) {
+    if let Some(x) = OBSERVER.get() {
+        x.before(addr)
+    }
+}
+
+fn after(addr: usize, kind: Kind, order: Ordering, old: usize, new: usize) {
+    if let Some(x) = OBSERVER.get() {
+        x.after(addr, kind, order, old, new)
+    }
+}
+
+/// Mirror of `std::sync::atomic`.
+pub mod atomic {
+    use super::{after, before, Kind};
+    pub use std::sync::atomic::*;
+
+    /// See `std::sync::atomic::fence`.
+    pub fn fence(order: Ordering) {
+        before(0);
+        std::sync::atomic::fence(order);
+        after(0, Kind::Fence, order, 0, 0);
+    }
+
+    macro_rules! hooked {
+        ($name:ident, $t:ty, $to:expr) => {
+            /// See the type with the same name in `std::sync::atomic`.
+            #[derive(Default)]
+            pub struct $name {
+                inner: std::sync::atomic::$name,
+            }
+
+            impl std::fmt::Debug for $name {
+                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    std::fmt::Debug::fmt(&self.inner, f)
+                }
+            }
+
+            impl From<$t> for $name {
+                fn from(x: $t) -> Self {
+                    Self::new(x)
+                }
+            }
+
+            impl $name {
+                pub const fn new(x: $t) -> Self {
+                    Self {
+                        inner: std::sync::atomic::$name::new(x),
+                    }
+                }
+
+                fn addr(&self) -> usize {
+                    self as *const Self as usize
+                }
+
+                fn rmw(&self, order: Ordering, f: impl FnOnce() -> $t) -> $t {
+                    before(self.addr());
+                    let old = f();
+                    let new = self.inner.load(Ordering::Relaxed);
+                    after(self.addr(), Kind::Rmw, order, $to(old), $to(new));
+                    old
+                }
+
+                pub fn load(&self, order: Ordering) -> $t {
+                    before(self.addr());
+                    let x = self.inner.load(order);
+                    after(self.addr(), Kind::Load, order, $to(x), $to(x));
+                    x
+                }
+
+                pub fn store(&self, x: $t, order: Ordering) {
+                    before(self.addr());
+                    let old = self.inner.load(Ordering::Relaxed);
+                    self.inner.store(x, order);
+                    after(self.addr(), Kind::Store, order, $to(old), $to(x));
+                }
+
+                pub fn swap(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.swap(x, order))
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    before(self.addr());
+                    let result = self.inner.compare_exchange(current, new, success, failure);
+                    match result {
+                        Ok(x) => after(self.addr(), Kind::Rmw, success, $to(x), $to(new)),
+                        Err(x) => after(self.addr(), Kind::RmwFail, failure, $to(x), $to(x)),
+                    }
+                    result
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+
+                pub fn fetch_update<F>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$t, $t>
+                where
+                    F: FnMut($t) -> Option<$t>,
+                {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn fetch_and(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_and(x, order))
+                }
+
+                pub fn fetch_nand(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_nand(x, order))
+                }
+
+                pub fn fetch_or(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_or(x, order))
+                }
+
+                pub fn fetch_xor(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_xor(x, order))
+                }
+
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.inner.get_mut()
+                }
+
+                pub fn into_inner(self) -> $t {
+                    self.inner.into_inner()
+                }
+
+                pub fn as_ptr(&self) -> *mut $t {
+                    self.inner.as_ptr()
+                }
+            }
+        };
+    }
+
+    macro_rules! hooked_int {
+        ($name:ident, $t:ty) => {
+            hooked!($name, $t, (|x: $t| x as usize));
+
+            impl $name {
+                pub fn fetch_add(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_add(x, order))
+                }
+
+                pub fn fetch_sub(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_sub(x, order))
+                }
+
+                pub fn fetch_max(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_max(x, order))
+                }
+
+                pub fn fetch_min(&self, x: $t, order: Ordering) -> $t {
+                    self.rmw(order, || self.inner.fetch_min(x, order))
+                }
+            }
+        };
+    }
+
+    hooked!(AtomicBool, bool, (|x: bool| x as usize));
+    hooked_int!(AtomicUsize, usize);
+    hooked_int!(AtomicIsize, isize);
+    hooked_int!(AtomicU64, u64);
+    hooked_int!(AtomicU32, u32);
+    hooked_int!(AtomicU8, u8);
+
+    impl AtomicBool {
+        pub fn fetch_not(&self, order: Ordering) -> bool {
+            self.fetch_xor(true, order)
+        }
+    }
+}
+
+/// Mirror of `std::hint::spin_loop` and `std::thread::yield_now`.
+pub mod hint {
+    /// See `std::hint::spin_loop`.
+    pub fn spin_loop() {
+        super::before(0);
+        std::hint::spin_loop();
+        super::after(0, super::Kind::Spin, std::sync::atomic::Ordering::Relaxed, 0, 0);
+    }
+}
-- 
2.43.0


From 525b6dcb1c176b0579bada2364e49f38a369e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 02/17] fix: exact size_hint of chunks pulled by buffered
 iterators over wrapped iterators

---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..d9667ba 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -91,6 +91,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.initial_len - self.current_idx;
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0


From 8ba04816d683dc423037c5079a609df7335dec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 03/17] fix: read the counter with acquire ordering

The thread which observes that its turn has come must also observe what the previous thread did to the wrapped iterator.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 93db797..5d752e7 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -30,7 +30,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From e8ce3d9dbbcfeaf6b8614cceb2907d3a1f79da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 04/17] fix: the atomic counter saturates instead of wrapping
 around

---
 src/iter/atomic_counter.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 5d752e7..87ac117 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -16,15 +16,27 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    /// The counter saturates at `usize::MAX`; it never wraps around.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let mut current = self.current.load(Ordering::Relaxed);
+        loop {
+            match self.current.compare_exchange_weak(
+                current,
+                current.saturating_add(len),
+                Ordering::AcqRel,
+                Ordering::Relaxed,
+            ) {
+                Ok(current) => return current,
+                Err(actual) => current = actual,
+            }
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From 9cd46a2b627058a096a8d2f4d3f334ae05623565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 05/17] fix: a chunk pull of size zero leaves a wrapped
 iterator unchanged

---
 src/iter/implementors/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index f4aaa7f..fc53c3a 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -134,6 +134,10 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-- 
2.43.0


From 82e1e6c5e3441cc26f2afd99ec2e69e8692f9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 06/17] fix: never ask a wrapped iterator for more elements
 after its end

---
 src/iter/buffered/iter.rs     |  5 ++++-
 src/iter/implementors/iter.rs | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index d9667ba..4fe20a2 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -41,7 +41,10 @@ where
         loop {
             match core_iter.next() {
                 Some(x) => self.values[i] = Some(x),
-                None => break,
+                None => {
+                    iter.complete();
+                    break;
+                }
             }
 
             i += 1;
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index fc53c3a..b9df145 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -58,6 +58,11 @@ where
         unsafe { &mut *self.iter.get() }
     }
 
+    /// Records that the wrapped iterator has reported its end, it must not be asked again.
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
+
     #[inline(always)]
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
@@ -89,8 +94,11 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items; unless the end is reached
+                Ordering::Equal => match self.completed.load(atomic::Ordering::Relaxed) {
+                    true => return None,
+                    false => return Some(begin_idx),
+                },
 
                 Ordering::Less => return None,
 
@@ -110,6 +118,10 @@ where
             match item_idx.cmp(&yielded_count) {
                 // item_idx==yielded_count => it is our job to provide the item
                 Ordering::Equal => {
+                    if self.completed.load(atomic::Ordering::Relaxed) {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
@@ -148,9 +160,12 @@ where
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            if buffer.len() < n {
+                self.complete();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From 651ff236d00e96fd0d72f298d755b6b41e6ccbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 07/17] fix: a panic of the wrapped iterator completes the
 iteration

Otherwise the threads which wait for the elements to be yielded wait forever.
---
 src/iter/buffered/iter.rs     |  3 +++
 src/iter/implementors/iter.rs | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 4fe20a2..5746fb1 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -36,6 +36,7 @@ where
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
         let core_iter = unsafe { iter.mut_iter() };
+        let guard = iter.complete_on_unwind();
 
         let mut i = 0;
         loop {
@@ -53,6 +54,8 @@ where
             }
         }
 
+        std::mem::forget(guard);
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index b9df145..630f7d1 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -63,12 +63,26 @@ where
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
 
+    /// Completes the iteration if the returned guard is dropped; i.e., if the wrapped iterator panics before
+    /// the guard is forgotten. Otherwise, the other threads would wait forever for elements to be yielded.
+    pub(crate) fn complete_on_unwind(&self) -> impl Drop + '_ {
+        CompleteOnDrop(&self.completed)
+    }
+
     #[inline(always)]
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
 }
 
+struct CompleteOnDrop<'a>(&'a AtomicBool);
+
+impl Drop for CompleteOnDrop<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
+}
+
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -123,7 +137,9 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
+                    let guard = self.complete_on_unwind();
                     let next = unsafe { self.mut_iter() }.next();
+                    std::mem::forget(guard);
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -154,11 +170,13 @@ where
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
             let end_idx = begin_idx + n;
+            let guard = self.complete_on_unwind();
             let buffer = (begin_idx..end_idx)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            std::mem::forget(guard);
 
             if buffer.len() < n {
                 self.complete();
-- 
2.43.0


From e86035f20c2761f721c50110ce3af895567aa7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 08/17] fix: safe code must not move an element out twice

Both getting an arbitrary position and storing an arbitrary value to the counter produced two owners of one element.
---
 src/iter/atomic_counter.rs     |  2 +-
 src/iter/atomic_iter.rs        | 11 +++++++++--
 src/iter/cloned.rs             |  4 ++--
 src/iter/copied.rs             |  4 ++--
 src/iter/implementors/array.rs |  2 +-
 src/iter/implementors/iter.rs  |  2 +-
 src/iter/implementors/range.rs |  2 +-
 src/iter/implementors/slice.rs |  2 +-
 src/iter/implementors/vec.rs   |  2 +-
 9 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 87ac117..a149184 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -47,7 +47,7 @@ impl AtomicCounter {
 
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub(crate) fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..c4a0aa6 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,20 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// The item is moved out of consuming iterators, and wrapped iterators are advanced.
+    /// Hence, the caller must have reserved the `item_idx`-th position by progressing the counter of this iterator,
+    /// and must not call this method for the same position more than once.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: the position is reserved by this call, and nobody else reserves the same position
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..8e06c51 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,8 +53,8 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
-        self.iter.get(item_idx).cloned()
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
+        unsafe { self.iter.get(item_idx) }.cloned()
     }
 
     #[inline(always)]
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..961043c 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,8 +53,8 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
-        self.iter.get(item_idx).copied()
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
+        unsafe { self.iter.get(item_idx) }.copied()
     }
 
     #[inline(always)]
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..172b08f 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -100,7 +100,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 630f7d1..f0fefd2 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -126,7 +126,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..ed5ec79 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         let value = self.range.start + item_idx.into();
         match value.cmp(&self.range.end) {
             Ordering::Less => Some(value),
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..a7cf0c4 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..0cb21be 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -97,7 +97,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0


From 80570e5bfee101a45727bac571e5df9ebe7dcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 09/17] fix: ranges near the largest index and inverted ranges

Positions, rather than values, are compared with the length of the range, so that no value beyond the
bounds of the range is computed.
---
 src/iter/buffered/range.rs     | 10 ++++++----
 src/iter/implementors/range.rs | 19 +++++++------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2fe9afc 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -1,5 +1,5 @@
 use super::buffered_chunk::BufferedChunk;
-use crate::ConIterOfRange;
+use crate::{iter::atomic_iter::AtomicIterWithInitialLen, ConIterOfRange};
 use std::{
     cmp::Ordering,
     ops::{Add, Range, Sub},
@@ -38,10 +38,12 @@ where
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = Idx>> {
         let range = iter.range();
-        let begin_value = begin_idx + range.start.into();
-        match begin_value.cmp(&range.end.into()) {
+        match begin_idx.cmp(&iter.initial_len()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let begin_value = begin_idx + range.start.into();
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index ed5ec79..895d61d 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -117,24 +116,20 @@ where
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let begin_value = begin_idx + self.range.start.into();
-        let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
-            _ => begin_value,
-        };
-        let end_idx: usize = end_value - self.range.start.into();
+        let end_idx = begin_idx.saturating_add(n).min(self.initial_len());
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
             _ => {
-                let values = (begin_value..end_value).map(Idx::from);
+                let start: usize = self.range.start.into();
+                let values = (start + begin_idx..start + end_idx).map(Idx::from);
                 Some(NextChunk { begin_idx, values })
             }
         }
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        self.counter().store(self.initial_len())
     }
 }
 
@@ -243,7 +238,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From 1983d5a7d7cc4068e5369165d140e2d9b00d0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 10/17] fix: chunk sizes which are close to the largest index
 do not overflow

---
 src/iter/buffered/slice.rs     | 3 ++-
 src/iter/implementors/array.rs | 4 ++--
 src/iter/implementors/iter.rs  | 2 +-
 src/iter/implementors/slice.rs | 5 ++++-
 src/iter/implementors/vec.rs   | 7 +++++--
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 172b08f..432676f 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index f0fefd2..89dd0a6 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -169,7 +169,7 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
+            let end_idx = begin_idx.saturating_add(n);
             let guard = self.complete_on_unwind();
             let buffer = (begin_idx..end_idx)
                 .map(|_| iter.next())
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index a7cf0c4..22e41a6 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 0cb21be..f651814 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 6c7a138e10092041d07b1dbb31cfe0bdb69fb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 11/17] fix: chunks of consumed vectors and arrays do not
 violate preconditions of Vec::from_raw_parts

The vectors were created with a length exceeding the capacity, on a pointer which is not returned by the allocator.
---
 src/iter/buffered/mod.rs         |  1 +
 src/iter/buffered/taken_slice.rs | 47 ++++++++++++++++++++++++++++++++
 src/iter/implementors/array.rs   |  8 +++---
 src/iter/implementors/vec.rs     | 12 ++++----
 4 files changed, 59 insertions(+), 9 deletions(-)
 create mode 100644 src/iter/buffered/taken_slice.rs

diff --git a/src/iter/buffered/mod.rs b/src/iter/buffered/mod.rs
index a8b5b1f..9e3536d 100644
--- a/src/iter/buffered/mod.rs
+++ b/src/iter/buffered/mod.rs
@@ -6,6 +6,7 @@ pub mod copied_buffered_chunk;
 pub mod iter;
 pub mod range;
 pub mod slice;
+pub(crate) mod taken_slice;
 pub mod vec;
 
 #[cfg(test)]
diff --git a/src/iter/buffered/taken_slice.rs b/src/iter/buffered/taken_slice.rs
new file mode 100644
index 0000000..75af021
--- /dev/null
+++ b/src/iter/buffered/taken_slice.rs
@@ -0,0 +1,47 @@
+use std::{iter::FusedIterator, mem::MaybeUninit, slice::IterMut};
+
+/// Owner of consecutive elements which are still stored in the collection that a consuming concurrent iterator consumes.
+/// The elements which are not yielded are dropped with the iterator; the storage belongs to the concurrent iterator.
+pub(crate) struct TakenSlice<'a, T> {
+    elements: IterMut<'a, MaybeUninit<T>>,
+}
+
+impl<'a, T> TakenSlice<'a, T> {
+    /// # Safety
+    ///
+    /// All `elements` must be initialized, and they must not be accessed or dropped by anyone else.
+    pub(crate) unsafe fn new(elements: &'a mut [MaybeUninit<T>]) -> Self {
+        Self {
+            elements: elements.iter_mut(),
+        }
+    }
+}
+
+impl<T> Iterator for TakenSlice<'_, T> {
+    type Item = T;
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        // SAFETY: each element is initialized and visited only once
+        self.elements
+            .next()
+            .map(|x| unsafe { x.assume_init_read() })
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.elements.size_hint()
+    }
+}
+
+impl<T> ExactSizeIterator for TakenSlice<'_, T> {}
+
+impl<T> FusedIterator for TakenSlice<'_, T> {}
+
+impl<T> Drop for TakenSlice<'_, T> {
+    fn drop(&mut self) {
+        let rest = std::mem::take(&mut self.elements).into_slice();
+        // SAFETY: elements which are not visited are still initialized
+        unsafe { std::ptr::drop_in_place(rest as *mut [MaybeUninit<T>] as *mut [T]) };
+    }
+}
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 432676f..054ae07 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -3,6 +3,7 @@ use crate::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
         buffered::{
             array::BufferedArray, buffered_chunk::BufferedChunk, buffered_iter::BufferedIter,
+            taken_slice::TakenSlice,
         },
     },
     next::NextChunk,
@@ -54,14 +55,13 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
         let array = &mut *self.array.get();
         let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = array.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
+        TakenSlice::new(std::slice::from_raw_parts_mut(ptr, len))
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f651814..2a1befb 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,7 +1,10 @@
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
-        buffered::{buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, vec::BufferedVec},
+        buffered::{
+            buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, taken_slice::TakenSlice,
+            vec::BufferedVec,
+        },
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -54,14 +57,13 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
         let vec = &mut *self.vec.get();
         let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = vec.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
+        TakenSlice::new(std::slice::from_raw_parts_mut(ptr, len))
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-- 
2.43.0


From 961668e8d921b81996707062b34713f5ed09b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 12/17] fix: remaining elements of a consumed array are dropped
 or moved out exactly once

The array was treated as the allocation of a vector, and references to its elements were invalidated.
---
 src/iter/implementors/array.rs | 54 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 054ae07..ad9b274 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -24,10 +24,9 @@ pub struct ConIterOfArray<const N: usize, T: Send + Sync> {
 
 impl<const N: usize, T: Send + Sync> Drop for ConIterOfArray<N, T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= N {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let num_taken = self.counter().current().min(N);
+        // SAFETY: elements starting from num_taken are neither taken nor dropped
+        unsafe { self.drop_from(num_taken) };
     }
 }
 
@@ -40,15 +39,12 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         }
     }
 
-    unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
-
-        let mut value = MaybeUninit::<T>::uninit();
-        let dst_ptr = value.as_mut_ptr();
+    fn as_mut_ptr(&self) -> *mut T {
+        self.array.get() as *mut T
+    }
 
-        dst_ptr.write(src_ptr.read());
-        value.assume_init()
+    unsafe fn take_one(&self, item_idx: usize) -> T {
+        self.as_mut_ptr().add(item_idx).read()
     }
 
     pub(crate) unsafe fn take_slice(
@@ -56,25 +52,17 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         begin_idx: usize,
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> + '_ {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
+        let ptr = self.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
         TakenSlice::new(std::slice::from_raw_parts_mut(ptr, len))
     }
 
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= N);
-
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
-
-        *man_array = ManuallyDrop::new(array);
-        right_vec
+    unsafe fn drop_from(&self, begin_idx: usize) {
+        let ptr = self.as_mut_ptr().add(begin_idx);
+        let rest = std::ptr::slice_from_raw_parts_mut(ptr, N - begin_idx);
+        std::ptr::drop_in_place(rest);
     }
 }
 
@@ -185,8 +173,18 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
+        // elements are moved into the remaining vector, they must not be dropped together with self
+        let iter = ManuallyDrop::new(self);
+        let num_taken = iter.counter().current().min(N);
+        let len = N - num_taken;
+
+        let mut remaining_vec = Vec::with_capacity(len);
+        // SAFETY: elements starting from num_taken are neither taken nor dropped, remaining_vec has capacity for len elements
+        unsafe {
+            let src = iter.as_mut_ptr().add(num_taken);
+            std::ptr::copy_nonoverlapping(src, remaining_vec.as_mut_ptr(), len);
+            remaining_vec.set_len(len);
+        }
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From d80008a425823f75d5afd4b3b4011b26c6a4aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 13/17] fix: the allocation of a consumed vector is released

---
 src/iter/implementors/vec.rs | 70 +++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 2a1befb..96f2d72 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -18,16 +18,24 @@ use std::{
 /// A concurrent iterator over a vector, consuming the vector and yielding its elements.
 #[derive(Debug)]
 pub struct ConIterOfVec<T: Send + Sync> {
-    vec: UnsafeCell<ManuallyDrop<Vec<T>>>,
+    vec: UnsafeCell<VecBuffer<T>>,
     vec_len: usize,
     counter: AtomicCounter,
 }
 
+/// Allocation of the consumed vector.
+struct VecBuffer<T> {
+    ptr: *mut T,
+    capacity: usize,
+}
+
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
+        let num_taken = self.counter().current().min(self.vec_len);
+        // SAFETY: elements starting from num_taken are neither taken nor dropped, and the allocation is not released
+        unsafe {
+            let _allocation = Vec::from_raw_parts(self.as_mut_ptr(), 0, self.capacity());
+            self.drop_from(num_taken);
         }
     }
 }
@@ -35,22 +43,30 @@ impl<T: Send + Sync> Drop for ConIterOfVec<T> {
 impl<T: Send + Sync> ConIterOfVec<T> {
     /// Consumes and creates a concurrent iterator of the given `vec`.
     pub fn new(vec: Vec<T>) -> Self {
+        let mut vec = ManuallyDrop::new(vec);
         Self {
             vec_len: vec.len(),
-            vec: ManuallyDrop::new(vec).into(),
+            vec: VecBuffer {
+                ptr: vec.as_mut_ptr(),
+                capacity: vec.capacity(),
+            }
+            .into(),
             counter: AtomicCounter::new(),
         }
     }
 
-    unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
+    fn as_mut_ptr(&self) -> *mut T {
+        // SAFETY: the buffer is never mutated
+        unsafe { (*self.vec.get()).ptr }
+    }
 
-        let mut value = MaybeUninit::<T>::uninit();
-        let dst_ptr = value.as_mut_ptr();
+    fn capacity(&self) -> usize {
+        // SAFETY: the buffer is never mutated
+        unsafe { (*self.vec.get()).capacity }
+    }
 
-        dst_ptr.write(src_ptr.read());
-        value.assume_init()
+    unsafe fn take_one(&self, item_idx: usize) -> T {
+        self.as_mut_ptr().add(item_idx).read()
     }
 
     pub(crate) unsafe fn take_slice(
@@ -58,22 +74,17 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         begin_idx: usize,
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> + '_ {
-        let vec = &mut *self.vec.get();
-        let end_idx = begin_idx.saturating_add(len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(self.vec_len);
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
+        let ptr = self.as_mut_ptr().add(begin_idx) as *mut MaybeUninit<T>;
         TakenSlice::new(std::slice::from_raw_parts_mut(ptr, len))
     }
 
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= self.vec_len);
-
-        let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
-        right_vec
+    unsafe fn drop_from(&self, begin_idx: usize) {
+        let ptr = self.as_mut_ptr().add(begin_idx);
+        let rest = std::ptr::slice_from_raw_parts_mut(ptr, self.vec_len - begin_idx);
+        std::ptr::drop_in_place(rest);
     }
 }
 
@@ -183,8 +194,17 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
+        // elements and the allocation are moved into the remaining vector, they must not be dropped together with self
+        let iter = ManuallyDrop::new(self);
+        let num_taken = iter.counter().current().min(iter.vec_len);
+        let len = iter.vec_len - num_taken;
+
+        // SAFETY: elements starting from num_taken are neither taken nor dropped, and the allocation is not released
+        let remaining_vec = unsafe {
+            let ptr = iter.as_mut_ptr();
+            std::ptr::copy(ptr.add(num_taken), ptr, len);
+            Vec::from_raw_parts(ptr, len, iter.capacity())
+        };
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From 1e23deac9adb323060cbe91bb5b2b3074adde1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 14/17] fix: skipped elements of consumed vectors and arrays
 are dropped

---
 src/iter/implementors/array.rs | 4 +++-
 src/iter/implementors/vec.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index ad9b274..53cc2cf 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -113,7 +113,9 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        let num_taken = self.counter().fetch_and_add(N).min(N);
+        // SAFETY: elements starting from num_taken are reserved by this call, and nobody else takes or drops them
+        unsafe { self.drop_from(num_taken) };
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 96f2d72..fdc4bdc 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -137,7 +137,9 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        let num_taken = self.counter().fetch_and_add(self.vec_len).min(self.vec_len);
+        // SAFETY: elements starting from num_taken are reserved by this call, and nobody else takes or drops them
+        unsafe { self.drop_from(num_taken) };
     }
 }
 
-- 
2.43.0


From 7be026ef423648554216eef4c3563be2943f3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 15/17] fix: buffered iterators over wrapped iterators do not
 allocate more than they pull

Creating a buffered iterator with a huge chunk size panicked with capacity overflow.
---
 src/iter/buffered/iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 5746fb1..ba0d817 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -9,6 +9,7 @@ where
     Iter: Iterator<Item = T>,
 {
     values: Vec<Option<T>>,
+    chunk_size: usize,
     phantom: PhantomData<Iter>,
 }
 
@@ -21,13 +22,14 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            values: vec![],
+            chunk_size,
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -41,7 +43,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => {
                     iter.complete();
                     break;
-- 
2.43.0


From 5e782d72a5bba6652964ff2cb4721f27cb65ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 16/17] verif hook: loads may return earlier values

---
 src/verif.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 529ee07..7dea321 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -27,6 +27,12 @@ pub trait Observer: Sync + Send {
     fn before(&self, addr: usize);
     /// Called right after the operation is executed; `old` is the value read, `new` is the value written.
     fn after(&self, addr: usize, kind: Kind, order: Ordering, old: usize, new: usize);
+    /// Called right after a load which has read the `latest` value, instead of `after`; returns the value to be used as
+    /// the result of the load, which is an earlier value if the observer simulates a weak memory model.
+    fn load(&self, addr: usize, order: Ordering, latest: usize) -> usize {
+        self.after(addr, Kind::Load, order, latest, latest);
+        latest
+    }
 }
 
 static OBSERVER: OnceLock<&'static dyn Observer> = OnceLock::new();
@@ -48,6 +54,13 @@ fn after(addr: usize, kind: Kind, order: Ordering, old: usize, new: usize) {
     }
 }
 
+fn load(addr: usize, order: Ordering, latest: usize) -> usize {
+    match OBSERVER.get() {
+        Some(x) => x.load(addr, order, latest),
+        None => latest,
+    }
+}
+
 /// Mirror of `std::sync::atomic`.
 pub mod atomic {
     use super::{after, before, Kind};
@@ -61,7 +74,7 @@ pub mod atomic {
     }
 
     macro_rules! hooked {
-        ($name:ident, $t:ty, $to:expr) => {
+        ($name:ident, $t:ty, $to:expr, $from:expr) => {
             /// See the type with the same name in `std::sync::atomic`.
             #[derive(Default)]
             pub struct $name {
@@ -102,8 +115,7 @@ pub mod atomic {
                 pub fn load(&self, order: Ordering) -> $t {
                     before(self.addr());
                     let x = self.inner.load(order);
-                    after(self.addr(), Kind::Load, order, $to(x), $to(x));
-                    x
+                    $from(super::load(self.addr(), order, $to(x)))
                 }
 
                 pub fn store(&self, x: $t, order: Ordering) {
@@ -195,7 +207,7 @@ pub mod atomic {
 
     macro_rules! hooked_int {
         ($name:ident, $t:ty) => {
-            hooked!($name, $t, (|x: $t| x as usize));
+            hooked!($name, $t, (|x: $t| x as usize), (|x: usize| x as $t));
 
             impl $name {
                 pub fn fetch_add(&self, x: $t, order: Ordering) -> $t {
@@ -217,7 +229,7 @@ pub mod atomic {
         };
     }
 
-    hooked!(AtomicBool, bool, (|x: bool| x as usize));
+    hooked!(AtomicBool, bool, (|x: bool| x as usize), (|x: usize| x != 0));
     hooked_int!(AtomicUsize, usize);
     hooked_int!(AtomicIsize, isize);
     hooked_int!(AtomicU64, u64);
-- 
2.43.0


From e156b614d1f23007f2217ef21b1696d7ec208d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 17/17] verif hook: weak compare-exchange operations may fail
 spuriously

---
 src/verif.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 7dea321..5cdcbab 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -33,6 +33,10 @@ pub trait Observer: Sync + Send {
         self.after(addr, Kind::Load, order, latest, latest);
         latest
     }
+    /// Called right before a weak compare-exchange; it fails spuriously when the answer is true.
+    fn spurious(&self, _addr: usize) -> bool {
+        false
+    }
 }
 
 static OBSERVER: OnceLock<&'static dyn Observer> = OnceLock::new();
@@ -54,6 +58,10 @@ fn after(addr: usize, kind: Kind, order: Ordering, old: usize, new: usize) {
     }
 }
 
+fn spurious(addr: usize) -> bool {
+    OBSERVER.get().is_some_and(|x| x.spurious(addr))
+}
+
 fn load(addr: usize, order: Ordering, latest: usize) -> usize {
     match OBSERVER.get() {
         Some(x) => x.load(addr, order, latest),
@@ -63,7 +71,7 @@ fn load(addr: usize, order: Ordering, latest: usize) -> usize {
 
 /// Mirror of `std::sync::atomic`.
 pub mod atomic {
-    use super::{after, before, Kind};
+    use super::{after, before, spurious, Kind};
     pub use std::sync::atomic::*;
 
     /// See `std::sync::atomic::fence`.
@@ -152,6 +160,12 @@ pub mod atomic {
                     success: Ordering,
                     failure: Ordering,
                 ) -> Result<$t, $t> {
+                    if spurious(self.addr()) {
+                        before(self.addr());
+                        let x = self.inner.load(failure);
+                        after(self.addr(), Kind::RmwFail, failure, $to(x), $to(x));
+                        return Err(x);
+                    }
                     self.compare_exchange(current, new, success, failure)
                 }
 
-- 
2.43.0

