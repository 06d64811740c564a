From 7ced031dd595381c40a3534d699e65ce823d7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 1/9] fix: go_back of detached iterators wraps to the right
 position

Going back by more than the current index landed on len - count - idx
instead of len - count + idx.
---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..193363f 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..f42f3e3 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -98,7 +98,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From 6fb7874f71f019bd46e0d3caf985759c711c6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 2/9] fix: reset_index forgets the availability remembered
 before the reset

Otherwise the next request is granted from the stale count and the
iterator oversteps its successor.
---
 src/iterators/sync_iterators/cons_iter.rs | 1 +
 src/iterators/sync_iterators/work_iter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..ab67085 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,7 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..097d660 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,7 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From f15c21f44d0e1011e4ee0218a1e9e9a07a448e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 3/9] fix: set_index and reset_index of detached iterators
 update the remembered availability

They kept the count remembered at the old position, so that the next
request could overstep the successor; moreover, resetting a detached
producer placed it on the consumer, i.e. one slot too far.
---
 src/iterators/sync_iterators/detached.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f42f3e3..f9e5778 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,14 +69,17 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        // Whatever was available at the old position says nothing about the new one.
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
     /// To sync the atomic index, use [`Self::sync_index`].
     #[inline]
     pub fn reset_index(&mut self) {
-        let new_idx = self.inner.succ_index();
-        self.inner.set_local_index(new_idx);
+        // Skip what is available, so that a producer stops one slot before the consumer.
+        let avail = self.inner.available();
+        unsafe { self.inner.advance_local(avail); }
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From 9d6dcdd5580098a007c2828aef07cec6c76dd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 4/9] fix: iterators are Send only if their items are, detached
 ones only if the iterator is

Detached iterators of local buffers, and iterators over items which
cannot be sent, could be moved to another thread by safe code.
---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 193363f..8d8943a 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index ab67085..a4c2813 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f9e5778..00ef21d 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..4454c5e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 097d660..8b68ffe 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From 50b92d9494476c8f73fab15c050f93f4d59713ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 5/9] fix: free the buffer exactly once when iterators are
 dropped concurrently

Each drop cleared its own flag and then read the two others: two iterators
dropped at once could both find the buffer theirs to free, and a third one
could still access it afterwards. Handles are now counted.
---
 src/ring_buffer/variants/concurrent_rb.rs     | 20 +++++++++++--
 src/ring_buffer/variants/local_rb.rs          | 21 ++++++++++++-
 src/ring_buffer/variants/ring_buffer_trait.rs |  7 +++++
 src/ring_buffer/wrappers/buf_ref.rs           | 30 ++++++++++---------
 4 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..331ee86 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,6 +1,6 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 use core::sync::atomic::{AtomicBool, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
@@ -41,6 +41,8 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     prod_alive: AtomicBool,
     work_alive: AtomicBool,
     cons_alive: AtomicBool,
+
+    handles: AtomicUsize,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
@@ -131,7 +133,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
 
             prod_alive: AtomicBool::default(),
             work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            cons_alive: AtomicBool::default(),
+
+            handles: AtomicUsize::new(0)
         }
     }
 }
@@ -190,6 +194,18 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         self.cons_alive.store(alive, Release);
     }
+
+    fn set_handles(&self, count: usize) {
+        self.handles.store(count, Relaxed);
+    }
+
+    fn acquire_handle(&self) {
+        self.handles.fetch_add(1, Relaxed);
+    }
+
+    fn release_handle(&self) -> bool {
+        self.handles.fetch_sub(1, AcqRel) == 1
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for ConcurrentMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..0ffd5f0 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -33,6 +33,8 @@ pub struct LocalMutRingBuf<S: Storage> {
     prod_alive: UnsafeCell<bool>,
     work_alive: UnsafeCell<bool>,
     cons_alive: UnsafeCell<bool>,
+
+    handles: UnsafeCell<usize>,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for LocalMutRingBuf<S> {
@@ -55,7 +57,9 @@ impl<S: Storage<Item = T>, T> LocalMutRingBuf<S> {
 
             prod_alive: false.into(),
             work_alive: false.into(),
-            cons_alive: false.into()
+            cons_alive: false.into(),
+
+            handles: 0.into()
         }
     }
 }
@@ -114,6 +118,21 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         unsafe { *self.cons_alive.get() = alive; }
     }
+
+    fn set_handles(&self, count: usize) {
+        unsafe { *self.handles.get() = count; }
+    }
+
+    fn acquire_handle(&self) {
+        unsafe { *self.handles.get() += 1; }
+    }
+
+    fn release_handle(&self) -> bool {
+        unsafe {
+            *self.handles.get() -= 1;
+            *self.handles.get() == 0
+        }
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for LocalMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..168c357 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -24,6 +24,13 @@ pub trait IterManager {
     fn set_prod_alive(&self, alive: bool);
     fn set_work_alive(&self, alive: bool);
     fn set_cons_alive(&self, alive: bool);
+
+    /// Sets the number of handles to the buffer held by iterators.
+    fn set_handles(&self, count: usize);
+    /// Registers another handle.
+    fn acquire_handle(&self);
+    /// Gives a handle back, returning `true` if it was the last one.
+    fn release_handle(&self) -> bool;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..29d63db 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -13,9 +13,10 @@ pub struct BufRef<'buf, B> {
     _phantom: PhantomData<&'buf ()>
 }
 
-impl<'buf, B> BufRef<'buf, B> {
+impl<'buf, B: IterManager> BufRef<'buf, B> {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(buf: B) -> Self {
+        buf.set_handles(1);
         let x = Box::new(buf);
 
         Self {
@@ -34,6 +35,8 @@ impl<'buf, B> BufRef<'buf, B> {
 
     #[cfg(not(feature = "vmem"))]
     pub(crate) fn from_ref(buf: &'buf mut B) -> Self {
+        buf.set_handles(1);
+
         Self {
             inner: NonNull::from(buf),
             needs_drop: false,
@@ -45,8 +48,10 @@ impl<'buf, B> BufRef<'buf, B> {
     pub(crate) fn drop(&self) {}
 }
 
-impl<B> Clone for BufRef<'_, B> {
+impl<B: IterManager> Clone for BufRef<'_, B> {
     fn clone(&self) -> Self {
+        self.acquire_handle();
+
         Self {
             inner: self.inner,
             needs_drop: self.needs_drop,
@@ -70,10 +75,9 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_prod_alive(alive);
 
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
+            // The flags cannot tell which iterator is the last one, when more of them are
+            // being dropped at once. After this point the buffer may be gone.
+            if self.inner.as_ref().release_handle() {
                 self.drop();
             }
         }
@@ -84,10 +88,9 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_work_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
+            // The flags cannot tell which iterator is the last one, when more of them are
+            // being dropped at once. After this point the buffer may be gone.
+            if self.inner.as_ref().release_handle() {
                 self.drop();
             }
         }
@@ -98,10 +101,9 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_cons_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
-            fence(SeqCst);
-
-            if cond {
+            // The flags cannot tell which iterator is the last one, when more of them are
+            // being dropped at once. After this point the buffer may be gone.
+            if self.inner.as_ref().release_handle() {
                 self.drop();
             }
         }
-- 
2.43.0


From daa1ad083446896baef55f8644713ef348afc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 6/9] fix: splitting a stack buffer again starts with
 consistent indices

The new iterators start at 0, while the indices published by the previous
ones were left where they were.
---
 src/ring_buffer/storage/mod.rs                | 4 ++++
 src/ring_buffer/variants/concurrent_rb.rs     | 4 ++++
 src/ring_buffer/variants/ring_buffer_trait.rs | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..2215c9e 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -52,6 +52,8 @@ pub(crate) mod impl_splits {
         #[cfg(not(feature = "vmem"))]
         impl<T, const N: usize> StackSplit<$Struct<StackStorage<T, N>>> for $Struct<StackStorage<T, N>> {
             fn split(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, false>) {
+                self.reset_indices();
+
                 self.set_prod_alive(true);
                 self.set_cons_alive(true);
 
@@ -63,6 +65,8 @@ pub(crate) mod impl_splits {
             }
 
             fn split_mut(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, WorkIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, true>) {
+                self.reset_indices();
+
                 self.set_prod_alive(true);
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 331ee86..d4cb558 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -77,6 +77,8 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, false>) {
+        self.reset_indices();
+
         self.set_prod_alive(true);
         self.set_cons_alive(true);
 
@@ -93,6 +95,8 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_mut_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncWorkIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, true>) {
+        self.reset_indices();
+
         self.set_prod_alive(true);
         self.set_work_alive(true);
         self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 168c357..01641db 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -18,6 +18,14 @@ pub trait IterManager {
     fn set_work_index(&self, index: usize);
     fn set_cons_index(&self, index: usize);
 
+    /// Sets all the indices to the position iterators start from. To be called when a buffer which
+    /// may have already been used is split.
+    fn reset_indices(&self) {
+        self.set_prod_index(0);
+        self.set_work_index(0);
+        self.set_cons_index(0);
+    }
+
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-- 
2.43.0


From b9a1fa3167be206e656ac3ab58cae67e831f2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 7/9] fix: pending futures ask to be polled again

Nothing in the crate called the registered wakers, so a task awaiting an
operation was never polled again by an executor relying on wake-ups.
---
 src/iterators/async_iterators/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..dbbe8c7 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,8 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // No one else is going to call the waker when the operation becomes possible.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From d73968d2b756010165cf410ab94fb1edbd2693fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 8/9] fix: vmem buffers are really mirrored, keep their
 contents and drop their items

The second mapping was a fresh anonymous one, so windows crossing the end
of the buffer ended up in unrelated memory; data were copied from the new
region to the source; items were never dropped; failures of mmap were
ignored.
---
 src/ring_buffer/storage/heap/mod.rs         |  9 ++-
 src/ring_buffer/storage/heap/vmem_helper.rs | 72 +++++++++++++++++----
 2 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..b25ff16 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -19,6 +19,9 @@ pub struct HeapStorage<T> {
 impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
+            #[cfg(feature = "vmem")]
+            core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+
             #[cfg(feature = "vmem")]
             libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
 
@@ -31,11 +34,15 @@ impl <T> Drop for HeapStorage<T> {
 impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
+        let len = value.len();
         let r = vmem_helper::new(&value);
 
+        // Items have been moved: only the memory they were in has to be freed.
+        drop(unsafe { Box::from_raw(Box::into_raw(value) as *mut [core::mem::ManuallyDrop<UnsafeSyncCell<T>>]) });
+
         Self {
             inner: r,
-            len: value.len(),
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..273b390 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -3,6 +3,7 @@
 
 //! Utilities for `vmem` optimisation.
 
+use core::ffi::c_int;
 use core::ptr;
 use crate::UnsafeSyncCell;
 
@@ -21,31 +22,80 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
+/// Creates an anonymous shared memory object, returning its descriptor or a negative value.
+/// `region` is the address of the region the object is going to be mapped to.
+#[cfg(any(target_os = "linux", target_os = "android", target_os = "freebsd"))]
+unsafe fn shared_memory(_region: usize) -> c_int {
+    libc::memfd_create(c"mutringbuf".as_ptr(), libc::MFD_CLOEXEC)
+}
+
+/// Creates an anonymous shared memory object, returning its descriptor or a negative value.
+/// `region` is the address of the region the object is going to be mapped to.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android", target_os = "freebsd"))))]
+unsafe fn shared_memory(region: usize) -> c_int {
+    #[cfg(target_vendor = "apple")]
+    let mode = 0o600 as libc::c_uint;
+    #[cfg(not(target_vendor = "apple"))]
+    let mode = 0o600 as libc::mode_t;
+
+    // No other process or region can be using this name.
+    let mut name = *b"/mrb00000000-0000000000000000\0";
+    let (mut pid, mut addr) = (libc::getpid() as u32, region as u64);
+    for d in name[4..12].iter_mut() {
+        *d = b"0123456789abcdef"[(pid % 16) as usize];
+        pid /= 16;
+    }
+    for d in name[13..29].iter_mut() {
+        *d = b"0123456789abcdef"[(addr % 16) as usize];
+        addr /= 16;
+    }
+
+    let name = name.as_ptr() as *const libc::c_char;
+    libc::shm_unlink(name);
+    let fd = libc::shm_open(name, libc::O_RDWR | libc::O_CREAT | libc::O_EXCL, mode);
+    libc::shm_unlink(name);
+
+    fd
+}
+
+/// Moves `value` to a new region, which is immediately followed by its mirror: each item can be
+/// found at two addresses, `size_of_val(value)` bytes apart.
+/// The items in `value` must not be used or dropped afterwards.
 pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
     
     unsafe {
         let size = size_of_val(value);
+        assert!(size > 0, "must not be empty.");
         
         let buffer = libc::mmap(
             ptr::null_mut(),
             2 * size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
-            -1, 0
-        );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
+            libc::PROT_NONE,
+            libc::MAP_PRIVATE | libc::MAP_ANON,
             -1, 0
         );
+        assert_ne!(buffer, libc::MAP_FAILED, "cannot reserve memory.");
+
+        let fd = shared_memory(buffer as usize);
+        assert!(fd >= 0, "cannot create shared memory.");
+        assert_eq!(libc::ftruncate(fd, size as libc::off_t), 0, "cannot allocate memory.");
+
+        for half in [buffer, buffer.byte_add(size)] {
+            let mapped = libc::mmap(
+                half,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+            assert_eq!(mapped, half, "cannot map memory.");
+        }
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
+        libc::memcpy(r as _, value.as_ptr() as _, size);
         
         r
     }
-- 
2.43.0


From af7c0900e377d07a16c00fc4b9c2bca388e2c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 9/9] fix: empty slots are zeroed entirely, including padding

Moving a zeroed cell does not copy its padding bytes, so slots of a type
with padding could be taken for occupied ones, and be dropped, after
new_zeroed or pop_move.
---
 src/ring_buffer/storage/heap/rb.rs           | 12 ++++++------
 src/ring_buffer/storage/stack/rb.rs          |  6 ++++--
 src/ring_buffer/wrappers/unsafe_sync_cell.rs |  6 +++++-
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ring_buffer/storage/heap/rb.rs b/src/ring_buffer/storage/heap/rb.rs
index 1d358e7..aaea056 100644
--- a/src/ring_buffer/storage/heap/rb.rs
+++ b/src/ring_buffer/storage/heap/rb.rs
@@ -38,12 +38,12 @@ macro_rules! impl_rb {
             /// This method accepts a minimum size, which will then be used to compute the actual
             /// size (equal to or greater than it).
             pub unsafe fn new_zeroed(capacity: usize) -> Self {
-                Self::_from(
-                    HeapStorage::from(                        
-                        (0..get_range_max(capacity))
-                        .map(|_| UnsafeSyncCell::new_zeroed()).collect::<Box<[UnsafeSyncCell<T>]>>()
-                    )
-                )
+                let mut cells = (0..get_range_max(capacity))
+                    .map(|_| UnsafeSyncCell::new_zeroed()).collect::<Box<[UnsafeSyncCell<T>]>>();
+                // Padding bytes are not preserved when a cell is moved.
+                core::ptr::write_bytes(cells.as_mut_ptr(), 0, cells.len());
+
+                Self::_from(HeapStorage::from(cells))
             }
         
             #[doc = concat!("Creates a new [`", stringify!($t), "`] with given capacity and elements initialised to `default`.")]
diff --git a/src/ring_buffer/storage/stack/rb.rs b/src/ring_buffer/storage/stack/rb.rs
index e4337d3..baf0918 100644
--- a/src/ring_buffer/storage/stack/rb.rs
+++ b/src/ring_buffer/storage/stack/rb.rs
@@ -17,8 +17,10 @@ macro_rules! impl_rb {
             /// # Safety
             /// The buffer must be then initialised using proper [`ProdIter`] methods (`*_init` ones).
             pub unsafe fn new_zeroed() -> Self {
-                let v: [UnsafeSyncCell<T>; N] = core::array::from_fn(|_| UnsafeSyncCell::new_zeroed());
-                
+                let mut v: [UnsafeSyncCell<T>; N] = core::array::from_fn(|_| UnsafeSyncCell::new_zeroed());
+                // Padding bytes are not preserved when a cell is moved.
+                core::ptr::write_bytes(v.as_mut_ptr(), 0, N);
+
                 Self::_from(StackStorage::from(v))
             }
         }
diff --git a/src/ring_buffer/wrappers/unsafe_sync_cell.rs b/src/ring_buffer/wrappers/unsafe_sync_cell.rs
index 8a029fa..be73a27 100644
--- a/src/ring_buffer/wrappers/unsafe_sync_cell.rs
+++ b/src/ring_buffer/wrappers/unsafe_sync_cell.rs
@@ -65,7 +65,11 @@ impl<T> UnsafeSyncCell<T> {
     /// The cell will be uninitialised and so must be initialised again with [`Self::as_mut_ptr`].
     #[inline]
     pub unsafe fn take_inner(&self) -> T {
-        core::mem::replace(&mut *self.0.get(), MaybeUninit::<T>::zeroed()).assume_init()
+        let value = self.inner_duplicate();
+        // Padding bytes have to be cleared, too, for the cell to be recognised as empty.
+        self.as_mut_ptr().write_bytes(0, 1);
+
+        value
     }
 
     /// Reads and duplicates the value.
-- 
2.43.0

