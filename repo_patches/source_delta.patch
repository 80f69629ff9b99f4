From 1a88992c534f6598f56ec0d29ba935e430d90a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 01/14] fix: swap neither deadlocks with itself nor with a
 crossing swap

---
 src/mut_elem.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..aced21c 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -28,6 +28,15 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        // elements are locked in the order of their addresses so that two concurrent calls cannot
+        // wait for each other; an element must not be locked twice by the same call
+        let (i, j) = match (self.get(i), self.get(j)) {
+            (Some(a), Some(b)) if core::ptr::eq(a, b) => return true,
+            (Some(a), Some(b)) if core::ptr::from_ref(a) > core::ptr::from_ref(b) => (j, i),
+            (Some(_), Some(_)) => (i, j),
+            _ => return false,
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From dba7fb5a780a4761ff9b6da6cd92152797d5f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 02/14] fix: len counts elements that are being read or updated
 concurrently

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..5f3742b 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,7 +129,8 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
+            // an element which is reserved by a concurrent read or update is already pushed
+            match x.0.state(Ordering::Relaxed) != State::None {
                 true => num_pushed += 1,
                 false => break,
             }
-- 
2.43.0


From c9d91f42246c73204b19e170b5846dafafdaf076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 03/14] fix: comparing two elements keeps both of them locked

---
 src/common_traits/eq.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..59a1296 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,21 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // both elements are locked during the comparison, in the order of their addresses so that
+        // two concurrent comparisons cannot wait for each other
+        let eq = match core::ptr::from_ref(self).cmp(&core::ptr::from_ref(other)) {
+            Ordering::Less => self.0.map(|x| other.0.map(|y| x == y)),
+            Ordering::Equal => self.0.map(|x| Some(x.eq(x))),
+            Ordering::Greater => other.0.map(|y| self.0.map(|x| x == y)),
+        };
+        match eq {
+            Some(eq) => eq.unwrap_or(false),
+            None => self.0.is_none() && other.0.is_none(),
+        }
     }
 }
 
-- 
2.43.0


From 584e651127f5e53e4b2de1e4c60145286cd61950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 04/14] fix: raw access does not skip elements that are being
 read or updated concurrently

---
 src/concurrent_slice/unsafe_api.rs | 4 +---
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..cca5b4f 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -254,8 +253,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
-        unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        unsafe { self.vec.core.iter_over_range(self.a..b) }.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From 8f9f74d32d04c5a71ab056d0b862656c8c8e94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 05/14] fix: push_for_idx does not block growth while its
 closure is running

---
 src/grow.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..0394233 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,11 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+        // the closure is called after the storage is grown, otherwise it would block other threads
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 67638b2db113cceb51f5f3d2c477f6fb629d02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 06/14] fix: into_inner and to_vec work after growth beyond the
 maximum capacity failed

---
 src/vec.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 5f3742b..3b3ef07 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.occupied_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
@@ -103,6 +103,19 @@ where
         }
     }
 
+    /// Returns the number of positions up to and including the last one having an element.
+    /// Positions reserved by failed growing calls behind the last element are not counted.
+    pub(crate) fn occupied_len(&self) -> usize {
+        let mut len = self.reserved_len();
+        while len > 0 {
+            match unsafe { self.core.get(len - 1) } {
+                Some(elem) if elem.0.state(Ordering::Relaxed) != State::None => break,
+                _ => len -= 1,
+            }
+        }
+        len
+    }
+
     /// Returns the number of elements which are pushed to the vec,
     /// excluding the elements which received their reserved locations and are currently being pushed.
     ///
-- 
2.43.0


From a489c65c35e5efcea58854caade419a5091eac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 07/14] fix: clear drops each element once and keeps the
 capacity

---
 src/exclusive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..be7b929 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -7,7 +8,12 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        let len = self.reserved_len();
+        self.len_reserved().store(0, Ordering::Relaxed);
+        self.len_written().store(0, Ordering::Relaxed);
+        for elem in unsafe { self.core.iter_mut(len) } {
+            _ = elem.0.exclusive_take();
+        }
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From 06abf1f406c80cc1134ec73bd34500a433e147f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 08/14] fix: reserve_maximum_capacity after growth beyond the
 maximum capacity failed

---
 src/exclusive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index be7b929..ba8ae07 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -34,9 +34,11 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
+        let len = self.occupied_len();
+        self.len_reserved().store(len, Ordering::Relaxed);
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(len, new_maximum_capacity)
         }
     }
 }
-- 
2.43.0


From 7ea450413aa4e8628fa5100a7568b808340943af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 09/14] fix: reserve_maximum_capacity of a fixed capacity vec
 renews its view of the moved storage

---
 src/exclusive.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index ba8ae07..50dc0dd 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,5 +1,6 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::Ordering;
+use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -36,9 +37,18 @@ where
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
         let len = self.occupied_len();
         self.len_reserved().store(len, Ordering::Relaxed);
+        let len_written = self.len();
         unsafe {
             self.core
                 .reserve_maximum_capacity(len, new_maximum_capacity)
-        }
+        };
+
+        // reservation may have moved the storage, the concurrent view of it must be renewed
+        let empty = PinnedConcurrentCol::new_from_pinned(P::pseudo_default());
+        let core = core::mem::replace(&mut self.core, empty);
+        self.core = PinnedConcurrentCol::new_from_pinned(unsafe { core.into_inner(len) });
+        self.len_written().store(len_written, Ordering::Relaxed);
+
+        self.maximum_capacity()
     }
 }
-- 
2.43.0


From 5586731ff0d4bb6e96a4ae658acc961292bcc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 10/14] fix: sharing a vec or an element moves values between
 threads and requires T: Send

---
 src/elem.rs | 3 +++
 src/vec.rs  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..7bbb4a7 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -10,6 +10,9 @@ use orx_concurrent_option::ConcurrentOption;
 /// [`vec.iter()`]: crate::ConcurrentVec::iter
 pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);
 
+// # SAFETY: values can be moved out of a shared element (`replace`, `set`); hence, sharing requires T: Send as well.
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 impl<T> From<ConcurrentOption<T>> for ConcurrentElement<T> {
     fn from(value: ConcurrentOption<T>) -> Self {
         Self(value)
diff --git a/src/vec.rs b/src/vec.rs
index 3b3ef07..1ca0bae 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -434,7 +434,8 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+// # SAFETY: values can be moved out of a shared vec (`replace`, `set`, `swap`); hence, sharing requires T: Send as well.
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From aedc2538d12a6b5d72ab608abeec10503a85269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 11/14] fix: slice of a range whose bound has no successor
 overflowed

---
 src/concurrent_slice/slice.rs |  4 ++--
 src/helpers.rs                | 19 +++++++++++++++++++
 src/vec.rs                    |  7 +++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/concurrent_slice/slice.rs b/src/concurrent_slice/slice.rs
index 340e705..1221975 100644
--- a/src/concurrent_slice/slice.rs
+++ b/src/concurrent_slice/slice.rs
@@ -1,4 +1,4 @@
-use crate::{elem::ConcurrentElement, helpers::DefaultPinVec, ConcurrentVec};
+use crate::{elem::ConcurrentElement, helpers::{range_limits, DefaultPinVec}, ConcurrentVec};
 use core::ops::RangeBounds;
 use orx_fixed_vec::IntoConcurrentPinnedVec;
 
@@ -112,7 +112,7 @@ where
     /// assert_eq!(&sub_slice, &[2, 3]);
     /// ```
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<T, P> {
-        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
+        let [a, b] = range_limits(&range, self.len());
         let len = b - a;
         ConcurrentSlice::new(self.vec, self.a + a, len)
     }
diff --git a/src/helpers.rs b/src/helpers.rs
index 478fb4f..20892ce 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::ops::{Bound, RangeBounds};
 use core::sync::atomic::AtomicUsize;
 use orx_concurrent_option::{MutHandle, StateU8};
 use orx_pinned_vec::IntoConcurrentPinnedVec;
@@ -6,6 +7,24 @@ use orx_split_vec::{Doubling, SplitVec};
 
 pub(crate) type DefaultPinVec<T> = SplitVec<ConcurrentElement<T>, Doubling>;
 
+/// Returns the positions `[begin, end]` of the range within a collection of length `len`.
+/// Bounds are clamped to the collection, including `usize::MAX` which has no successor.
+pub(crate) fn range_limits<R: RangeBounds<usize>>(range: &R, len: usize) -> [usize; 2] {
+    let begin = match range.start_bound() {
+        Bound::Included(a) => *a,
+        Bound::Excluded(a) => a.saturating_add(1),
+        Bound::Unbounded => 0,
+    };
+    let end = match range.end_bound() {
+        Bound::Included(b) => b.saturating_add(1),
+        Bound::Excluded(b) => *b,
+        Bound::Unbounded => len,
+    };
+
+    let begin = begin.min(len);
+    [begin, end.clamp(begin, len)]
+}
+
 impl<T, P> ConcurrentVec<T, P>
 where
     P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
diff --git a/src/vec.rs b/src/vec.rs
index 1ca0bae..d10942f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1,6 +1,9 @@
 use crate::elem::ConcurrentElement;
 use crate::ConcurrentSlice;
-use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
+use crate::{
+    helpers::{range_limits, DefaultPinVec},
+    state::ConcurrentVecState,
+};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
 use orx_concurrent_option::State;
@@ -230,7 +233,7 @@ where
     /// assert_eq!(&sub_slice, &[2, 3]);
     /// ```
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<T, P> {
-        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
+        let [a, b] = range_limits(&range, self.len());
         let len = b - a;
         ConcurrentSlice::new(self, a, len)
     }
-- 
2.43.0


From aac7bb282e8a7602ea14a62c4dc9084d4ce3eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 12/14] fix: a batch larger than the maximum capacity
 overflowed the counter of reserved positions

---
 src/grow.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index 0394233..cb7e880 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -312,6 +312,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_can_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -433,6 +434,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_can_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -448,4 +450,13 @@ where
 
         begin_idx
     }
+
+    /// A batch which can never fit must be rejected before reserving positions,
+    /// otherwise the counter of reserved positions could overflow and positions would be used twice.
+    fn assert_can_fit(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "number of items to be pushed exceeds the maximum capacity"
+        );
+    }
 }
-- 
2.43.0


From 4aa11400dcf8672921fdfe074f5b17c9b72208ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 13/14] fix: slice of a range whose bound has no successor
 overflowed (formatting)

---
 src/concurrent_slice/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/concurrent_slice/slice.rs b/src/concurrent_slice/slice.rs
index 1221975..e6eae9b 100644
--- a/src/concurrent_slice/slice.rs
+++ b/src/concurrent_slice/slice.rs
@@ -1,4 +1,8 @@
-use crate::{elem::ConcurrentElement, helpers::{range_limits, DefaultPinVec}, ConcurrentVec};
+use crate::{
+    elem::ConcurrentElement,
+    helpers::{range_limits, DefaultPinVec},
+    ConcurrentVec,
+};
 use core::ops::RangeBounds;
 use orx_fixed_vec::IntoConcurrentPinnedVec;
 
-- 
2.43.0


From cbeec3eaefdffdb50017447be95e24ea7168cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:44 +0000
Subject: [PATCH 14/14] fix: clear drops the remaining values even if dropping
 one of them panics

---
 src/exclusive.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index 50dc0dd..5614983 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -10,11 +10,10 @@ where
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
         let len = self.reserved_len();
+        // the vector must be empty before values are dropped, dropping any of them might panic
         self.len_reserved().store(0, Ordering::Relaxed);
         self.len_written().store(0, Ordering::Relaxed);
-        for elem in unsafe { self.core.iter_mut(len) } {
-            _ = elem.0.exclusive_take();
-        }
+        take_all(unsafe { self.core.iter_mut(len) });
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -52,3 +51,24 @@ where
         self.maximum_capacity()
     }
 }
+
+/// Takes out and drops the values of all elements; remaining ones are taken out even if dropping a value panics.
+fn take_all<'a, T: 'a>(elements: impl Iterator<Item = &'a mut ConcurrentElement<T>>) {
+    struct Remaining<'a, T: 'a, I: Iterator<Item = &'a mut ConcurrentElement<T>>>(I);
+
+    impl<'a, T: 'a, I: Iterator<Item = &'a mut ConcurrentElement<T>>> Remaining<'a, T, I> {
+        fn take(&mut self) {
+            for elem in self.0.by_ref() {
+                _ = elem.0.exclusive_take();
+            }
+        }
+    }
+
+    impl<'a, T: 'a, I: Iterator<Item = &'a mut ConcurrentElement<T>>> Drop for Remaining<'a, T, I> {
+        fn drop(&mut self) {
+            self.take();
+        }
+    }
+
+    Remaining(elements).take();
+}
-- 
2.43.0

