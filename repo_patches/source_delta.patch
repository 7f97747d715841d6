From 33045302ad8437bcf05076c56c8557a9692d5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 01/41] fix: ScopePtr::alloc dropped the uninitialised memory
 it allocated

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..0b9fca6 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: memory is valid for writes but is not initialized yet, so the previous
+        // contents must not be dropped.
+        unsafe { ptr.ptr.as_ptr().write(value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From 1833c4b0933518d316c63a1033c8599816d12b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 02/41] fix: ScopePtr::into_inner dropped the value it returns
 and freed twice

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index 0b9fca6..5523754 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -205,6 +205,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // Value is moved out and memory is released. Prevent Drop from repeating that.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From a10eb540092c74eb8c2ff89ab82ba615b865c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 03/41] fix: zero-sized values were requested from and released
 to allocators

---
 src/ptr.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 5523754..5de3798 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -190,7 +190,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Zero-sized requests should not reach the allocator.
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // Zero-sized values were never allocated.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
-- 
2.43.0


From b34617862b43f51d6abbf74b9125bc1d45cf34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 04/41] fix: realloc_array wrapped huge sizes and requested
 zero-sized blocks

---
 src/ptr.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 5de3798..08b692e 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -281,11 +281,19 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
+        let new_layout = Layout::array::<T>(new_capacity).map_err(|_| CapacityOverflow)?;
+        if new_layout.size() == 0 {
+            // Zero-sized requests should not reach the allocator.
+            self.dealloc();
+            let ptr = NonNull::<T>::dangling().as_ptr();
+            self.ptr = NonNull::new_unchecked(slice::from_raw_parts_mut(ptr, new_capacity));
+            return Ok(());
+        }
         let ptr = self.alloc.realloc(
             self.ptr.as_ptr() as _,
             // SAFETY: we already constructed such Layout before to allocate - it will not fail.
             Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
+            new_layout.size(),
         );
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
-- 
2.43.0


From a70893a811874f97d91c1959744b4b4dccd2c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 05/41] fix: Vec::with_marker lost its marker

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From a5ebac8858f4706feba5faf65d3768ce82ab8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 06/41] fix: Vec::clear exposed dropped elements when a
 destructor panics

---
 src/vec.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..17b3b7f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -268,15 +268,9 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        // Length is set before dropping the elements so that those are not dropped again
+        // in case Drop panics.
+        self.truncate(0);
     }
 
     #[inline]
-- 
2.43.0


From 1832a9f8df7077898942d2a85ef733e479185593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 07/41] fix: Vec::leak returned memory that was already freed

---
 src/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 17b3b7f..2641486 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -308,7 +308,10 @@ impl<T: 'static> Vec<T> {
     pub fn leak(mut self) -> &'static mut [T] {
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        let slice = unsafe { impose_lifetime_mut(self.as_mut_slice()) };
+        // Avoid normal Drop of Vec.
+        mem::forget(self);
+        slice
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From 3cc08b78514232e3f08bde5a695d27e4c2d439f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 08/41] fix: Vec::dealloc_without_drop dropped the elements and
 freed twice

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2641486..b916511 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -317,7 +317,8 @@ impl<T: 'static> Vec<T> {
     /// Deallocate Vec without running Drop for the elements.
     #[inline]
     pub fn dealloc_without_drop(mut self) {
-        unsafe { self.ptr.dealloc() };
+        // Memory itself is deallocated by the normal Drop of Vec.
+        unsafe { self.set_len(0) };
     }
 
     #[inline]
-- 
2.43.0


From 016eb415c5b914108a768b8af47c1ccc79fba9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 09/41] fix: Vec::swap_remove of the last element copied
 overlapping memory

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index b916511..6812f6e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -368,10 +368,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. Those are the same when last element is removed.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From fe4a8e7b660938e8eb20271d40803b2c9c6bfa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 10/41] fix: Vec::into_boxed_slice lost the elements of
 zero-sized types

---
 src/vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec.rs b/src/vec.rs
index 6812f6e..367e194 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -385,7 +385,9 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
+        // Note: pointer does not hold the length for zero-sized types, so set it here.
         let access = unsafe { self.ptr.clone() };
+        let access = unsafe { access.cast::<T>().cast_to_slice(self.len()) };
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 7c536e80cc496faa188f571e64b0a152efaa8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 11/41] fix: Vec::split_off kept the elements and returned an
 empty Vec

---
 src/vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 367e194..ee290cf 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -405,7 +405,11 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                vec.set_len(count);
+                self.set_len(at);
+            }
             vec
         }
     }
-- 
2.43.0


From 2e64a2b3ecfc98a592a850854d3f808d4e236b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 12/41] fix: drain checked its range against the shortened
 collection and lost the tail

---
 src/vec.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index ee290cf..99c2dfa 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -536,13 +536,16 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        assert!(start <= end && end <= original_len);
+
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
@@ -553,8 +556,8 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
             vec_ptr: vec,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            slice: unsafe { &vec.as_slice_with_len(original_len)[start..end] },
+            original_len,
         }
     }
 
@@ -574,10 +577,9 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
+            let ptr = vec.as_slice_with_len_mut(self.original_len).as_mut_ptr();
             let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            ptr::copy(ptr.add(self.end), ptr.add(self.start), self.original_len - self.end);
 
             // Restore valid length of Vec.
             vec.set_len(self.original_len - count);
-- 
2.43.0


From bf78d4a73cb629e5cc01c33b19c469cbf81d77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 13/41] fix: retain and dedup skipped the second element

---
 src/vec.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 99c2dfa..b7c213f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -736,7 +736,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -773,11 +773,10 @@ impl<'a, T: 'static> RetainIter<'a, T> {
     /// Care should be taken to forget the element in `read` and only use one stored
     /// in `write` after copying.
     unsafe fn copy(&mut self) {
-        debug_assert_ne!(self.read, self.write);
-
         let read: *const T = self.get_unchecked(self.read);
         let write: *mut T = self.get_unchecked_mut(self.write);
-        ptr::copy_nonoverlapping(read, write, 1);
+        // Element remains in place until some element before it is discarded.
+        ptr::copy(read, write, 1);
     }
 
     /// Increment `len` in controlled `vec` to indicate processed element.
-- 
2.43.0


From 7e113bd32873995e93a56dfb2a85c8d31921919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 14/41] fix: dedup_by compared with the slot an element was
 moved out of

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index b7c213f..94c9b1f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -825,7 +825,8 @@ impl<'a, T: 'static> RetainIter<'a, T> {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
+                // Element was moved to the end of the kept ones.
+                keeped = unsafe { iter.get_unchecked_mut(iter.write - 1) };
             }
         }
     }
-- 
2.43.0


From 50b4a01425def8441a1b3be7553d9bb071e661c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 15/41] fix: Vec::from a slice panicked unless the slice was
 empty

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 94c9b1f..f500a75 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -998,7 +998,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From f91c24cc60736059abd25071c4626050a534b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 16/41] fix: IntoIter yielded elements twice from the back and
 miscounted the rest

---
 src/vec.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index f500a75..38da451 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1101,13 +1101,18 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
@@ -1139,7 +1144,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1147,7 +1152,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From b02f4156550a3d9b941a930c7fae25d259c8ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 17/41] fix: SmallVec::truncate never dropped elements stored
 inline

---
 src/small_vec.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..3eb1bc4 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,12 +250,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
-                unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
-                    drop_in_place(to_drop);
-                }
-            }
+            unsafe { drop_in_place(&mut self.as_slice_with_len_mut(old_len)[len..]) };
         }
     }
 
-- 
2.43.0


From 4c63055ca450c4c621ee5317459d8141125ab1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 18/41] fix: SmallVec::insert did not check the index and
 aborted at the end

---
 src/small_vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3eb1bc4..3a1d430 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -196,7 +196,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
         debug_assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        let write: *mut T = self.as_mut_ptr().add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
@@ -573,6 +573,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn insert(&mut self, index: usize, value: T) {
+        assert!(index <= self.len());
+
         // Ensure we can store one more element. This will move to heap if stack is full.
         self.reserve(1);
 
-- 
2.43.0


From e7e24920a30ae83f0348cd6dcf4c619805c8ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 19/41] fix: SmallVec::remove copied one element beyond the
 last

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3a1d430..e20df22 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -219,7 +219,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From e6007e4f739b2d66e3972ad4585d65ce0dbe6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 20/41] fix: SmallVec::swap_remove of the last element copied
 overlapping memory

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e20df22..b83a78a 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -264,7 +264,8 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
 
             // Copy last element in place of removed one.
             let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            // Those are the same element if the last one is removed.
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
-- 
2.43.0


From ba219fb10250f131a3e4f355aecd57adba4e688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 21/41] fix: SmallVec::resize and resize_with panicked instead
 of moving to the heap

---
 src/small_vec.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index b83a78a..258be6d 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -370,7 +370,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -402,7 +401,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     {
         if len > N {
             // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
+            self.reserve(len.saturating_sub(self.len()));
         }
 
         use Storage::*;
@@ -412,6 +411,20 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        if len > N {
+            // Move to heap to be able to store all new elements.
+            self.reserve(len.saturating_sub(self.len()));
+        }
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From 96adffe103163d4198be801e34b480c278af5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 22/41] fix: SmallVec::reserve moved to the heap although the
 elements fit inline

---
 src/small_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 258be6d..a97837c 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -489,6 +489,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
+        if additional <= self.spare_len() {
+            // There is already enough space.
+            return Ok(());
+        }
+
         let new_capacity = self.capacity().overflow_guarded_add(additional);
         let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
 
-- 
2.43.0


From c8ab15a163618e917834a8581b4eccec076e5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 23/41] fix: SmallVec::try_move_to_heap_and_reserve_exact
 wrapped huge requests

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index a97837c..2c48aca 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -452,7 +452,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let required_cap = old_vec.len().overflow_guarded_add(additional);
+                let reserve = usize::max(required_cap, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
-- 
2.43.0


From f58383d8c18c7c545988ce6f7f9c68603fdc33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 24/41] fix: SmallVec::try_move_to_heap_and_reserve_exact
 panicked instead of returning the error

---
 src/small_vec.rs | 2 +-
 src/vec.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 2c48aca..8856817 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -468,7 +468,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
diff --git a/src/vec.rs b/src/vec.rs
index 38da451..8b98451 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -873,7 +873,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From 1fc687a31561f18ca48e6f7deee37136d74c748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 25/41] fix: SmallVec::from an array that fits inline lost its
 elements

---
 src/small_vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 8856817..7f0fddb 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -961,6 +961,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     L,
                 )
             };
+            // SAFETY: all elements of the slice were just moved in.
+            unsafe { vec.set_len(L) };
             SmallVec {
                 storage: Storage::Stack(vec),
                 marker: Default::default(),
-- 
2.43.0


From 730d11e91be4db8c0ddc1528ff98c6027ba64555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 26/41] fix: SmallVec::split_off refused the position after the
 last element

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 7f0fddb..716174a 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -643,10 +643,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
+            let slice = self.as_ptr().add(at);
             copy_nonoverlapping(slice, into.as_mut_ptr(), count);
             self.set_len(self.len() - count);
             into.set_len(count);
-- 
2.43.0


From 23d3758baf09ba37cfc6410c6074719a974239e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 27/41] fix: equal markers and selectors differed between
 crates

The name of a type is not stored once per program, so compare the name and
not its address.
---
 src/scope.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..05443fd 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -26,9 +26,9 @@ pub enum AllocMarker {
     /// MonsterMarker or NpcMarker.
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
-    // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // values which limits usability.
+    // The strings themselves are compared, as the same type's name may be stored at different
+    // addresses in different parts of a program.
     Type(&'static str),
 }
 
@@ -36,7 +36,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -46,7 +46,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -69,14 +69,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From dd12c3b582f8e65bbda91ed61b11f7a05cdc12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 28/41] fix: Env::spawn used the bytes of the scope value as a
 reference

---
 src/scope.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 05443fd..664cc7a 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,6 +1,6 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
-use core::mem::transmute_copy;
+use core::mem::{transmute, transmute_copy};
 use std::any::type_name;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -138,7 +138,8 @@ impl Env {
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            let cur: &mut dyn Scope = &mut new_scope;
+            self.cur = ScopedMut::unsafe_from(transmute::<_, &mut (dyn Scope + 'static)>(cur));
 
             let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
-- 
2.43.0


From e55ecb566179263445ff18d88fd4dac1e827f0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 29/41] fix: Env::spawn left the spawned scope current when its
 body panics

---
 src/scope.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 664cc7a..e30ea4e 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -141,11 +141,9 @@ impl Env {
             let cur: &mut dyn Scope = &mut new_scope;
             self.cur = ScopedMut::unsafe_from(transmute::<_, &mut (dyn Scope + 'static)>(cur));
 
-            let t = f(&mut new_scope);
-            // SAFETY: we will give up execution to previous scope so restore previous
-            // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            // Previous scope is restored even if the function panics.
+            let _restore = RestoreScope { env: self, prev };
+            f(&mut new_scope)
         }
     }
 
@@ -169,6 +167,20 @@ fn env_mut() -> &'static mut Env {
     unsafe { ENV.unwrap()() }
 }
 
+/// Makes the previous scope the current one when execution of the spawned one is over.
+struct RestoreScope<'a> {
+    env: &'a mut Env,
+    prev: &'a mut (dyn Scope + 'static),
+}
+
+impl Drop for RestoreScope<'_> {
+    fn drop(&mut self) {
+        // SAFETY: we will give up execution to previous scope so restore previous
+        // scope's lifetime by unsafe_into.
+        self.env.cur = unsafe { (&mut *self.prev).unsafe_into() };
+    }
+}
+
 /// Get current scope. The scope's lifetime is bound to the lifetime of current function
 /// (or more exactly, to the value passed to create a bound to). The lifetime
 /// is required so that the scope reference will not be returned outside of the
-- 
2.43.0


From 071cf9a36ff230ba8981209c7938f518fa5240d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 30/41] fix: Rc never dropped its value nor released its memory

---
 src/rc.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..d355879 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -161,15 +161,19 @@ impl Rc<dyn core::any::Any + 'static> {
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
         if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
+            // This was the last `Rc` so drop the value. Since this moment it cannot be upgraded to.
+            self.inner().dec_strong();
+            // Value may own the last `Weak`. Do not allow it to release RcBox while in use here.
+            self.inner().inc_weak();
+            unsafe { drop_in_place(self.as_mut()) }
+            self.inner().dec_weak();
         } else {
             self.inner().dec_strong();
         }
 
         if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
             // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+            unsafe { ManuallyDrop::drop(&mut self.0) }
         }
     }
 }
@@ -345,9 +349,10 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if let Some(v) = self.inner() {
             let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
+            // Previous value of the counter is tested.
+            if weak == 1 && self.strong_count() == 0 {
+                if let Some(inner) = &mut self.0 {
+                    unsafe { ManuallyDrop::drop(inner) };
                 }
             }
         }
-- 
2.43.0


From 5b491e31a8a89f5a36b56526c95eed61c9e6f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 31/41] fix: Rc::try_unwrap left the value reachable through
 weak handles

---
 src/rc.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index d355879..33e3fa1 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -8,7 +8,7 @@ use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
 use core::mem::ManuallyDrop;
 use core::ptr::drop_in_place;
-use core::{fmt, ptr};
+use core::{fmt, mem, ptr};
 
 /// Internal allocated holder for value and counters of Rc.
 struct RcBox<T: ?Sized> {
@@ -118,9 +118,17 @@ impl<T: 'static> Rc<T> {
         ))
     }
 
-    pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
+    pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
             let val = unsafe { ptr::read(&this.0.val) };
+            // RcBox does not own the value no more.
+            this.inner().set_zero_strong();
+            if Rc::weak_count(&this) == 0 {
+                // Nothing refers to RcBox now so drop it.
+                unsafe { ManuallyDrop::drop(&mut this.0) };
+            }
+            // Prevent normal Drop execution - resources are already managed here.
+            mem::forget(this);
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From 16c823c94f3fe97b50a6d8f0519318555482f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 32/41] fix: Rc::make_mut underflowed the strong count when
 weak handles exist

---
 src/rc.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 33e3fa1..8ad310c 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,14 +108,18 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
+        Self::try_from_data(val.into()).unwrap()
+    }
+
+    /// Create Rc for given data. The data is not dropped on failure.
+    fn try_from_data(val: MaybeDropped<T>) -> Result<Self, AllocError> {
         let b = RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
-            val: val.into(),
+            val,
         };
-        Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
-        ))
+        let ptr = ScopePtr::alloc(b, AllocSelector::new::<T>())?;
+        Ok(Rc(ManuallyDrop::new(ptr)))
     }
 
     pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
@@ -142,11 +146,13 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
+                let data = unsafe { ptr::read(&this.inner().val) };
+                let rc = Rc::try_from_data(data).unwrap();
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                // Old Rc does not own a counted strong reference no more so it is not dropped.
+                unsafe { ptr::write(this, rc) };
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From 06367e2b7ffbc7e77ec8806d6e7db3d6d3de36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 33/41] fix: Rc::new leaked the value when the allocation is
 refused

---
 src/rc.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 8ad310c..ff697b9 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,7 +108,15 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
-        Self::try_from_data(val.into()).unwrap()
+        let val = ManuallyDrop::new(val);
+        match Self::try_from_data(unsafe { ptr::read(&*val) }.into()) {
+            Ok(rc) => rc,
+            Err(e) => {
+                // Value was not moved in.
+                drop(ManuallyDrop::into_inner(val));
+                panic!("{e:?}");
+            }
+        }
     }
 
     /// Create Rc for given data. The data is not dropped on failure.
-- 
2.43.0


From 83941ee2c298fb1dbcb50423761f235e73555efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 34/41] fix: Arc::downgrade spun forever when the weak count
 changed under it

---
 src/arc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..dcc72c9 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,10 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                // Other thread changed the counter. Retry with the actual value.
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From cfc438ad01047aceb0bd48f6e25f8e935f669cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 35/41] fix: Arc weak handles were never released and raced for
 the memory

Weak had no Drop, and the memory was released only if no weak handle existed
when the last Arc was dropped. All Arcs now hold one implicit weak reference
and whoever drops the last weak reference releases the memory. make_mut
underflowed the strong count when it moved the value out.
---
 src/arc.rs | 97 +++++++++++++++++++++++++-----------------------------
 1 file changed, 44 insertions(+), 53 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index dcc72c9..6a06cbd 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,9 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All `Arc`s together hold one implicit weak reference, so that `ArcInner` is released
+    // by the one who drops the last weak reference, explicit or implicit.
+    // It is also the value that is locked.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -94,20 +97,6 @@ impl<'a> AtomicCounter<'a> {
             .compare_exchange_weak(current, new, order, Relaxed)
     }
 
-    #[inline]
-    pub(crate) fn try_decrement(&mut self, order: Ordering) -> Result<usize, usize> {
-        debug_assert!(self.val > 0);
-        self.inner
-            .compare_exchange_weak(self.val, self.val - 1, order, Relaxed)
-    }
-
-    #[inline]
-    pub(crate) fn try_set_zero(&mut self, order: Ordering) -> Result<usize, usize> {
-        debug_assert!(self.val > 0);
-        self.inner
-            .compare_exchange_weak(self.val, 0, order, Relaxed)
-    }
-
     /// Whether the counter was locked when last read.
     #[inline]
     pub(crate) fn is_locked(&self) -> bool {
@@ -138,10 +127,15 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
+        Self::try_from_data(data.into())
+    }
+
+    /// Create Arc for given data. The data is not dropped on failure.
+    fn try_from_data(data: MaybeDropped<T>) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
-            data: data.into(),
+            weak: AtomicUsize::new(1),
+            data,
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
             inner,
@@ -173,42 +167,31 @@ impl<T: 'static> Arc<T> {
     where
         T: Clone,
     {
-        let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let strong = this.inner().load_strong(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
+                // Move out the data to a new Arc. This is the only `Arc` and no other one may
+                // appear since that requires access to this one.
+                let data = unsafe { ptr::read(&this.inner().data) };
+                let arc = Arc::try_from_data(data).unwrap();
+
+                // Implicit weak reference prevents ArcInner from deallocating while we use it
+                // here. This binding takes it over and will clean resources afterwards.
                 let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
-                match strong.try_set_zero(Acquire) {
-                    Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
-                    }
-                    Err(_) => {
-                        // Probably, `Arc` was cloned before we have disassociated.
-                        // Need to create a new Arc instead without decrementing and clone the
-                        // data.
-                        let clone = this.as_ref().clone();
-                        *this = Arc::new(clone);
-                    }
-                }
+                this.inner().strong.store(0, Relaxed);
+
+                // Old Arc does not own a counted strong reference no more so it is not dropped.
+                unsafe { ptr::write(this, arc) };
             }
         } else {
             // There are several `strong`s so just clone the data and create a new Arc.
@@ -221,7 +204,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -236,10 +219,9 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // If nothing refers to the ArcInner no more then release it by dropping the
+            // implicit weak reference.
+            drop(Weak(ManuallyDrop::new(this.0.clone())));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -273,7 +255,7 @@ impl<T: ?Sized> Arc<T> {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
         // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        cnt.get().map_or(0, |cnt| cnt - 1)
     }
 
     #[inline]
@@ -323,7 +305,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -334,7 +316,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -353,10 +335,8 @@ impl<T: ?Sized> Arc<T> {
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
 
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
+        // Release the data if Weaks are not alive by dropping the implicit weak reference.
+        drop(Weak(ManuallyDrop::new(self.0.clone())));
     }
 }
 
@@ -542,6 +522,17 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    #[inline]
+    fn drop(&mut self) {
+        // See `Drop` of `Arc` for the explanation of the orderings.
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+        }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 0c09e8173e1906a12cc8015961c7bb6914d4a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 36/41] fix: Arc::try_new leaked the value when the allocation
 is refused

---
 src/arc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arc.rs b/src/arc.rs
index 6a06cbd..14095ca 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -127,7 +127,13 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        Self::try_from_data(data.into())
+        let data = ManuallyDrop::new(data);
+        let arc = Self::try_from_data(unsafe { ptr::read(&*data) }.into());
+        if arc.is_err() {
+            // Value was not moved in.
+            drop(ManuallyDrop::into_inner(data));
+        }
+        arc
     }
 
     /// Create Arc for given data. The data is not dropped on failure.
-- 
2.43.0


From ced8f7312258830f69eb08bbf88f5832c1a4479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 37/41] fix: Urc never dropped its value nor released its
 memory

Releasing the last strong handle of a thread did not always update the master,
the last weak handle leaked its fence, try_unwrap and make_mut damaged the
counters, and get_mut left the weak counter locked. A Fence now releases what
it is counted for when it is dropped, and all strong fences together count as
one weak fence so that the last one to go releases the master.
---
 src/urc.rs | 242 ++++++++++++++++++++++++-----------------------------
 1 file changed, 110 insertions(+), 132 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..430600f 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,8 +10,7 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
-use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
+use crate::marker::{clone_scope_access, MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
 use core::any::Any;
@@ -104,11 +103,27 @@ impl<T> Fence<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        let master = clone_scope_access(&self.master);
+        // SAFETY: this `Fence` is counted by the master and is never used after.
+        unsafe {
+            if self.is_strong() {
+                Master::release_strong(master)
+            } else {
+                Master::release_weak(master)
+            }
+        }
+    }
+}
+
 struct Master<T: ?Sized> {
     /// Count of `Fence` that has at least one strong reference.
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences together are counted here as one more `Fence`, so that the master is
+    /// released by the one who decrements this counter to zero.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -116,6 +131,37 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+impl<T: ?Sized> Master<T> {
+    /// Release strong `Fence`. Drops the data if it was the last one.
+    ///
+    /// # Safety
+    /// Released `Fence` should not use the master after.
+    unsafe fn release_strong(mut this: ManuallyDrop<ScopePtr<Self>>) {
+        if this.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop data as this was the only strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            // Destroy the data at this time, even though we must not free the box
+            // allocation itself (there might still be weak pointers lying around).
+            drop_in_place(MaybeDropped::as_mut(&mut this.data));
+
+            Self::release_weak(this);
+        }
+    }
+
+    /// Release weak `Fence`. Releases the master if it was the last one.
+    ///
+    /// # Safety
+    /// Released `Fence` should not use the master after.
+    unsafe fn release_weak(mut this: ManuallyDrop<ScopePtr<Self>>) {
+        if this.weak_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop Master as this was the only Fence");
+            core::sync::atomic::fence(Acquire);
+            ManuallyDrop::drop(&mut this);
+        }
+    }
+}
+
 pub struct Urc<T: ?Sized + 'static> {
     /// A fence of this Urc.
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
@@ -125,10 +171,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -164,11 +207,8 @@ impl<T: ?Sized> Urc<T> {
     #[must_use = "this returns a new `Weak` pointer, without modifying the original `Urc`"]
     pub fn downgrade(this: &Self) -> Weak<T> {
         this.fence().inc_weak();
-        unsafe {
-            Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
-            }
+        Weak {
+            fence: clone_scope_access(&this.fence),
         }
     }
 
@@ -187,11 +227,6 @@ impl<T: ?Sized> Urc<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn fence_mut(&mut self) -> &mut Fence<T> {
-        &mut self.fence
-    }
-
     #[inline]
     pub fn try_into_fence(mut this: Self) -> Result<ScopePtr<Fence<T>>, Self> {
         if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {
@@ -216,10 +251,15 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
+        Self::try_from_data(data.into())
+    }
+
+    /// Create Urc for given data.
+    fn try_from_data(data: MaybeDropped<T>) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
-            data: data.into(),
+            weak_fence: 1.into(),
+            data,
         };
         let fence = Fence {
             strong: 1.into(),
@@ -255,7 +295,12 @@ impl<T> Urc<T> {
         unsafe { Ok(Pin::new_unchecked(Self::try_new(data)?)) }
     }
 
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,33 +312,31 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
-            // If nothing refers to the Fence no more then release it.
-            if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
-                ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
-            }
-
-            // Prevent normal Drop execution - we already managed resources here.
-            mem::forget(this);
+            Self::disown(this);
 
             Ok(elem)
         }
     }
 
+    /// Release the last strong reference after the data was moved out.
+    ///
+    /// # Safety
+    /// The data should be moved out and strong fence count of the master should be set to zero.
+    unsafe fn disown(mut this: Self) {
+        // From now on the Fence takes the place of all strong fences in `weak_fence`.
+        this.fence().strong.set(0);
+        // If nothing refers to the Fence no more then release it.
+        if this.fence().weak_count() == 0 {
+            ManuallyDrop::drop(&mut this.fence);
+        }
+        // Prevent normal Drop execution - we already managed resources here.
+        mem::forget(this);
+    }
+
     pub fn make_mut(this: &mut Self) -> &mut T
     where
         T: Clone,
@@ -309,60 +352,29 @@ impl<T> Urc<T> {
         // Move out the data to another completely new Master.
         macro_rules! move_out(
             () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
+                let data = unsafe { ptr::read(&this.master().data) };
+                let urc = Self::try_from_data(data).unwrap();
                 // Set strong to zero to indicate this Fence/Master
                 // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
+                this.master().strong_fence.store(0, Relaxed);
 
-                *this = Self::new(data);
+                unsafe { Self::disown(mem::replace(this, urc)) };
                 unsafe { Urc::get_mut_unchecked(this) }
             }};
         );
 
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
-                }
-            } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
+        if this.fence().strong_count() == 1 && this.master().strong_fence.load(Acquire) == 1 {
+            // This is the only strong reference in all threads. No other one may appear as
+            // that requires access to this one.
 
+            if this.fence().weak_count() != 0 || this.master().weak_fence.load(Acquire) != 1 {
+                // Disassociate weak pointers of this or of other threads from the data.
+                // Master and Fence are not deallocated by other threads during this process
+                // since this Fence is still counted.
                 move_out!()
+            } else {
+                // The only reference at all.
+                unsafe { Urc::get_mut_unchecked(this) }
             }
         } else {
             clone!()
@@ -395,26 +407,13 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
-
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        // Strong fences are tested first: if this is the only one, then no other Fence may
+        // appear since that requires access to this one. So there is no need to lock
+        // `weak_fence` as other Fences can only be released in the meantime.
+        self.master().strong_fence.load(Acquire) == 1
+            && self.master().weak_fence.load(Acquire) == 1
+            && self.fence().strong_count() == 1
+            && self.fence().weak_count() == 0
     }
 }
 
@@ -443,11 +442,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -499,22 +493,15 @@ impl<T: ?Sized> Drop for Urc<T> {
         if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
             // The fence is no more referenced so drop it.
             trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
             unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
+        } else if Urc::fence_strong_count(self) == 1 {
+            // Only weak references remain, so the Fence becomes the weak one. Note that they
+            // may be owned by the data, so do not access the Fence after.
+            let master = clone_scope_access(&self.fence.master);
+            master.weak_fence.fetch_add(1, Relaxed);
+            self.fence().dec_strong();
+            // SAFETY: this Fence does not own the data no more.
+            unsafe { Master::release_strong(master) };
         } else {
             // There are still either other strong or some weak references.
             // Just decrement the counter and keep the Fence.
@@ -527,16 +514,7 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         } else {
             // There are still either some strong or other weak references.
             // Just decrement the counter and keep the Fence.
-- 
2.43.0


From 47ec5089032342c31d6c25af12f1957d9c6d6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 38/41] fix: Urc::try_new leaked the value when an allocation
 is refused

---
 src/urc.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 430600f..d91cb1c 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -251,28 +251,42 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        Self::try_from_data(data.into())
+        let data = ManuallyDrop::new(data);
+        let urc = Self::try_from_data(unsafe { ptr::read(&*data) }.into());
+        if urc.is_err() {
+            // Value was not moved in.
+            drop(ManuallyDrop::into_inner(data));
+        }
+        urc
     }
 
-    /// Create Urc for given data.
+    /// Create Urc for given data. The data is not dropped on failure.
     fn try_from_data(data: MaybeDropped<T>) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
             data,
         };
+        let mut master =
+            ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?);
         let fence = Fence {
             strong: 1.into(),
             weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
+            master: clone_scope_access(&master),
         };
         let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
-        let urc = Urc {
-            fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>())?),
-            data,
-        };
-
-        Ok(urc)
+        // Drop of the Fence would also drop the data.
+        let fence = ManuallyDrop::new(fence);
+        match ScopePtr::alloc(fence, AllocSelector::new::<T>()) {
+            Ok(fence) => Ok(Urc {
+                fence: ManuallyDrop::new(unsafe { fence.cast() }),
+                data,
+            }),
+            Err(e) => {
+                unsafe { ManuallyDrop::drop(&mut master) };
+                Err(e)
+            }
+        }
     }
 
     #[inline]
-- 
2.43.0


From ab36614d4343f980d76b64d99ea7a26f1fc6220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 39/41] verification hook: let a cfg replace core and std
 (guarded by lokky_verif)

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index be0678e..8ce8b62 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,8 +1,15 @@
 #![no_std]
+#![allow(unexpected_cfgs)]
 
-#[cfg(not(feature = "no_std"))]
+#[cfg(all(not(feature = "no_std"), not(lokky_verif)))]
 extern crate std;
 
+// Verification builds observe atomic operations through these replacements.
+#[cfg(lokky_verif)]
+extern crate lokky_verif_core as core;
+#[cfg(lokky_verif)]
+extern crate lokky_verif_std as std;
+
 mod test_log;
 
 mod ptr;
-- 
2.43.0


From 39c0d5b252e661e8d8427cc014928ea25171c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 40/41] fix: Drain::next_back moved the start of the drained
 slice instead of its end

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 8b98451..b1f24db 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -613,7 +613,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From 30cbc9b6018b7485f6b3045cb28315b23913038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 41/41] fix: Fence could be sent to another thread whatever it
 refers to

---
 src/urc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urc.rs b/src/urc.rs
index d91cb1c..51f60f0 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -40,7 +40,7 @@ pub struct Fence<T: ?Sized> {
     master: ManuallyDrop<ScopePtr<Master<T>>>,
 }
 
-unsafe impl<T: ?Sized> Send for Fence<T> {}
+unsafe impl<T: ?Sized + Sync + Send> Send for Fence<T> {}
 
 impl<T: ?Sized> Fence<T> {
     #[inline]
-- 
2.43.0

