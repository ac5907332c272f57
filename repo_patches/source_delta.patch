From 26088b1b288c2c090f1695ea9a7d1731baf5e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 1/3] fix: keep the deque capacity when cloning a parts
 iterator

Cloning a BinaryPartsIter cloned its VecDeque, which only reserves room for
the items currently held. Iterating the clone could then re-allocate, tripping
the debug assertion in next()/next_back().
---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..ea709f8 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -25,6 +24,22 @@ pub struct BinaryPartsIter<S> {
     deque: VecDeque<S>,
 }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // VecDeque's Clone impl only reserves enough capacity for the items it
+        // currently holds, but iterating from here may need the full capacity
+        // reserved in new(...).
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 /// A marker trait that indicates that a type's BinarySplitOff impl acts
 /// like splitting a slice. Succintly, this means the type's impls of
 /// BinarySplitOff and Deref<Target=[T]> commute with each other. More
-- 
2.43.0


From d2a3f9d339ee6471aacd5d8dfd4ce8ff460c503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 2/3] fix: don't grant ArcSlice::get_mut while descendant
 WeakSlices can upgrade

WeakSlices referencing a descendant (or holding an outdated guard) weren't
counted by get_mut, so upgrading them aliased the returned &mut [T]. Check the
weak counts of the data and of all its descendants instead.
---
 src/arc/arc_slice.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..1d1a84b 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,7 +1,7 @@
 use core::{
     iter::FusedIterator,
     marker::PhantomData,
-    mem,
+    mem::{self, ManuallyDrop},
     ops::Deref,
     ptr::{self, NonNull},
     slice,
@@ -174,6 +174,31 @@ impl<T> ArcSliceData<T> {
         }
     }
 
+    /// Are there any WeakSlices referencing this ArcSliceData or any of its
+    /// descendants?
+    fn has_weak_slices(self: &Arc<Self>) -> bool {
+        let left = unsafe { Self::peek_child(&self.left_child) };
+        let right = unsafe { Self::peek_child(&self.right_child) };
+        // Each child holds exactly one weak ref to its parent. All other weak
+        // refs are from WeakSlices.
+        let num_children = left.is_some() as usize + right.is_some() as usize;
+        num_children != Arc::weak_count(self)
+            || left.map_or(false, |child| child.has_weak_slices())
+            || right.map_or(false, |child| child.has_weak_slices())
+    }
+
+    /// Borrow the given child of a live ArcSliceData without incrementing its
+    /// strong count. Unsafe b/c calling code must ensure that the parent
+    /// ArcSliceData outlives the returned Arc.
+    unsafe fn peek_child(child: &AtomicPtr<()>) -> Option<ManuallyDrop<Arc<Self>>> {
+        let child = child.load(Ordering::Acquire);
+        if child.is_null() {
+            None
+        } else {
+            Some(ManuallyDrop::new(Arc::from_raw(child as *const Self)))
+        }
+    }
+
     fn take_left(&mut self) -> Option<Arc<Self>> {
         Self::take_child(&mut self.left_child)
     }
@@ -362,12 +387,12 @@ impl<T> ArcSlice<T> {
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
         // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
 
-        // Check for no weak refs first.
+        // Check for no weak refs first. Need to check our ArcSliceData and all
+        // its descendants, even those w/ no ArcSlices left, b/c our strong ref
+        // is enough to let a descendant WeakSlice upgrade.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
+            if !this.data.has_weak_slices() {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
-- 
2.43.0


From 63ff0fdd3434129b05244112367581c9e1e11efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 3/3] fix: free the guard bookkeeping of ArcSliceData

Every ArcSliceData leaked the boxed Weak<DataGuard> it pointed to, and every
replaced guard leaked its box too.
---
 src/arc/arc_slice.rs | 51 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 1d1a84b..80b6f6f 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -37,10 +37,7 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    guard: GuardCell,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -57,6 +54,36 @@ struct DataGuard {
     downgrade_gate: Gate,
 }
 
+/// Holds the current guard of an ArcSliceData. Other threads may still be
+/// reading a guard that has since been replaced, so replaced guards are kept
+/// until the GuardCell gets dropped.
+struct GuardCell {
+    // Obtained via Box<GuardNode>::into_raw().
+    current: AtomicPtr<GuardNode>,
+}
+
+struct GuardNode {
+    guard: Weak<DataGuard>,
+    // The node that this node replaced, if any
+    prev: *mut GuardNode,
+}
+
+impl GuardCell {
+    fn new() -> Self {
+        let node = Box::new(GuardNode { guard: Weak::new(), prev: ptr::null_mut() });
+        Self { current: AtomicPtr::new(Box::into_raw(node)) }
+    }
+}
+
+impl Drop for GuardCell {
+    fn drop(&mut self) {
+        let mut node = *self.current.get_mut();
+        while !node.is_null() {
+            node = unsafe { Box::from_raw(node) }.prev;
+        }
+    }
+}
+
 /// An atomically reference counted slice that tracks reference counts
 /// per subslice.
 pub struct ArcSlice<T> {
@@ -93,7 +120,6 @@ impl<T> ArcSliceData<T> {
     }
 
     fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
         Self {
             ptr,
             len,
@@ -101,7 +127,7 @@ impl<T> ArcSliceData<T> {
             parent,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard,
+            guard: GuardCell::new(),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -309,9 +335,9 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl DataGuard {
     fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
+        let mut existing_guard_ptr = data.guard.current.load(Ordering::Acquire);
         // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
+        let mut existing_guard = unsafe { (*existing_guard_ptr).guard.upgrade() };
         while existing_guard.is_none() {
             // No reference to a live existing guard. We'll try constructing
             // a new guard as we do for RcSliceData and then atomically
@@ -323,8 +349,11 @@ impl DataGuard {
                 clone_child_gate: Gate::new(),
                 downgrade_gate: Gate::new(),
             });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
+            let guard_ptr = Box::into_raw(Box::new(GuardNode {
+                guard: Arc::downgrade(&guard),
+                prev: existing_guard_ptr,
+            }));
+            let prev_guard_ptr = data.guard.current.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
             if prev_guard_ptr == existing_guard_ptr {
                 // Swap succeeded. Set existing_guard to the guard we just
                 // successfully created to exit the loop.
@@ -335,7 +364,7 @@ impl DataGuard {
                 // looping until we manage to observe a live existing guard.
                 unsafe { Box::from_raw(guard_ptr); }
                 existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
+                existing_guard = unsafe { (*existing_guard_ptr).guard.upgrade() };
             }
         }
         existing_guard.unwrap_or_else(|| unreachable!())
-- 
2.43.0

