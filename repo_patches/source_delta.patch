From 492da07617cba856a34e6a4f2a0caa6c6930cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:33 +0000
Subject: [PATCH 1/7] fix: iterate bounded ranges that touch the ends of the
 element type's domain

BoundedRangeIter stepped past the last value it yielded to mark itself as
exhausted, and its construction and nth/nth_back stepped without checking.
Iterating 250u8..=255, 0u8..0 or 0u8..3 from the back, or skipping past
either end, panicked in debug builds and wrapped around in release builds,
yielding values outside the range. The remaining size overflowed, or was
reported as 0, for ranges with more than usize::MAX elements.
---
 src/bounded_range.rs | 71 +++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..95fa15a 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -90,14 +90,16 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+            LowerBound(Bound::Included(t)) => Some(t),
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1),
+            UpperBound(Bound::Included(t)) => Some(t),
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            remaining: current.zip(last).filter(|(current, last)| current <= last),
+        }
     }
 }
 
@@ -165,8 +167,10 @@ impl<T: Copy + Ord> BoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct BoundedRangeIter<T> {
-    current: T,
-    last: T,
+    /// The first and last values still to be yielded, or `None` if there are none left.
+    ///
+    /// There need not be a value past either end to represent an exhausted iterator with.
+    remaining: Option<(T, T)>,
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,20 +180,25 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((Step::forward(current, 1), last))
         } else {
-            let t = self.current;
-            self.current = Step::forward(self.current, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(current)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = Step::steps_between(&self.current, &self.last)
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        match &self.remaining {
+            Some((current, last)) => {
+                match Step::steps_between(current, last).and_then(|steps| steps.checked_add(1)) {
+                    Some(size) => (size, Some(size)),
+                    None => (usize::MAX, None),
+                }
+            }
+            None => (0, Some(0)),
+        }
     }
 
     fn count(self) -> usize {
@@ -200,15 +209,14 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
-            None
-        } else {
-            Some(self.last)
-        }
+        self.remaining.map(|(_, last)| last)
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::forward_checked(current, n)
+            .filter(|current| *current <= last)
+            .map(|current| (current, last));
         self.next()
     }
 
@@ -226,17 +234,20 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((current, Step::backward(last, 1)))
         } else {
-            let t = self.last;
-            self.last = Step::backward(self.last, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(last)
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::backward_checked(last, n)
+            .filter(|last| current <= *last)
+            .map(|last| (current, last));
         self.next_back()
     }
 }
-- 
2.43.0


From 8fe575d7dd1d4d56cdac11a8d3d01a32bb867b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 2/7] fix: iterate bounded sets with more than usize::MAX
 elements

BoundedSetIter took a piece whose size does not fit in usize (reported as 0)
for an exhausted one and dropped it, so (0..1u128 << 100).to_set() iterated
as if it were empty, and the sum of the pieces' sizes could overflow.
---
 src/bounded_range.rs     |  6 ++++++
 src/bounded_set.rs       | 16 +++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 95fa15a..c729685 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -173,6 +173,12 @@ pub struct BoundedRangeIter<T> {
     remaining: Option<(T, T)>,
 }
 
+impl<T> BoundedRangeIter<T> {
+    pub(crate) fn is_exhausted(&self) -> bool {
+        self.remaining.is_none()
+    }
+}
+
 impl<T> Iterator for BoundedRangeIter<T>
 where
     T: Copy + Ord + Step,
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..c46e72e 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,10 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        let size = self.range_iters.iter().try_fold(0usize, |size, i| {
+            size.checked_add(i.size_hint().1?)
+        });
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize
@@ -151,7 +153,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +162,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +190,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +199,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..dcb9da6 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().0;
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From 39fc471d15c5693a86677e05eac0189d652d2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:00 +0000
Subject: [PATCH 3/7] fix: intersect the unbounded part of one LowerBoundedSet
 with the pieces of the other

(1..2 and 5..) intersected with (6..8 and 20..) lost 6..8: the bounded pieces
of the second operand were only intersected with those of the first.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 7fc90a0e1b5dee516d838cfed86e02b4ebc7996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:01 +0000
Subject: [PATCH 4/7] fix: convert empty bounded ranges at the ends of the
 domain to std ranges

RangeInclusive::<u8>::from(EmptyRange::new()) and the conversion of 0u8..0
panicked in debug builds and produced the full range 0..=255 in release
builds; likewise for a range starting after the last value.
---
 src/bounded_range.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index c729685..c95b02b 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,7 +54,11 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // Nothing comes after `t`, so the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
@@ -71,11 +75,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // Nothing comes after `t`, so the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                // Nothing comes before `t`, so the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
-- 
2.43.0


From 7ed81fa7ce1fd8baf68afa30e259e3a44d3831c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:44 +0000
Subject: [PATCH 5/7] fix: restore the non-overlapping invariant when
 deserializing sets

---
 src/bounded_set.rs       | 21 ++++++++++++++++++++-
 src/lower_bounded_set.rs | 33 ++++++++++++++++++++++++++++++++-
 src/unbounded_set.rs     | 12 ++++++++++--
 src/upper_bounded_set.rs |  6 +++++-
 4 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index c46e72e..0acb042 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -13,12 +13,31 @@ use std::{collections::VecDeque, iter::FusedIterator};
 /// let s: BoundedSet<_> = (0..3).union(3..5);
 /// ```
 #[derive(Clone, Debug, Eq, PartialEq, Hash)]
-#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Deserialize, Serialize),
+    serde(bound(deserialize = "T: Copy + Ord + Deserialize<'de>"))
+)]
 pub struct BoundedSet<T> {
     /// Kept private to enforce the invariant that the ranges be non-empty and non-overlapping.
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_ranges"))]
     pub(crate) ranges: VecDeque<BoundedRange<T>>,
 }
 
+/// Restores the invariant on the ranges, which the serialized data need not satisfy.
+#[cfg(feature = "serde")]
+fn deserialize_ranges<'de, D, T>(deserializer: D) -> Result<VecDeque<BoundedRange<T>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: Copy + Ord + Deserialize<'de>,
+{
+    let mut set = BoundedSet::empty();
+    for range in VecDeque::deserialize(deserializer)? {
+        set.add_range(range);
+    }
+    Ok(set.ranges)
+}
+
 impl<T: Copy + Ord> From<BoundedRange<T>> for BoundedSet<T> {
     fn from(r: BoundedRange<T>) -> Self {
         if r.is_empty() {
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index dcb9da6..be16055 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -16,13 +16,44 @@ use std::iter::FusedIterator;
 /// let s: LowerBoundedSet<_> = (0..3).union(5..);
 /// ```
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
-#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Deserialize, Serialize),
+    serde(
+        from = "UncheckedLowerBoundedSet<T>",
+        bound(deserialize = "T: Copy + Ord + Deserialize<'de>")
+    )
+)]
 pub struct LowerBoundedSet<T> {
     /// Kept private to enforce the invariant that the ranges be non-empty and non-overlapping.
     pub(crate) ranges: BoundedSet<T>,
     pub(crate) lower_bounded_range: LowerBoundedRange<T>,
 }
 
+/// A deserialized `LowerBoundedSet` whose ranges might still overlap.
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+#[serde(
+    rename = "LowerBoundedSet",
+    bound(deserialize = "T: Copy + Ord + Deserialize<'de>")
+)]
+struct UncheckedLowerBoundedSet<T> {
+    ranges: BoundedSet<T>,
+    lower_bounded_range: LowerBoundedRange<T>,
+}
+
+#[cfg(feature = "serde")]
+impl<T: Copy + Ord> From<UncheckedLowerBoundedSet<T>> for LowerBoundedSet<T> {
+    fn from(set: UncheckedLowerBoundedSet<T>) -> Self {
+        let mut set = Self {
+            ranges: set.ranges,
+            lower_bounded_range: set.lower_bounded_range,
+        };
+        set.defragment();
+        set
+    }
+}
+
 impl<T> From<LowerBoundedRange<T>> for LowerBoundedSet<T> {
     fn from(lower_bounded_range: LowerBoundedRange<T>) -> Self {
         Self {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index a47108a..7c87397 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -20,7 +20,11 @@ use serde::{Deserialize, Serialize};
 /// assert!(piecewise.contains(42));
 /// ```
 #[derive(Clone, Debug, Eq, PartialEq, Hash)]
-#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Deserialize, Serialize),
+    serde(bound(deserialize = "T: Copy + Ord + Deserialize<'de>"))
+)]
 pub struct PiecewiseUnboundedSet<T> {
     /// Kept private to enforce the invariant that the ranges be non-empty and non-overlapping.
     pub(crate) upper_bounded_range: UpperBoundedRange<T>,
@@ -81,7 +85,11 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
 /// assert_eq!(full, UnboundedSet::Full);
 /// ```
 #[derive(Clone, Debug, Eq, PartialEq, Hash)]
-#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Deserialize, Serialize),
+    serde(bound(deserialize = "T: Copy + Ord + Deserialize<'de>"))
+)]
 pub enum UnboundedSet<T> {
     /// Denotes an `UnboundedSet` containing all possible values of T.
     Full,
diff --git a/src/upper_bounded_set.rs b/src/upper_bounded_set.rs
index 0a56bcc..b08eab4 100644
--- a/src/upper_bounded_set.rs
+++ b/src/upper_bounded_set.rs
@@ -12,7 +12,11 @@ use serde::{Deserialize, Serialize};
 /// let s: UpperBoundedSet<_> = (10..20).union(..5);
 /// ```
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
-#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Deserialize, Serialize),
+    serde(bound(deserialize = "T: Copy + Ord + Deserialize<'de>"))
+)]
 pub struct UpperBoundedSet<T> {
     /// Kept private to enforce the invariant that the ranges be non-empty and non-overlapping.
     pub(crate) upper_bounded_range: UpperBoundedRange<T>,
-- 
2.43.0


From 1af0b30614db8a11a3ba3679af5785046be1d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:53 +0000
Subject: [PATCH 6/7] fix: find the last element of a bounded set without
 stepping through it

---
 src/bounded_set.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 0acb042..c7fd00a 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -169,15 +169,7 @@ where
     where
         Self: Sized,
     {
-        while self
-            .range_iters
-            .back()
-            .map(|i| i.is_exhausted())
-            .unwrap_or(false)
-        {
-            self.range_iters.pop_back();
-        }
-        self.range_iters.back_mut().map(|i| i.last()).flatten()
+        self.next_back()
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-- 
2.43.0


From 9602ca465cbd975139ae5f0b0aaeec4d54e1cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 7/7] fix: merge any number of ranges without exhausting the
 stack

Merging a range into a set recursed once per range it absorbs, so that a
union covering some ten thousand ranges aborted the process with a stack
overflow on a thread with the default stack size.
---
 src/bounded_set.rs   | 20 +++++++++-----------
 src/unbounded_set.rs |  7 +++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index c7fd00a..be5bde2 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -80,20 +80,18 @@ impl<T> BoundedSet<T> {
 }
 
 impl<T: Copy + Ord> BoundedSet<T> {
-    pub(crate) fn add_range(&mut self, r: BoundedRange<T>) {
+    pub(crate) fn add_range(&mut self, mut r: BoundedRange<T>) {
         if !r.is_empty() {
-            if let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
-                let new_range = r.combine(&self.ranges[index]);
+            while let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
+                r = r.combine(&self.ranges[index]);
                 self.ranges.remove(index);
-                self.add_range(new_range);
-            } else {
-                let index = self
-                    .ranges
-                    .iter()
-                    .position(|range| range.start > r.start)
-                    .unwrap_or(self.ranges.len());
-                self.ranges.insert(index, r);
             }
+            let index = self
+                .ranges
+                .iter()
+                .position(|range| range.start > r.start)
+                .unwrap_or(self.ranges.len());
+            self.ranges.insert(index, r);
         }
     }
     pub(crate) fn add_set(&mut self, other: Self) {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index 7c87397..751bb30 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -51,7 +51,7 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
     }
 
     fn defragment(&mut self) {
-        if let Some(index) = self
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -59,8 +59,8 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
-            self.defragment();
-        } else if let Some(index) = self
+        }
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -68,7 +68,6 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
-            self.defragment();
         }
     }
 }
-- 
2.43.0

