From b8fa52046a4f95e65d06ea5bb1a98d1e6f53ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 1/3] fix: root immediately emitted fans at the shared vertex
 for clockwise builders

When the builder asks for clockwise triangles, a fan which is emitted
immediately is a backtracking fan on a left chain or an advancing fan on a
right chain. The root was chosen by chain side, which only coincides with the
fan direction for counter-clockwise builders.
---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..be89413 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // A backtracking fan is rooted at the pending vertex
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From cffa492554f6ba41a5ce181fb00df5693394c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 2/3] fix: roll back the delimited output when the first
 triangle clashes with the delimiter

A builder whose initialization fails never receives a call to fail, so the
delimiter and indices pushed so far were left in the caller's collection.
---
 src/outputs/formats/delimited_fan.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..0f3de9e 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,13 +65,21 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
+        // `fail` is not called for a builder which was never initialized, so roll back here
+        if let Err(e) = fb.push_triangle(vi0, vi1, vi2) {
+            fb.fans.truncate(fb.initial_vert_count);
+            return Err(e);
+        }
 
         Ok(fb)
     }
 
+    fn push_triangle(&mut self, vi0: P::Index, vi1: P::Index, vi2: P::Index) -> Result<(), <Self as FanBuilder<'p, P>>::Error> {
+        self.push_index(vi0)?;
+        self.push_index(vi1)?;
+        self.push_index(vi2)
+    }
+
     fn push_index(&mut self, vi: P::Index) -> Result<(), <Self as FanBuilder<'p, P>>::Error> {
         if self.delimiter == vi {
             Err(DelimitedFanError::IndexMatchesDelimiter)
-- 
2.43.0


From 3b9f07904bb36fad233c5674bcce89074d14e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 3/3] fix: notify the list builder when its first triangle
 fails

FanToListFormat dropped the already initialized list builder without calling
fail when its first add_triangle returned an error.
---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..235a20a 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(e) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder is initialized, but this builder never will be, so it must be notified from here
+            let e = TriangulationError::FanBuilder(e);
+            list_builder.fail(&e);
+            return match e {
+                TriangulationError::FanBuilder(e) => Err(e),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0

