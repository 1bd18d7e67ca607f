From 64056b271f982884dd68d3df0a8b0b47638d1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 01/12] fix: euclidean rect-rect distance is never negative

When two rects overlap in one axis only, the distance was the smaller of the
two signed differences, which is always negative. The gap is the larger one.
---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..cf7fa13 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the y-gap, and similarly for y-overlaps.
+        // Only one of the differences is positive, and that one is the gap
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From daacaba27e8b46f88260c1bf23fcdd699a76f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 02/12] fix: knn with k = 0 returns nothing

The count was only compared with k after pushing a result.
---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..6b77d42 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // Nothing was asked for
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 12cf82c84c2eb76df3911d87b06919e5dbcb96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 03/12] fix: find_r includes data at a distance equal to the
 radius

Nodes whose bounds are exactly r away were skipped, so a datum at distance r
(or any datum, for r = 0) was reported as NoneInRadius.
---
 src/quadtrees/bounds/mod.rs | 4 +++-
 src/quadtrees/point/mod.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..70c8208 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,9 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            // A node exactly as far away as the radius may still hold a datum
+            // at that distance, which only matters while none was found
+            if bounds_dist > min_dist || (bounds_dist == min_dist && min_item.is_ok()) {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..9b31c8c 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,9 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            // A node exactly as far away as the radius may still hold a datum
+            // at that distance, which only matters while none was found
+            if bounds_dist > min_dist || (bounds_dist == min_dist && min_item.is_ok()) {
                 continue;
             }
 
-- 
2.43.0


From 593bab2c3864b727c2a033ba6651443b76028334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 04/12] fix: spherical distance from a line string to a point
 is defined

The distance from a point to a line string was available, the other way round
failed with InvalidDistance.
---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86bcdb3 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -70,7 +70,7 @@ where
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
         match rhs {
-            GeometryRef::Point(_) => Err(Error::InvalidDistance),
+            GeometryRef::Point(d) => Ok(dist_pt_linestring(d, self)),
             GeometryRef::Line(_) => Err(Error::InvalidDistance),
             GeometryRef::LineString(_) => Err(Error::InvalidDistance),
             GeometryRef::Polygon(_) => Err(Error::InvalidDistance),
-- 
2.43.0


From 96b86ff310fe3d6feeb954ee686754d1a80eb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 05/12] fix: sorted does not recurse once per visited cell

Stepping over cells that yield nothing recursed, so a search over data whose
distance is not defined could overflow the stack in a deep tree.
---
 src/quadtrees/sorted.rs | 79 +++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..ea4637b 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -25,58 +25,59 @@ where
     type Item = (&'a D, T);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // 1. Sort the stack in distance-descending order
-        //    Only do this if the is_sorted flag is false
-        if !self.is_sorted {
-            self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
-                d2.partial_cmp(d1)
-                    .expect("Unreachable, NaN distances already removed.")
-            });
-        }
-
-        // 2. Return early if the stack is empty
-        let (item, d) = self.stack.pop()?;
+        loop {
+            // 1. Sort the stack in distance-descending order
+            //    Only do this if the is_sorted flag is false
+            if !self.is_sorted {
+                self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
+                    d2.partial_cmp(d1)
+                        .expect("Unreachable, NaN distances already removed.")
+                });
+            }
 
-        // Now process the rest in a match
-        match item {
-            // 2. Process any children at the top of the stack
-            //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            // 2. Return early if the stack is empty
+            let (item, d) = self.stack.pop()?;
 
-            // 3. Push sub-nodes and children onto the stack
-            //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
-            NodeType::Node(node) => {
-                for child in node.children() {
-                    if let Some(d) = self
-                        .cmp
-                        .dist_geom(&child.as_geom())
-                        .ok()
-                        .and_then(|d| d.is_finite().then_some(d))
-                    {
-                        self.stack.push((NodeType::Child(child), d));
-                    }
-                }
+            // Now process the rest in a match
+            match item {
+                // 2. Process any children at the top of the stack
+                //    No need to re-sort as no pushing
+                NodeType::Child(child) => return Some((child, d)),
 
-                if let Some(nodes) = node.nodes() {
-                    for sub_node in nodes.iter() {
+                // 3. Push sub-nodes and children onto the stack
+                //    Set the flag to re-sort because new items hve been added
+                //    Then go round again because we have not returned anything
+                NodeType::Node(node) => {
+                    for child in node.children() {
                         if let Some(d) = self
                             .cmp
-                            .dist_bbox(sub_node.bounds())
+                            .dist_geom(&child.as_geom())
                             .ok()
                             .and_then(|d| d.is_finite().then_some(d))
                         {
-                            self.stack.push((NodeType::Node(sub_node), d));
+                            self.stack.push((NodeType::Child(child), d));
                         }
                     }
+
+                    if let Some(nodes) = node.nodes() {
+                        for sub_node in nodes.iter() {
+                            if let Some(d) = self
+                                .cmp
+                                .dist_bbox(sub_node.bounds())
+                                .ok()
+                                .and_then(|d| d.is_finite().then_some(d))
+                            {
+                                self.stack.push((NodeType::Node(sub_node), d));
+                            }
+                        }
+                    }
+
+                    self.is_sorted = false;
                 }
 
-                self.is_sorted = false;
-                self.next()
+                // This is PhantomData
+                NodeType::_NumType(_) => unreachable!(),
             }
-
-            // This is PhantomData
-            NodeType::_NumType(_) => unreachable!(),
         }
     }
 }
-- 
2.43.0


From b6301d311ee8d449b23625bd302df686fba3daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 06/12] fix: spherical point-line distance across the
 antimeridian

The point was projected onto the line in plain lng/lat coordinates, so a line
on the other side of the antimeridian was measured to its far end.
---
 src/geom/spherical/math.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..383a18b 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -106,6 +106,30 @@ where
 ///
 /// Adapted from [TurfJS](https://github.com/Turfjs/turf/blob/master/packages/turf-point-to-line-distance/index.ts).
 pub fn dist_pt_line<T>(pt: &Point<T>, line: &Line<T>) -> T
+where
+    T: GeoFloat,
+{
+    // The line may be closer the other way around the globe, so also project
+    // from where the point is after a whole turn in either direction
+    let (x, y) = pt.x_y();
+    let turn = T::from(2.0 * PI).unwrap();
+    let mut closest = line.start_point();
+    let mut min_sq = T::infinity();
+
+    for x in [x, x - turn, x + turn] {
+        let projected = project_pt_line(&p!(x, y), line);
+        let sq = (projected.x() - x).powi(2) + (projected.y() - y).powi(2);
+        if sq < min_sq {
+            closest = projected;
+            min_sq = sq;
+        }
+    }
+
+    dist_pt_pt(pt, &closest)
+}
+
+/// Find the closest point of a [`Line`] in plain lng/lat coordinates.
+fn project_pt_line<T>(pt: &Point<T>, line: &Line<T>) -> Point<T>
 where
     T: GeoFloat,
 {
@@ -130,14 +154,13 @@ where
 
     if param < T::zero() {
         // Closest to start point, so reduces to pt-pt
-        dist_pt_pt(pt, &line.start_point())
+        line.start_point()
     } else if param > T::one() {
         // Closest to end point, so pt-pt again
-        dist_pt_pt(pt, &line.end_point())
+        line.end_point()
     } else {
         // Here we project onto the segment
-        let projected = p!(x1 + param * c, y1 + param * d);
-        dist_pt_pt(pt, &projected)
+        p!(x1 + param * c, y1 + param * d)
     }
 }
 
-- 
2.43.0


From de024915ac712c30dde01d04b4b3c2916b3cbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 07/12] fix: spherical point-rect distance is the shortest

The point was projected onto one edge in plain lng/lat coordinates. That is not
the closest point of a box at any distance from the equator, and is on the far
side of a box across the antimeridian, so searches skipped closer data.
---
 src/geom/spherical/math.rs | 62 ++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 383a18b..73f3ccb 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -1,4 +1,4 @@
-use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect, coord};
+use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect};
 use std::f64::consts::PI;
 use std::ops::{Add, Sub};
 
@@ -11,13 +11,6 @@ macro_rules! p {
     };
 }
 
-/// Helper macro to make a line
-macro_rules! l {
-    ($x1:expr, $y1:expr, $x2:expr, $y2:expr) => {
-        Line::new(coord!(x: $x1, y: $y1), coord!(x: $x2, y: $y2))
-    };
-}
-
 /// Internal struct for ensuring Lng wrapping math works correctly.
 #[derive(Debug, Clone, Copy)]
 struct Lng<T>(T)
@@ -204,25 +197,42 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
-        // smallest y-value
-        l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
-    } else {
-        // largest y-value as final case
-        l!(rect.min().x, rect.max().y, rect.max().x, rect.max().y)
-    };
+    // If the rect spans the lng of the point, possibly after a whole turn, then
+    // the closest point is due north or south
+    let turn = T::from(2.0 * PI).unwrap();
+    if [x - turn, x, x + turn]
+        .iter()
+        .any(|&x| x >= rect.min().x && x <= rect.max().x)
+    {
+        return (rect.min().y - y).max(y - rect.max().y).max(T::zero());
+    }
+
+    // Otherwise it is on one of the edges that run along a meridian
+    dist_pt_meridian(pt, rect.min().x, rect.min().y, rect.max().y).min(dist_pt_meridian(
+        pt,
+        rect.max().x,
+        rect.min().y,
+        rect.max().y,
+    ))
+}
 
-    dist_pt_line(pt, &line)
+/// Calculate the great circle distance between a [`Point`] and the part of the
+/// meridian at `lng` between two latitudes.
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, min_lat: T, max_lat: T) -> T
+where
+    T: GeoFloat,
+{
+    // Closest at one of the ends, or where the great circle through the point
+    // meets the meridian at a right angle
+    let (x, y) = pt.x_y();
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
+    let dist = dist_pt_pt(pt, &p!(lng, min_lat)).min(dist_pt_pt(pt, &p!(lng, max_lat)));
+
+    if lat > min_lat && lat < max_lat {
+        dist.min(dist_pt_pt(pt, &p!(lng, lat)))
+    } else {
+        dist
+    }
 }
 
 // Calculate Spherical bounds distances.
-- 
2.43.0


From ab2c13cf1f3a74fc729aa0f60d60df6ad700cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 08/12] fix: spherical distance from a rect to a cell is a
 lower bound

Cells were pruned by the distance between rects as geometries, which is not
the shortest, so searches with a rect skipped closer data.
---
 src/geom/mod.rs            |  8 +++++++-
 src/geom/spherical/math.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..0a5bb30 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -11,6 +11,7 @@ use rstar::RTreeNum;
 pub use euclidean::dist::DistEuclidean;
 pub(crate) use math::*;
 pub use spherical::dist::DistHaversine;
+use spherical::math::min_dist_rect_rect;
 
 use crate::{Error, GeometryRef};
 
@@ -72,7 +73,12 @@ where
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
-            CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
+            // This must not be more than the distance to anything in the box,
+            // which the distance between two rects as geometries can be
+            CalcMethod::Spherical => match self.geom {
+                GeometryRef::Rect(rect) => Ok(min_dist_rect_rect(bbox, rect)),
+                _ => bbox.dist_haversine(&self.geom),
+            },
         }
     }
 }
diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 73f3ccb..8fce02c 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -319,6 +319,35 @@ where
     }
 }
 
+/// Calculate the shortest great circle distance between any two points of two
+/// [`Rect`]'s, which [`dist_rect_rect`] may overestimate.
+///
+/// Inputs and outputs are in radians.
+pub(crate) fn min_dist_rect_rect<T>(r1: &Rect<T>, r2: &Rect<T>) -> T
+where
+    T: GeoFloat,
+{
+    if r1.max().x >= r2.min().x
+        && r2.max().x >= r1.min().x
+        && r1.max().y >= r2.min().y
+        && r2.max().y >= r1.min().y
+    {
+        return T::zero();
+    }
+
+    // A corner of one of them is closest to the other
+    let mut min_dist = T::infinity();
+    for (from, to) in [(r1, r2), (r2, r1)] {
+        for x in [from.min().x, from.max().x] {
+            for y in [from.min().y, from.max().y] {
+                min_dist = min_dist.min(dist_pt_rect(&p!(x, y), to));
+            }
+        }
+    }
+
+    min_dist
+}
+
 /// Calculate the great circle distance between a [`Point`] and an arbitrary [`Polygon`] using the
 /// Haversine formula.
 ///
-- 
2.43.0


From f2fe79d78fd1402cb19a2910465b17a4bf4b1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 09/12] fix: bounds tree rejects shapes with NaN coordinates

A NaN after the first coordinate of a shape does not show in its bounding box,
so the shape was stored and a later search could panic in the distance code.
---
 src/geom/geometry.rs        | 17 ++++++++++++++++-
 src/quadtrees/bounds/mod.rs |  7 ++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/geom/geometry.rs b/src/geom/geometry.rs
index 8e46fae..21049cb 100644
--- a/src/geom/geometry.rs
+++ b/src/geom/geometry.rs
@@ -1,4 +1,4 @@
-use geo::{BoundingRect, GeoNum, Line, LineString, Point, Polygon, Rect};
+use geo::{BoundingRect, Coord, CoordsIter, GeoNum, Line, LineString, Point, Polygon, Rect};
 
 use crate::Error;
 
@@ -48,6 +48,21 @@ where
     pub fn into_calc(self, method: CalcMethod) -> GeomCalc<'a, T> {
         GeomCalc { geom: self, method }
     }
+
+    /// Whether any coordinate is not a number. These are ignored when making a
+    /// bounding box, so it may not contain the whole geometry.
+    pub(crate) fn has_nan(&self) -> bool {
+        let is_nan =
+            |c: Coord<T>| c.x.partial_cmp(&c.x).is_none() || c.y.partial_cmp(&c.y).is_none();
+
+        match self {
+            GeometryRef::Point(d) => d.coords_iter().any(is_nan),
+            GeometryRef::Line(d) => d.coords_iter().any(is_nan),
+            GeometryRef::LineString(d) => d.coords_iter().any(is_nan),
+            GeometryRef::Polygon(d) => d.coords_iter().any(is_nan),
+            GeometryRef::Rect(d) => d.coords_iter().any(is_nan),
+        }
+    }
 }
 
 impl<T> BoundingRect<T> for GeometryRef<'_, T>
diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 70c8208..62271f7 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -91,6 +91,11 @@ where
 
         // Cannot use Rect::contains here, see notes on rect_in_rect for why
         if rect_in_rect(qb, db) {
+            // A NaN in a shape does not show in its bounds
+            if datum.as_geom().has_nan() {
+                return Err(Error::CannotMakeBbox);
+            }
+
             self.root.insert(datum)?;
             self.size += 1;
             Ok(())
@@ -103,7 +108,7 @@ where
         // Squash errors and return an empty iterator if we can't get the bbox
         if let Some(bbox) = datum.as_geom().bounding_rect() {
             // Cannot use Rect::contains here, see notes on rect_in_rect for why
-            if rect_in_rect(self.root.bounds(), &bbox) {
+            if rect_in_rect(self.root.bounds(), &bbox) && !datum.as_geom().has_nan() {
                 self.root.retrieve(datum)
             } else {
                 DatumIter::Empty
-- 
2.43.0


From 076a54a3862f457942cb66ac6a889fea5556d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 10/12] fix: searches refuse shapes that cannot be measured
 instead of panicking

geo panics when the squared lengths it relies on overflow, underflow or are
not numbers. That happened for comparators or data with non-finite, enormous
or no coordinates, and for any shape searching a very deep f32 tree, whose
cells are so small that their squared sides vanish.
---
 src/geom/mod.rs | 113 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 108 insertions(+), 5 deletions(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index 0a5bb30..747fbc5 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -4,8 +4,8 @@ pub mod geometry;
 pub mod math;
 pub mod spherical;
 
-use geo::{GeoFloat, GeoNum, Line, LineString, Point, Polygon, Rect};
-use num_traits::{FloatConst, Signed};
+use geo::{Coord, GeoFloat, GeoNum, Line, LineString, Point, Polygon, Rect};
+use num_traits::{Float, FloatConst, Signed};
 use rstar::RTreeNum;
 
 pub use euclidean::dist::DistEuclidean;
@@ -62,8 +62,18 @@ where
     pub fn dist_geom(&self, geom: &GeometryRef<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(self.geom.dist_euclidean(geom)),
-            CalcMethod::Spherical => self.geom.dist_haversine(geom),
+            CalcMethod::Euclidean => {
+                if !are_measurable(&self.geom, geom) {
+                    return Err(Error::InvalidDistance);
+                }
+                Ok(self.geom.dist_euclidean(geom))
+            }
+            CalcMethod::Spherical => {
+                if !is_closed(&self.geom) || !is_closed(geom) {
+                    return Err(Error::InvalidDistance);
+                }
+                self.geom.dist_haversine(geom)
+            }
         }
     }
 
@@ -72,7 +82,15 @@ where
     pub fn dist_bbox(&self, bbox: &Rect<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
+            CalcMethod::Euclidean => {
+                // The collapsed box lies within (w, h) of the whole box
+                let (bbox, w, h) = collapse_tiny_sides(bbox);
+                if !are_measurable(&self.geom, &bbox.as_geom()) {
+                    return Err(Error::InvalidDistance);
+                }
+                let d = bbox.dist_euclidean(&self.geom);
+                Ok(if d < w + h { T::zero() } else { d - w - h })
+            }
             // This must not be more than the distance to anything in the box,
             // which the distance between two rects as geometries can be
             CalcMethod::Spherical => match self.geom {
@@ -83,6 +101,91 @@ where
     }
 }
 
+/// Test whether the Euclidean distance between two geometries can be calculated. When neither is a
+/// point `geo` relies on squared lengths, and panics if those are not numbers.
+fn are_measurable<T>(a: &GeometryRef<T>, b: &GeometryRef<T>) -> bool
+where
+    T: QtFloat,
+{
+    match (a, b) {
+        (GeometryRef::Point(_), g) | (g, GeometryRef::Point(_)) => is_closed(g),
+        (GeometryRef::Rect(_), GeometryRef::Rect(_)) => true,
+        _ => is_measurable(a) && is_measurable(b),
+    }
+}
+
+/// Test that the rings of a polygon are closed, which `geo` asserts, but those starting with NaN
+/// never are.
+fn is_closed<T>(geom: &GeometryRef<T>) -> bool
+where
+    T: QtFloat,
+{
+    match geom {
+        GeometryRef::Polygon(p) => {
+            p.exterior().is_closed() && p.interiors().iter().all(LineString::is_closed)
+        }
+        GeometryRef::Rect(rect) => {
+            let (a, b) = (rect.min(), rect.max());
+            [a.x, a.y, b.x, b.y].iter().all(|v| !v.is_nan())
+        }
+        _ => true,
+    }
+}
+
+/// Test that a geometry is made of lines whose squared lengths neither overflow nor underflow.
+fn is_measurable<T>(geom: &GeometryRef<T>) -> bool
+where
+    T: QtFloat,
+{
+    let two = T::one() + T::one();
+    let limit = <T as Float>::max_value().sqrt() / (two * two * two);
+
+    let line_ok = |line: Line<T>| {
+        let (d, s, e) = (line.delta(), line.start, line.end);
+        [s.x, s.y, e.x, e.y].iter().all(|v| v.abs() <= limit)
+            && (s == e || d.x * d.x + d.y * d.y >= T::min_positive_value())
+    };
+    let ring_ok = |ring: &LineString<T>| ring.0.len() > 1 && ring.lines().all(line_ok);
+
+    match geom {
+        GeometryRef::Point(_) => true,
+        GeometryRef::Line(line) => line_ok(**line),
+        GeometryRef::LineString(ls) => ring_ok(ls),
+        GeometryRef::Polygon(p) => ring_ok(p.exterior()) && p.interiors().iter().all(ring_ok),
+        GeometryRef::Rect(rect) => rect.to_lines().into_iter().all(line_ok),
+    }
+}
+
+/// Reduce sides whose squared length underflows to nothing, as happens to the cells of very deep
+/// trees. Returns the width and height lost too.
+fn collapse_tiny_sides<T>(rect: &Rect<T>) -> (Rect<T>, T, T)
+where
+    T: QtFloat,
+{
+    let lost = |d: T| {
+        if d * d < T::min_positive_value() {
+            d
+        } else {
+            T::zero()
+        }
+    };
+    let (w, h) = (lost(rect.width()), lost(rect.height()));
+    let max = Coord {
+        x: if w > T::zero() {
+            rect.min().x
+        } else {
+            rect.max().x
+        },
+        y: if h > T::zero() {
+            rect.min().y
+        } else {
+            rect.max().y
+        },
+    };
+
+    (Rect::new(rect.min(), max), w, h)
+}
+
 /// The main constraint for QuadTree input data. Both inserted items and test comparators must
 /// implement [`AsGeom`] to be used in any [`QuadTree`] implementation. It provides a methos that
 /// converts an arbitrary geometry, or any custom type containing some form of geometry into a
-- 
2.43.0


From ab4dee9479902fe551b4bb25cb55072921ff6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 11/12] fix: nothing is given a distance from a geometry with
 NaN coordinates

A rectangle with a NaN coordinate had a finite, possibly negative planar
distance to other rectangles, and a point with a NaN latitude was at no
distance from any box on the sphere, so searches answered with them.
---
 src/geom/mod.rs | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index 747fbc5..57a34f2 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -62,18 +62,16 @@ where
     pub fn dist_geom(&self, geom: &GeometryRef<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
+            // Nothing is any distance from NaN, and `geo` asserts that rings
+            // are closed, but those starting with NaN never are
+            _ if self.geom.has_nan() || geom.has_nan() => Err(Error::InvalidDistance),
             CalcMethod::Euclidean => {
                 if !are_measurable(&self.geom, geom) {
                     return Err(Error::InvalidDistance);
                 }
                 Ok(self.geom.dist_euclidean(geom))
             }
-            CalcMethod::Spherical => {
-                if !is_closed(&self.geom) || !is_closed(geom) {
-                    return Err(Error::InvalidDistance);
-                }
-                self.geom.dist_haversine(geom)
-            }
+            CalcMethod::Spherical => self.geom.dist_haversine(geom),
         }
     }
 
@@ -82,6 +80,7 @@ where
     pub fn dist_bbox(&self, bbox: &Rect<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
+            _ if self.geom.has_nan() || bbox.as_geom().has_nan() => Err(Error::InvalidDistance),
             CalcMethod::Euclidean => {
                 // The collapsed box lies within (w, h) of the whole box
                 let (bbox, w, h) = collapse_tiny_sides(bbox);
@@ -108,30 +107,12 @@ where
     T: QtFloat,
 {
     match (a, b) {
-        (GeometryRef::Point(_), g) | (g, GeometryRef::Point(_)) => is_closed(g),
+        (GeometryRef::Point(_), _) | (_, GeometryRef::Point(_)) => true,
         (GeometryRef::Rect(_), GeometryRef::Rect(_)) => true,
         _ => is_measurable(a) && is_measurable(b),
     }
 }
 
-/// Test that the rings of a polygon are closed, which `geo` asserts, but those starting with NaN
-/// never are.
-fn is_closed<T>(geom: &GeometryRef<T>) -> bool
-where
-    T: QtFloat,
-{
-    match geom {
-        GeometryRef::Polygon(p) => {
-            p.exterior().is_closed() && p.interiors().iter().all(LineString::is_closed)
-        }
-        GeometryRef::Rect(rect) => {
-            let (a, b) = (rect.min(), rect.max());
-            [a.x, a.y, b.x, b.y].iter().all(|v| !v.is_nan())
-        }
-        _ => true,
-    }
-}
-
 /// Test that a geometry is made of lines whose squared lengths neither overflow nor underflow.
 fn is_measurable<T>(geom: &GeometryRef<T>) -> bool
 where
-- 
2.43.0


From 1eddccc0ec0c1119f48d79dadaf620bbe4b3f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:35 +0000
Subject: [PATCH 12/12] fix: sorted remembers that its queue is in order

The flag was never set, so every item sorted the whole queue again and going
through the data of one large node took quadratic time.
---
 src/quadtrees/sorted.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index ea4637b..9f99058 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -33,6 +33,7 @@ where
                     d2.partial_cmp(d1)
                         .expect("Unreachable, NaN distances already removed.")
                 });
+                self.is_sorted = true;
             }
 
             // 2. Return early if the stack is empty
-- 
2.43.0

