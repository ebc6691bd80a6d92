From 6d8117ba4ffc435d632de79bc79d2e84156e2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 01/23] fix: detect NaN and infinite coordinates in binary_op's
 input

The bounding box ignores NaNs (f64::min and f64::max return the other
operand), and it doesn't always see control points, so non-finite input
was panicking instead of producing the documented error.
---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..16586f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,6 +96,16 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    // Check every coordinate individually: the bounding box can't be used to
+    // detect NaNs (because min and max ignore them), and it doesn't see all of
+    // the control points.
+    if set_a.is_nan() || set_b.is_nan() {
+        return Err(Error::NaN);
+    }
+    if !set_a.is_finite() || !set_b.is_finite() {
+        return Err(Error::Infinity);
+    }
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
@@ -103,10 +113,6 @@ pub fn binary_op(
     if min.is_infinite() || max.is_infinite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
-        return Err(Error::NaN);
-    }
 
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
-- 
2.43.0


From 2bce9ee4581280fa310c0c880518114083a3810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 02/23] =?UTF-8?q?fix:=20terminate=20the=20contour=20links?=
 =?UTF-8?q?=20of=20non-closed=20B=C3=A9zier=20paths?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first and last segments of a non-closed subpath were left pointing
at whatever segments happened to be before and after them in the arena
(possibly out of bounds).
---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From 839a1204b1741b98045e8bdd95784dcb3a81bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 03/23] fix: don't merge past the copied part of an output
 segment

When an output segment consists of a copied piece followed by perturbed
pieces, merging it with its contour neighbor replaced the copied piece by
the whole rest of the input segment. The perturbed pieces were then
drawn in addition, so the output could be far from the input.
---
 src/topology.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..85189af 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1078,7 +1078,17 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // The merge can only go as far as the copied part of the output segment:
+        // it might be followed by perturbed parts, which we can't replace.
+        // (`path` starts with a `MoveTo`, so its i'th segment starts at the
+        // end of the i'th element.)
+        let elements = pos.path.elements();
+        let end_element = if seg.is_first_half() {
+            elements.get(1)
+        } else {
+            elements.get(elements.len() - 2)
+        };
+        let end_y = end_element.and_then(|el| el.end_point())?.y;
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From 858494327f2158f2ca70390e1f9c132fc8e46af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 04/23] fix: scan for intersections past segments that end at
 the sweep line

---
 src/sweep/sweep_line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..d5d9371 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,14 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Segments that end here don't get scanned, so go on to the nearest one that doesn't.
+        let y = self.y;
+        let prev = (0..pos)
+            .rev()
+            .find(|i| self.segments[self.line.seg(*i)].end().y != y);
+        if let Some(prev) = prev {
+            self.intersection_scan_right(prev);
+            self.intersection_scan_left(prev);
         }
     }
 
-- 
2.43.0


From 91794c6e63a4b6d6c87c3689e800eb734f74412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 05/23] fix: don't merge horizontal output segments into the
 input curve

---
 src/topology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 85189af..27777cb 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1058,7 +1058,9 @@ impl<W: WindingNumber> Topology<W> {
         let orig_idx = self.orig_seg[seg.idx];
 
         // We're currently using y positions on the output segment to figure out
-        if self.segments[orig_idx].is_horizontal() {
+        // where the merge goes, so it can't be horizontal (even if it's a
+        // perturbed part of an input segment that isn't).
+        if self.segments[orig_idx].is_horizontal() || self.is_horizontal(seg.idx) {
             return None;
         }
 
-- 
2.43.0


From 801aa1f89cb63b1f9136ccb53646229cf393ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 06/23] fix: record loops split off from a contour as holes of
 the right contour

When a contour touches itself, the loops that get split off were always
recorded as children of the contour being walked, with the opposite kind.
That's wrong if the contour being walked is already a hole (the other loops
are then sibling holes), and if the loop that gets split off is the one
containing the starting segment (then it's the outer contour, and the rest
of the walk is the hole).
---
 src/topology.rs | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 27777cb..bda44c8 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1226,6 +1226,27 @@ impl<W: WindingNumber> Topology<W> {
             // "endpoint" here means "as we walk the contour;" it could be either a first_half
             // or a second_half as far as `HalfOutputSegIdx` is concerned.
             let mut segs = Vec::new();
+            // The loop containing `start` is the one that `contour_idx` is reserved for. If we
+            // return to our starting point while there's still more to walk, that loop gets
+            // finished before the rest of the walk.
+            let mut start_loop_finished = false;
+            // All the other loops on this walk touch the same (connected) region, and they're
+            // holes in it: either they're children of the outer contour that we're walking or
+            // they're siblings of the inner contour that we're walking.
+            let hole_parent = if ret.contours[contour_idx.0].outer {
+                Some(contour_idx)
+            } else {
+                ret.contours[contour_idx.0].parent
+            };
+            let new_hole = |ret: &mut Contours| {
+                let hole_idx = ContourIdx(ret.contours.len());
+                ret.contours.push(Contour {
+                    path: BezPath::default(),
+                    parent: hole_parent,
+                    outer: false,
+                });
+                hole_idx
+            };
             last_visit[self.point_idx[start]] = Some(0);
 
             debug_assert!(inside(self.winding_counter_clockwise(start)));
@@ -1258,21 +1279,23 @@ impl<W: WindingNumber> Topology<W> {
                     // contours visited `p`.
                     .filter(|&idx| idx < segs.len() && self.point_idx[segs[idx].other_half()] == p);
                 if let Some(seg_idx) = last_visit_idx {
-                    // We repeated a point, meaning that we've found an inner contour. Extract
+                    // We repeated a point, meaning that we've found a complete loop. Extract
                     // it and remove it from the current contour.
 
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
+                    let loop_contour_idx = if seg_idx == 0 && !start_loop_finished {
+                        start_loop_finished = true;
+                        contour_idx
+                    } else {
+                        new_hole(&mut ret)
+                    };
                     for &seg in &segs[seg_idx..] {
                         seg_contour[seg.idx.0] = Some(loop_contour_idx);
                     }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
+                    ret.contours[loop_contour_idx.0].path =
+                        self.segs_to_path(&segs[seg_idx..], &positions);
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1285,10 +1308,15 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
+            let last_contour_idx = if start_loop_finished {
+                new_hole(&mut ret)
+            } else {
+                contour_idx
+            };
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(last_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            ret.contours[last_contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
-- 
2.43.0


From 46796c1aa5aa08d8dd2c6f6aa3305f2897e1f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 07/23] fix: don't use the parabola approximation where it
 isn't accurate

On intervals that are too short to subdivide further, cancellation can put the
approximating parabola (and so the output) arbitrarily far from the curve.
Use the chord there.
---
 src/position.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..a34f364 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -163,7 +163,7 @@ fn approximate(
             cubic.p1.y -= y_mid;
             cubic.p2.y -= y_mid;
             cubic.p3.y -= y_mid;
-            let approx = EstParab::from_cubic(cubic);
+            let mut approx = EstParab::from_cubic(cubic);
 
             let factor = horizontal_error_weight(cubic);
 
@@ -176,6 +176,16 @@ fn approximate(
                 continue 'retry;
             }
 
+            if !accurate {
+                // On a very short interval, the parabola can be arbitrarily far from
+                // the curve because of cancellation. The chord is always a bounded
+                // approximation.
+                let (p0, p1) = (cubic.p0, cubic.p3);
+                approx.c2 = 0.0;
+                approx.c1 = (p1.x - p0.x) / (p1.y - p0.y);
+                approx.c0 = p0.midpoint(p1).x;
+            }
+
             out.push(approx);
         }
 
-- 
2.43.0


From ac91a8476c63abd3a5136fdbae0de3ce0c926ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 08/23] fix: check that merged output segments start and end
 where they should

The parameters for putting an input segment back together were calculated
from vertical coordinates. Where the input is almost horizontal, the resulting
segment could start and end far from the points that it was supposed to
connect.
---
 src/topology.rs | 58 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index bda44c8..8af9c24 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -5,7 +5,7 @@
 
 use std::collections::VecDeque;
 
-use kurbo::{BezPath, ParamCurve, Rect, Shape};
+use kurbo::{BezPath, ParamCurve, PathEl, Rect, Shape};
 
 use crate::{
     curve::{solve_t_for_y, y_subsegment, Order},
@@ -945,25 +945,45 @@ impl<W: WindingNumber> Topology<W> {
             // skip(1) leaves off the initial MoveTo, which is unnecessary
             // because this path starts where the last one ended.
             let mut elems = oriented_path.iter().skip(1);
-            if let (Some(our_t), Some(unfinished_t)) =
-                (self.can_merge(seg.other_half(), positions), unfinished)
-            {
-                // Reconstruct part of the input curve
-                let input = self.segments.input_segs[self.orig_seg[seg.idx]];
-                let sub_input = if our_t > unfinished_t {
-                    input.subsegment(unfinished_t..our_t)
-                } else {
-                    input
-                        .reverse()
-                        .subsegment((1.0 - unfinished_t)..(1.0 - our_t))
-                };
-                // Maybe we should "fix up" the endpoints of `sub_input` to agree with
-                // what was in `positions`? It shouldn't matter too much, though: they
-                // should be close anyway, and any errors won't cause gaps in the path
-                // because we skip the MoveTo.
-                //
+            let merged = match (self.can_merge(seg.other_half(), positions), unfinished) {
+                (Some(our_t), Some(unfinished_t)) => {
+                    // Reconstruct part of the input curve
+                    let input = self.segments.input_segs[self.orig_seg[seg.idx]];
+                    let sub_input = if our_t > unfinished_t {
+                        input.subsegment(unfinished_t..our_t)
+                    } else {
+                        input
+                            .reverse()
+                            .subsegment((1.0 - unfinished_t)..(1.0 - our_t))
+                    };
+                    // The parameters were calculated from y coordinates. Where the input
+                    // is almost horizontal that can put the horizontal coordinates far
+                    // away from where the output segments start and end, in which case
+                    // we'd better not merge.
+                    //
+                    // unwrap: output paths have at least one segment, and the end of the
+                    // second-last element (maybe the MoveTo) is where the last one starts.
+                    let out_elems = ret.elements();
+                    let start = out_elems[out_elems.len() - 2].end_point().unwrap();
+                    let end = oriented_path.elements()[1].end_point().unwrap();
+                    if (sub_input.start() - start).hypot() <= self.eps
+                        && (sub_input.end() - end).hypot() <= self.eps
+                    {
+                        Some(match sub_input.as_path_el() {
+                            PathEl::LineTo(_) => PathEl::LineTo(end),
+                            PathEl::QuadTo(p1, _) => PathEl::QuadTo(p1, end),
+                            PathEl::CurveTo(p1, p2, _) => PathEl::CurveTo(p1, p2, end),
+                            el => el,
+                        })
+                    } else {
+                        None
+                    }
+                }
+                _ => None,
+            };
+            if let Some(merged) = merged {
                 // unwrap: if unfinished had something, the path must have been non-empty.
-                *ret.elements_mut().last_mut().unwrap() = sub_input.as_path_el();
+                *ret.elements_mut().last_mut().unwrap() = merged;
                 // Skip the first element in this output segment, because we merged it
                 // to the previous output segment.
                 elems.next();
-- 
2.43.0


From c0eaf6e2c57e342d2ade4f48d072e0eabec65d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 09/23] fix: give the undecided interval at an abrupt order
 change zero height

As the comment says, it's supposed to be a zero-height interval at the change.
Instead, the whole interval being pushed was recorded as undecided, and
the definite order got zero height.
---
 src/curve/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..3bab7a0 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -112,8 +112,9 @@ impl CurveOrder {
                     // What we do is insert a zero-height "ish" interval. Then
                     // adding y-slop will turn it into a taller interval.
                     debug_assert!(end >= last.end);
+                    let last_end = last.end;
                     self.cmps.push(CurveOrderEntry {
-                        end,
+                        end: last_end,
                         order: Order::Ish,
                     });
                     self.cmps.push(CurveOrderEntry { end, order });
-- 
2.43.0


From 98969fb73d78d36f3375d23efc710dabacfc97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 10/23] fix: solve for heights to a precision that does not
 depend on the scale

---
 src/curve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 3bab7a0..637abcd 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -353,7 +353,7 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
+    let eps = 1e-12;
     let roots = cubic.roots_between(0.0, 1.0, eps);
     if !roots.is_empty() {
         return roots[0];
-- 
2.43.0


From 2a7623efcf5183c742e942f80fb382b4223bbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 11/23] fix: report the right initial sign for degenerate
 quadratics

---
 src/curve/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 637abcd..b33f213 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -575,10 +575,18 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
+            // and so c2 or c0 is zero also (or they're both very small). If only one of
+            // them is zero, the other one determines the sign everywhere.
             if z == 0.0 {
+                let initial_sign = if c0 == 0.0 {
+                    c2
+                } else if c2 == 0.0 {
+                    c0
+                } else {
+                    0.0
+                };
                 QuadraticSigns {
-                    initial_sign: 0.0,
+                    initial_sign,
                     smaller_root: f64::NEG_INFINITY,
                     bigger_root: f64::NEG_INFINITY,
                 }
@@ -587,7 +595,14 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                // If root2 is infinite then we're (almost) linear, and c2 might have been zero.
+                let initial_sign = if root2 == f64::INFINITY {
+                    -c1
+                } else if root2 == f64::NEG_INFINITY {
+                    c1
+                } else {
+                    c2
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 225adec15706f1888ffbb913558faf5949700304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 12/23] fix: copy lines only up to where they get approximated

When a line came close to a curve, its output path ran to the end of the
segment first and then back up to where the approximation starts.
---
 src/position.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a34f364..54864b9 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,10 +77,11 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
             if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
+                // This only goes up to `y0`: the rest gets approximated.
+                out.path.line_to(c.p3)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         }
-- 
2.43.0


From e79c6c99ef1ed03a9673c06f5628ffc74104c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 13/23] fix: lay out close segments only up to the next height
 where another comes close

Segments were laid out twice over the same heights (running back up in
between) when a segment came close that wasn't a neighbor before, or that
became a neighbor while it was close already.
---
 src/position.rs | 18 ++++++++++--------
 src/topology.rs | 11 +++++++----
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 54864b9..6a61cf8 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -301,10 +301,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -312,6 +308,11 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        if let Some(next_close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -320,10 +321,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -331,6 +328,11 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        if let Some(next_close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
diff --git a/src/topology.rs b/src/topology.rs
index 8af9c24..e1ca0e7 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1730,20 +1730,23 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
-            if y1 <= y {
+        for (y0, y1, other_seg) in self.iter(seg) {
+            // Where do `y` and this neighbor's interval start overlapping?
+            let start = y0.max(y);
+            if y1 <= start {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
+                // The other segment might have been close already when it became our neighbor.
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
                     .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(order_y0, order_y1, _)| *order_y0 >= start || *order_y1 > start);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(start));
                 }
             }
         }
-- 
2.43.0


From f4db08cca31a4c992a4459d8889be6611d3f1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 14/23] fix: expand the changed intervals around horizontal
 segments to everything close

Every segment that is close to one in a changed interval has to be in that
interval too. This wasn't ensured for intervals that come from horizontal
segments, so that segments could end up on the wrong side of their neighbors.
---
 src/sweep/sweep_line.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index d5d9371..b7ec4a8 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1001,7 +1001,16 @@ impl<'segs> Sweeper<'segs> {
         self.compute_horizontal_changed_intervals();
         self.compute_contour_adjacent_changed_intervals();
 
-        for &idx in &self.segs_needing_positions {
+        // The intervals we have so far contain everything that's near a horizontal segment,
+        // but they need to be expanded to whatever is close to their first and last segments.
+        let interval_ends: Vec<usize> = self
+            .changed_intervals
+            .iter()
+            .filter(|iv| !iv.segs.is_empty())
+            .flat_map(|iv| [iv.segs.start, iv.segs.end - 1])
+            .collect();
+
+        for &idx in self.segs_needing_positions.iter().chain(&interval_ends) {
             if self.line.segs[idx].in_changed_interval {
                 continue;
             }
-- 
2.43.0


From 427c331cdfa55476abb04957ae97fa719a953c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 15/23] fix: move almost horizontal segments out of the way
 instead of their neighbors

When an almost horizontal segment was supposed to be left of a steep one but
reached past it, the steep one was moved, by arbitrarily much.
---
 src/position.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 6a61cf8..a2054fc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -88,6 +88,7 @@ fn ordered_curves_all_close(
     }
 
     let mut approxes = Vec::new();
+    let mut xs = Vec::new();
 
     // The recentering helps, but there are still some issues with approximation when almost horizontal
     while y0 < y1 {
@@ -95,9 +96,8 @@ fn ordered_curves_all_close(
 
         let y_mid = (y0 + next_y0) / 2.0;
 
-        let mut x_mid_max_so_far = f64::NEG_INFINITY;
-        let mut x1_max_so_far = f64::NEG_INFINITY;
-        for (quad, out_idx) in approxes.iter().zip(output_order) {
+        // The control point and the end point of each approximation.
+        xs.extend(approxes.iter().map(|quad| {
             // These would be the control points, but since `approximate` recenters the y interval,
             // they're different...
             // let x_mid = quad.c0 + y_mid * quad.c1 + y0 * next_y0 * quad.c2;
@@ -106,7 +106,26 @@ fn ordered_curves_all_close(
             let x1 = quad.c0
                 + quad.c1 * (next_y0 - y_mid)
                 + quad.c2 * (next_y0 - y_mid) * (next_y0 - y_mid);
+            (x_mid, x1)
+        }));
+
+        // If something is too far to the right, it needs to move to the left: it's almost
+        // horizontal, while moving the things that it's supposed to be left of could take
+        // them arbitrarily far away from their input segments.
+        let mut x_mid_limit = f64::INFINITY;
+        let mut x1_limit = f64::INFINITY;
+        for ((x_mid, x1), &seg_idx) in xs.iter_mut().zip(order).rev() {
+            let seg = &segs[seg_idx];
+            let slack = |y: f64| seg.upper(y, 4.0 * accuracy) - seg.at_y(y);
+            *x_mid = x_mid.min(x_mid_limit);
+            *x1 = x1.min(x1_limit);
+            x_mid_limit = x_mid_limit.min(*x_mid + slack(y_mid));
+            x1_limit = x1_limit.min(*x1 + slack(next_y0));
+        }
 
+        let mut x_mid_max_so_far = f64::NEG_INFINITY;
+        let mut x1_max_so_far = f64::NEG_INFINITY;
+        for (&(x_mid, x1), out_idx) in xs.iter().zip(output_order) {
             x_mid_max_so_far = x_mid_max_so_far.max(x_mid);
             x1_max_so_far = x1_max_so_far.max(x1);
 
@@ -114,6 +133,7 @@ fn ordered_curves_all_close(
                 .path
                 .quad_to((x_mid_max_so_far, y_mid), (x1_max_so_far, next_y0));
         }
+        xs.clear();
         approxes.clear();
 
         y0 = next_y0;
-- 
2.43.0


From d448b871920008e6814d6000499dec47f1a284ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 16/23] fix: cut off the ends of copied segments where they are
 almost horizontal

An end point that is close to the segment can be far from the point of the
segment at the same height. Replacing the latter by the former moved the
whole piece away from the segment.
---
 src/position.rs | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a2054fc..512667b 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -9,7 +9,7 @@
 
 use std::collections::BinaryHeap;
 
-use kurbo::{BezPath, CubicBez};
+use kurbo::{BezPath, CubicBez, ParamCurve, ParamCurveNearest};
 
 use crate::{
     curve::{
@@ -52,8 +52,8 @@ fn ordered_curves_all_close(
         let q1 = endpoints[o1.second_half()];
 
         if p0.y == y0 && p1.y == y0 {
-            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
-            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
+            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, 4.0 * accuracy);
+            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, 4.0 * accuracy);
 
             if transversal_after(c0, c1, y1) {
                 return;
@@ -61,8 +61,8 @@ fn ordered_curves_all_close(
         }
 
         if q0.y == y1 && q1.y == y1 {
-            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
-            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
+            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, 4.0 * accuracy);
+            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, 4.0 * accuracy);
 
             if transversal_before(c0, c1, y0) {
                 return;
@@ -77,7 +77,7 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
-            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint, 4.0 * accuracy);
             if segs[seg_idx].is_line() {
                 // This only goes up to `y0`: the rest gets approximated.
                 out.path.line_to(c.p3)
@@ -246,12 +246,37 @@ fn bez_end_y(path: &BezPath) -> f64 {
     bez_end(path).y
 }
 
-fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point) -> CubicBez {
+fn next_subsegment(
+    seg: &Segment,
+    out: &BezPath,
+    y1: f64,
+    endpoint: kurbo::Point,
+    tolerance: f64,
+) -> CubicBez {
     let p0 = bez_end(out);
-    let mut c = y_subsegment(seg.to_kurbo_cubic(), p0.y, y1);
+    let p3 = (endpoint.y == y1).then_some(endpoint);
+    let orig = y_subsegment(seg.to_kurbo_cubic(), p0.y, y1);
+
+    // Where the segment is almost horizontal, `p0` (or `p3`) can be far away from the point
+    // with the same height, even if it's close to the segment. In that case, we start (or
+    // end) at the closest point instead: moving the end would also move what's in between.
+    let closest = |p: kurbo::Point, end: kurbo::Point, default: f64| {
+        if (p - end).hypot() > tolerance {
+            orig.nearest(p, tolerance / 4.0).t
+        } else {
+            default
+        }
+    };
+    let t0 = closest(p0, orig.p0, 0.0);
+    let t1 = p3.map_or(1.0, |p3| closest(p3, orig.p3, 1.0));
+    let mut c = if t0 < t1 && (t0 > 0.0 || t1 < 1.0) {
+        orig.subsegment(t0..t1)
+    } else {
+        orig
+    };
     c.p0 = p0;
-    if endpoint.y == y1 {
-        c.p3 = endpoint;
+    if let Some(p3) = p3 {
+        c.p3 = p3;
     }
     c
 }
@@ -402,7 +427,13 @@ pub(crate) fn compute_positions(
             if segs[seg_idx].is_line() {
                 out.path.line_to(endpoint)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint);
+                let c = next_subsegment(
+                    &segs[seg_idx],
+                    &out.path,
+                    endpoint.y,
+                    endpoint,
+                    4.0 * accuracy,
+                );
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         } else {
-- 
2.43.0


From 4da33ab07045a84b2ec13eb16e549421af0c6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 17/23] fix: skip changes of order without height when looking
 for the next close height

---
 src/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index e1ca0e7..1736f2c 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1744,7 +1744,7 @@ impl HalfScanLineOrder {
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
                     .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, order_y1, _)| *order_y0 >= start || *order_y1 > start);
+                    .find(|(_, order_y1, _)| *order_y1 > start);
                 if let Some((order_y0, _, _)) = next_ish {
                     return Some(order_y0.max(start));
                 }
-- 
2.43.0


From 714b9ff6b7da7deaf4d84cd0bd7aebbb31d53e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:09 +0000
Subject: [PATCH 18/23] fix: lay out close segments at negative heights, too

---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index 512667b..ecd01be 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -317,6 +317,9 @@ pub(crate) fn compute_positions(
     // we need to separately keep track of how far down we've looked at each output. If
     // we weren't lazy, that would just be the last `y` coordinate in `out`.
     let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
+    for idx in last_y.indices() {
+        last_y[idx] = f64::NEG_INFINITY;
+    }
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
-- 
2.43.0


From 5793f843e4066bac9aa8f29228a4b69dce663f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 19/23] fix: copy lines towards their end points

---
 src/position.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index ecd01be..3fe08a4 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,11 +77,15 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
-            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint, 4.0 * accuracy);
             if segs[seg_idx].is_line() {
-                // This only goes up to `y0`: the rest gets approximated.
-                out.path.line_to(c.p3)
+                // This only goes up to `y0`: the rest gets approximated. We follow the line
+                // to the endpoint instead of the input line, because that's the one that's
+                // known to be in the right order.
+                let p0 = bez_end(&out.path);
+                let t = (y0 - p0.y) / (endpoint.y - p0.y);
+                out.path.line_to((p0.lerp(endpoint, t).x, y0));
             } else {
+                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint, 4.0 * accuracy);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         }
-- 
2.43.0


From ffdcf8a7b57d452968dcce44694af16e4a28eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 20/23] fix: find the touch that follows the current one

---
 src/curve/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b33f213..ce94820 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -166,7 +166,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (_, _, next_order) = iter.next()?;
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
@@ -175,7 +175,8 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    // We're already touching, so look for the next time after they separate.
+                    self.next_touch_after(y1)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From f45d57c1afbdf999a05dcc6c8be52810b067e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 21/23] fix: don't fail on a part of a curve without height

---
 src/curve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index ce94820..071dd16 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -385,7 +385,7 @@ pub fn solve_x_for_y(c: CubicBez, y: f64) -> f64 {
 /// The input curve should be monotonic in `y`, and its range should include
 /// `y0` and `y1` (which should be ordered).
 pub fn y_subsegment(c: CubicBez, y0: f64, y1: f64) -> CubicBez {
-    debug_assert!(y0 < y1);
+    debug_assert!(y0 <= y1);
     debug_assert!(c.p0.y <= y0 && y1 <= c.p3.y);
     let t0 = solve_t_for_y(c, y0);
     let t1 = solve_t_for_y(c, y1);
-- 
2.43.0


From 1c716a5d21d8efe4e01990965391c30eecfd480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:34 +0000
Subject: [PATCH 22/23] fix: keep rotated heights in order when rotating back

---
 src/curve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 071dd16..0b93088 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -976,7 +976,10 @@ fn with_rotation(
     for (_new_y0, new_y1, order) in order_rot.iter() {
         let x1 = (solve_x_for_y(c0_rot, new_y1) + solve_x_for_y(c1_rot, new_y1)) / 2.0;
         let p1 = transform.inverse() * kurbo::Point::new(x1, new_y1);
-        out.push(p1.y.clamp(y0, y1), order);
+        // Rotating back is only monotone up to rounding, so don't go back
+        // below the end of what was already there.
+        let y_min = out.cmps.last().map_or(y0, |last| last.end);
+        out.push(p1.y.clamp(y_min, y1), order);
     }
     //dbg!(&out);
     out.cmps.last_mut().unwrap().end = y1;
-- 
2.43.0


From 110371d2022314f389ec9928816171d7c1af0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:16 +0000
Subject: [PATCH 23/23] fix: delay intersections that would undo one that is
 already due

---
 src/sweep/sweep_line.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index b7ec4a8..9d8f1c3 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -680,6 +680,32 @@ impl<'segs> Sweeper<'segs> {
                         return;
                     }
 
+                    // Likewise, `seg_j` might be due to go to the left of
+                    // `right` without comparing left of it yet. Pushing
+                    // `seg_j` to the right of `right` would only make us
+                    // cross them again at this height, possibly forever.
+                    // Delay the intersection for as long as `left` and `right`
+                    // are still allowed to be in their current order.
+                    let (_, y3, left_right_order) =
+                        self.compare_segments(left, right).entry_at(self.y);
+                    let delayed_y = y1.min(y2).min(y3);
+                    if left_right_order == Order::Ish
+                        && j_right_order == Order::Ish
+                        && delayed_y < self.segments[left].end().y
+                    {
+                        let due = self
+                            .compare_segments(right, seg_j_idx)
+                            .next_touch_after(self.y);
+                        if matches!(due, Some(curve::CurveInteraction::Cross(y)) if y <= self.y) {
+                            self.events.push(IntersectionEvent {
+                                y: delayed_y,
+                                left,
+                                right,
+                            });
+                            return;
+                        }
+                    }
+
                     to_move.push(j);
                 }
             }
-- 
2.43.0

