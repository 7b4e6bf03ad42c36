From 8ca6083860a75b55eb55a52503d72c266d4f107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 01/63] fix: MultiPoint::setGeometry rejects a point that is
 not present

---
 src/fields2cover/types/MultiPoint.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..41fea10 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -73,6 +73,10 @@ const Point MultiPoint::getLastPoint() const {
 
 
 void MultiPoint::setGeometry(size_t i, const Point& p) {
+    if (i >= this->size()) {
+      throw std::out_of_range(
+          "MultiPoint does not contain point " + std::to_string(i));
+    }
     OGRPoint* point = downCast<OGRPoint*>(data_->getGeometryRef(i));
     point->setX(p.getX());
     point->setY(p.getY());
-- 
2.43.0


From a12fb7ea354d6fad7345223d970428ffb69a5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 02/63] fix: Cells::addRing closes the ring as Cell::addRing
 does

---
 src/fields2cover/types/Cells.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..daf941d 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -129,7 +129,7 @@ void Cells::addGeometry(const Cell& c) {
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
-      ring.clone().get());
+      ring.clone().closeRing().get());
 }
 
 size_t Cells::size() const {
-- 
2.43.0


From c410ea1efbd1285c922aae8b1988673d2fd476cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 03/63] fix: Swath::clone keeps the swath type and accepts an
 unset width

---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..d5284a9 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.path_ = this->path_.clone();
   return new_s;
 }
 
-- 
2.43.0


From 542d25158e9c581c2b9b1b983021694f15b4634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 04/63] fix: Field::clone keeps the previous CRS and the
 reference point

---
 src/fields2cover/types/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..aab21eb 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -74,8 +74,8 @@ void Field::setField(const Cells& _field) {
 }
 
 Field Field::clone() const {
-  Field new_field {this->field_ + this->ref_point_, this->id_};
-  new_field.coord_sys_ = this->coord_sys_;
+  Field new_field {*this};
+  new_field.field_ = this->field_.clone();
   return new_field;
 }
 
-- 
2.43.0


From 1b63d7b0b7b6942ce6d70af7fbcdbdbd314dca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 05/63] fix: Cell::isConvex checks every vertex and ignores
 straight ones

---
 src/fields2cover/types/Cell.cpp | 35 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..732cfbf 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -142,21 +142,34 @@ bool Cell::isConvex() const {
   if (this->data_->getNumInteriorRings() > 0 || this->data_->get_Area() <= 0) {
     return false;
   }
-  auto border = this->getExteriorRing();
-  if (border.size() < 2) {
+  const auto border = this->getExteriorRing();
+  std::vector<Point> ps;
+  for (auto&& p : border) {
+    if (ps.empty() || ps.back() != p) {
+      ps.emplace_back(p);
+    }
+  }
+  if (ps.size() > 1 && ps.front() == ps.back()) {
+    ps.pop_back();
+  }
+  const size_t n = ps.size();
+  if (n < 3) {
     return false;
   }
-  auto getAng = [&border] (size_t i) {
-    return Point::getAngleFromPoints(
-        border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
-  };
-  bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
-    if (inv != (getAng(i) < M_PI)) {
+  // All the vertices have to turn to the same side, ignoring straight ones.
+  const double straight_tol {1e-6};
+  int side {0};
+  for (size_t i = 0; i < n; ++i) {
+    const double sin_ang = sin(Point::getAngleFromPoints(
+          ps[i], ps[(i + 1) % n], ps[(i + 2) % n]));
+    if (fabs(sin_ang) < straight_tol) {
+      continue;
+    }
+    const int vertex_side {sin_ang > 0 ? 1 : -1};
+    if (side != 0 && side != vertex_side) {
       return false;
     }
+    side = vertex_side;
   }
   return true;
 }
-- 
2.43.0


From 25f438518d321f23cc0cce860b71b4c3043d6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 06/63] fix: ConstHL returns no headland swaths from the inside
 when none are asked for

---
 src/fields2cover/headland_generator/constant_headland.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..a68388b 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -26,7 +26,7 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
     }
-  } else {
+  } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
       hl.emplace_back(hl.back().buffer(swath_width));
-- 
2.43.0


From 2607ff78167e6106084b4b845a130a162119c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 07/63] fix: MultiLineString keeps the lines of a mixed
 intersection result

Lines of a GeometryCollection were dropped, so chords were lost where a line
also touches a corner. createLineUntilBorder relied on that for rays that leave
the cell at their start; it now says so itself.
---
 src/fields2cover/types/Cell.cpp            | 10 +++++++++-
 src/fields2cover/types/MultiLineString.cpp |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 732cfbf..6c71315 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -217,7 +217,15 @@ LineString Cell::createLineUntilBorder(
       }
     }
   }
-  return (best_point == p) ? LineString() : LineString({p, best_point});
+  if (best_point == p) {
+    return LineString();
+  }
+  const LineString line({p, best_point});
+  // From the border, a line that leaves the cell has already reached it.
+  if (this->distance(p) < 1e-5 && !line.within(buffer(*this, 1e-5))) {
+    return LineString();
+  }
+  return line;
 }
 
 Point Cell::closestPointOnBorderTo(const Point& p) const {
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..18919b1 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -65,6 +65,11 @@ void MultiLineString::append(const OGRGeometry* geom) {
         data_->addGeometry(ring);
       }
     }
+  } else if (wkbFlatten(geom->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    for (auto&& child : *geom->toGeometryCollection()) {
+      this->append(child);
+    }
   }
 }
 
-- 
2.43.0


From 4c66640a9e72c5aa5ac48d51835b2df610afcfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 08/63] fix: Cells::splitByLine throws when a part of the cells
 touches itself or holes

The loop after the difference buffered every part and dropped the result; the
only thing it could do was throw, when the buffer of a part was not a single
polygon.
---
 src/fields2cover/types/Cells.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index daf941d..390d1e6 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -178,11 +178,7 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  Cells cells = this->difference(this->buffer(line, 1e-8));
-  for (auto&& c : cells) {
-    c = Cell::buffer(c, 1e-8 * 0.5);
-  }
-  return cells;
+  return this->difference(this->buffer(line, 1e-8));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-- 
2.43.0


From aa2cec3756ce60c6959566bb14db1c72a16a8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 09/63] fix: Cells::splitByLine lost area or left cells joined

A line cut twice (decompositions list every line of the closing vertex of a
ring again) could drop a whole part, and the flat end of the strip at a vertex
could leave the cells on both sides joined in that vertex.
---
 src/fields2cover/types/Cells.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 390d1e6..59dddcf 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -178,13 +178,21 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  return this->difference(this->buffer(line, 1e-8));
+  // Pointed ends, so that a line that ends in a vertex also cuts around it.
+  return this->difference(destroyResGeom<Cells>(line->Buffer(1e-8, 1)));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
   Cells cells{*this};
+  std::vector<LineString> done;
   for (auto&& line : lines) {
+    // Cutting again along the gap of an equal line is not robust.
+    if (std::any_of(done.begin(), done.end(),
+          [&line] (const LineString& l) {return l == line;})) {
+      continue;
+    }
     cells = cells.splitByLine(line);
+    done.emplace_back(line);
   }
   return cells;
 }
-- 
2.43.0


From 91922bf26590bec44371b78422be06efa595b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 10/63] fix: BruteForce skipped the last angle of some steps,
 read out of bounds for steps over a turn

---
 src/fields2cover/swath_generator/brute_force.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/swath_generator/brute_force.cpp b/src/fields2cover/swath_generator/brute_force.cpp
index 78ceb0f..681615a 100644
--- a/src/fields2cover/swath_generator/brute_force.cpp
+++ b/src/fields2cover/swath_generator/brute_force.cpp
@@ -11,6 +11,7 @@
 #include <vector>
 #include <utility>
 #include <limits>
+#include <stdexcept>
 #include "fields2cover/swath_generator/brute_force.h"
 
 namespace f2c::sg {
@@ -25,8 +26,12 @@ void BruteForce::setStepAngle(double d) {
 
 double BruteForce::computeBestAngle(f2c::obj::SGObjective& obj,
     double op_width, const F2CCell& poly) {
-  int n = static_cast<int>(
-      boost::math::constants::two_pi<double>() / step_angle);
+  if (!(step_angle > 0.0)) {
+    throw std::invalid_argument("BruteForce: step angle has to be positive");
+  }
+  // The margin keeps the last angle when the step divides the turn.
+  int n = std::max(1, static_cast<int>(
+      boost::math::constants::two_pi<double>() / step_angle + 1e-9));
   std::vector<double> costs(n);
   std::vector<int> ids(n);
   std::iota(ids.begin(), ids.end(), 0);
-- 
2.43.0


From 4fb5b887427d561a40cb84dec1d5f4fff3ad1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 11/63] fix: Overlaps missed the pairs of swaths of a list of
 three or more

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..4d452d3 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -15,9 +15,9 @@ double Overlaps::computeCost(const F2CCell& poly, const F2CSwaths& swaths) {
 double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   double area_overlaped {0.0};
   std::vector<F2CCells> areas;
-  for (int i = swaths.size() - 1; i >= 0; --i) {
+  for (size_t i = 0; i < swaths.size(); ++i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
+    for (size_t j = 0; j < i; ++j) {
       if (areas[i].intersects(areas[j])) {
         area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
       }
-- 
2.43.0


From 7bbeb2173e61c65620f06478f0acaf4d4670451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 12/63] fix: NSwathModified counted a segment that is no edge
 of the ring

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..a0ac6a3 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -15,9 +15,9 @@ double NSwathModified::computeCost(
   }
   double n_turns {0.0};
   for (auto&& ring : cell) {
-    for (size_t i = 0; i < ring.size(); ++i) {
+    for (size_t i = 1; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry(i - 1);
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From e49ee0a436d1f9247d613c1eb4d0a070c9f0d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 13/63] fix: FieldCoverage read the width of a first swath that
 may not exist, and used it for all

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..2ff1580 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,14 +15,13 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
-  F2CMultiLineString lines;
+  F2CCells strips;
   for (const auto& s : swaths) {
-    lines.addGeometry(s.getPath());
+    for (const auto& strip : s.areaCovered()) {
+      strips.addGeometry(strip);
+    }
   }
-
-  double area_covered {poly.getCellsInside(
-      F2CCells::buffer(lines, swaths[0].getWidth() / 2.0)).area()};
-  return area_covered / poly.area();
+  return poly.getCellsInside(strips.unionCascaded()).area() / poly.area();
 }
 
 bool FieldCoverage::isMinimizing() const {
-- 
2.43.0


From 6cc6a7d861c6d32a519ab09b0314d0ea0b25a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 14/63] fix: RPObjective read the first or last swath of empty
 swaths

---
 src/fields2cover/objectives/rp_obj/rp_objective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..bb50a95 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (ps.isEmpty() || s.size() == 0) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
-- 
2.43.0


From ee436bc37e1052259ddf4014f65c85aa8e01cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 15/63] fix: RPObjective left out the steps of a route over
 empty connections or swaths

---
 .../objectives/rp_obj/rp_objective.cpp        | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index bb50a95..00bcd6d 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -128,10 +128,29 @@ double RPObjective::computeCost(const F2CRoute& r) {
   for (auto&& s : r.getConnections()) {
     dist += computeCost(s);
   }
-  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
-    dist += computeCost(r.getConnection(i), r.getSwaths(i));
-    if (i + 1 < r.sizeConnections()) {
-      dist += computeCost(r.getSwaths(i), r.getConnection(i + 1));
+  // Steps between consecutive parts of the route that are not empty.
+  const F2CMultiPoint* last_con {nullptr};
+  const F2CSwaths* last_sws {nullptr};
+  for (size_t i = 0; i < r.sizeConnections(); ++i) {
+    const auto& con = r.getConnection(i);
+    if (!con.isEmpty()) {
+      if (last_con) {
+        dist += computeCost(last_con->getLastPoint(), con.getFirstPoint());
+      } else if (last_sws) {
+        dist += computeCost(*last_sws, con);
+      }
+      last_con = &con;
+      last_sws = nullptr;
+    }
+    if (i < r.sizeVectorSwaths() && r.getSwaths(i).size() > 0) {
+      const auto& sws = r.getSwaths(i);
+      if (last_con) {
+        dist += computeCost(*last_con, sws);
+      } else if (last_sws) {
+        dist += computeCost(last_sws->back(), sws[0]);
+      }
+      last_con = nullptr;
+      last_sws = &sws;
     }
   }
   return dist;
-- 
2.43.0


From de9c67fc4ed2161b6db346c32d71777529e0e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 16/63] fix: Swath equality compared only one end of the swaths

A swath from (0, 0) to (4, 0) was equal to one from (0, 0) to (0, 4), and the
comparison depended on which swath was on the left when their directions
differed. A reversed swath of several segments could differ from itself by the
rounding of its length.
---
 src/fields2cover/types/Swath.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index d5284a9..ffbe1a9 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -29,10 +29,15 @@ bool Swath::operator!=(const Swath& s) const {
   if (s.getWidth() != this->getWidth()) {
     return true;
   }
-  Point this_p {this->startPoint()};
-  Point s_p = (this->hasSameDir(s) ? s.startPoint() : s.endPoint());
-  return (this_p.getX() != s_p.getX() || this_p.getY() != s_p.getY()) ||
-    s.length() != this->length();
+  const bool same_dir = this->hasSameDir(s);
+  const Point s_start = same_dir ? s.startPoint() : s.endPoint();
+  const Point s_end = same_dir ? s.endPoint() : s.startPoint();
+  auto differ = [] (const Point& a, const Point& b) {
+    return a.getX() != b.getX() || a.getY() != b.getY();
+  };
+  return differ(this->startPoint(), s_start) ||
+    differ(this->endPoint(), s_end) ||
+    fabs(s.length() - this->length()) > 1e-7;
 }
 
 bool Swath::operator==(const Swath& s) const {
-- 
2.43.0


From 0859949a28bd5144de04cf65cf68236b53b38a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 17/63] fix: Swaths::append of a list to itself read freed
 memory

---
 src/fields2cover/types/Swaths.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..9fd2838 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -119,8 +119,11 @@ void Swaths::append(const MultiLineString& lines, const Cells& polys,
 }
 
 void Swaths::append(const Swaths& swaths) {
-  for (auto&& s : swaths) {
-    this->emplace_back(s);
+  // By index, as the list may be appended to itself.
+  const size_t n = swaths.size();
+  this->data_.reserve(this->size() + n);
+  for (size_t i = 0; i < n; ++i) {
+    this->emplace_back(swaths[i]);
   }
 }
 
-- 
2.43.0


From b80f28cfd08d5f27efb54c4c2129e7eb5dd25271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 18/63] fix: Route start and end ignored everything but the
 first and last part

A route whose first connection and swaths were empty, or whose last swaths
were, started or ended at (0, 0) although it has other parts.
---
 src/fields2cover/types/Route.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..a647983 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include "fields2cover/types/Route.h"
+#include <algorithm>
 
 namespace f2c::types {
 
@@ -121,20 +122,23 @@ void Route::setConnection(size_t i, const MultiPoint& mp) {
 }
 
 Point Route::startPoint() const {
-  if (sizeConnections() > 0 && connections_[0].size() > 0) {
-    return connections_[0].getFirstPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_[0].size() > 0) {
-    return v_swaths_[0][0].startPoint();
+  for (size_t i = 0; i < sizeConnections() || i < sizeVectorSwaths(); ++i) {
+    if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getFirstPoint();
+    } else if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i][0].startPoint();
+    }
   }
   return {};
 }
 
 Point Route::endPoint() const {
-  if (sizeConnections() > sizeVectorSwaths() &&
-      connections_.back().size() > 0) {
-    return connections_.back().getLastPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_.back().size() > 0) {
-    return v_swaths_.back().back().endPoint();
+  for (size_t i = std::max(sizeConnections(), sizeVectorSwaths()); i-- > 0;) {
+    if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i].back().endPoint();
+    } else if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getLastPoint();
+    }
   }
   return {};
 }
-- 
2.43.0


From 3a84b8e069d17fe95b7fe0c994382cf82ddfe073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 19/63] fix: hash of a Point with negative coordinates was
 undefined

---
 include/fields2cover/types/Point.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Point.h b/include/fields2cover/types/Point.h
index dc6ea97..c8d827d 100644
--- a/include/fields2cover/types/Point.h
+++ b/include/fields2cover/types/Point.h
@@ -9,6 +9,8 @@
 #define FIELDS2COVER_TYPES_POINT_H_
 
 #include <ogr_geometry.h>
+#include <cmath>
+#include <cstdint>
 #include <iostream>
 #include <functional>
 #include <memory>
@@ -183,7 +185,9 @@ namespace std {
 template<>
 struct hash<f2c::types::Point> {
   inline size_t operator()(const f2c::types::Point& p) const {
-    return size_t(p.getX() + p.getY() * 1e10 + p.getZ() * 1e20);
+    // A negative or too large value has no conversion to size_t.
+    return size_t(static_cast<int64_t>(
+        std::fmod(p.getX() + p.getY() * 1e10 + p.getZ() * 1e20, 9e18)));
   }
 };
 }
-- 
2.43.0


From 89657f7ea169c838530b693c125f14530418ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 20/63] fix: Graph kept the shortest paths after an edge was
 removed

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 14 +++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..338d4f2 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// Forget the shortest paths, when the edges change
+  void clearShortestPaths();
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..774d233 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,11 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
-  if (!this->next_.empty() || !this->distance_.empty()) {
-    this->next_.clear();
-    this->distance_.clear();
-    this->shortest_paths_.clear();
-  }
+  this->clearShortestPaths();
   return *this;
 }
 
@@ -30,8 +26,10 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->clearShortestPaths();
   return *this;
 }
+
 Graph& Graph::removeEdge(size_t i, size_t j) {
   return this->removeDirectedEdge(i, j).removeDirectedEdge(j, i);
 }
@@ -40,6 +38,12 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+void Graph::clearShortestPaths() {
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
-- 
2.43.0


From 305bba9aedd8239969746567245ed4bab2ec5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 21/63] fix: Graph ran out of its matrices with nodes without
 outgoing edges

The size of the matrices was the number of nodes with outgoing edges, although
they are accessed with the indices of all nodes. Nodes that nothing starts at,
and indices with gaps, read and wrote out of bounds, as did unknown nodes.
---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index 338d4f2..235e41b 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// One more than the biggest index of a node
+  size_t numIndices() const;
+
   /// Forget the shortest paths, when the edges change
   void clearShortestPaths();
 
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 774d233..9bf2c76 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,6 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
+  this->edges_[to];  // A node without outgoing edges is also a node
   this->clearShortestPaths();
   return *this;
 }
@@ -38,6 +39,14 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::numIndices() const {
+  size_t n {0};
+  for (auto&& e : this->edges_) {
+    n = std::max(n, e.first + 1);
+  }
+  return n;
+}
+
 void Graph::clearShortestPaths() {
   this->next_.clear();
   this->distance_.clear();
@@ -73,7 +82,7 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(std::max(this->numIndices(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -104,7 +113,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndices();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -115,7 +124,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndices();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -168,7 +177,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = this->numIndices();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -196,7 +205,8 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from != to && from < next.size() && to < next.size() &&
+      next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -213,6 +223,9 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
+  if (from >= this->distance_.size() || to >= this->distance_.size()) {
+    return INF;
+  }
   return this->distance_[from][to];
 }
 
-- 
2.43.0


From bc8ae1c57fe478ad1b9ad9b09f631414d4d9a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 22/63] fix: SnakeOrder ran past the end of a single swath

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..351326a 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 3) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From c0c49973d8f9098068433e7936866f2994be854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 23/63] fix: SpiralOrder divided by a spiral size of zero

---
 src/fields2cover/route_planning/spiral_order.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..69126f8 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -4,13 +4,13 @@ namespace f2c::rp {
 
 
 SpiralOrder::SpiralOrder(size_t sp_size) {
-  setSpiralSize(static_cast<size_t>(std::max(2, static_cast<int>(sp_size))));
+  setSpiralSize(sp_size);
 }
 
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max(static_cast<size_t>(2), sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From a0d23c379f865d7fdf1ba9b66463c3279643afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 24/63] fix: direction variants of a custom order had no effect

Variants 2 and 3 reversed the first swath only, and the directions follow from
the first swath of the order, which may be another one.
---
 .../route_planning/single_cell_swaths_order_base.cpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp b/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
index 024018d..aa5dfff 100644
--- a/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
+++ b/src/fields2cover/route_planning/single_cell_swaths_order_base.cpp
@@ -28,7 +28,10 @@ void SingleCellSwathsOrderBase::changeStartPoint(
     swaths.reverse();
   }
   if (variant & 2) {
-    swaths[0].reverse();
+    // All of them, as the order may start with any swath.
+    for (auto&& s : swaths) {
+      s.reverse();
+    }
   }
 }
 
-- 
2.43.0


From a23c329da198aa97296d5c169eb4bb9d89d37c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 25/63] fix: UTM zones of one digit had a wrong zone and no
 hemisphere

The zone of UTM:5N was "5N" and its hemisphere empty; asking a string without
UTM for its hemisphere threw out_of_range.
---
 src/fields2cover/types/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index aab21eb..bfe0dfc 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -162,7 +162,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  const std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -170,7 +171,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  const std::string utm {getUTMCoordSystem(coord_sys)};
+  const std::string hemisphere {utm.substr(getUTMZone(coord_sys).size(), 1)};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From bd7da81c5110937cce0db79812572b7d7a0a286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 26/63] fix: EPSG code was read from a fixed place of the
 string

It threw for EPSG: not at the begin, and for no number after it.
---
 src/fields2cover/types/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index bfe0dfc..e9ee2e1 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -132,8 +132,10 @@ bool Field::isCoordSystemEPSG() const {
 }
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
-  return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+  std::smatch match;
+  return std::regex_search(coord_sys, match,
+      std::regex("EPSG:[^0-9A-Za-z-]*(-?[0-9]+)")) ?
+    std::stoi(match.str(1)) : -1;
 }
 
 int Field::getEPSGCoordSystem() const {
-- 
2.43.0


From 86c7d6463499c8dff5a938de22aabf6b0317a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 27/63] fix: Robot constructor kept negative curvatures, unlike
 the setters

---
 src/fields2cover/types/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Robot.cpp b/src/fields2cover/types/Robot.cpp
index 6836ac6..e38f2dd 100644
--- a/src/fields2cover/types/Robot.cpp
+++ b/src/fields2cover/types/Robot.cpp
@@ -12,7 +12,7 @@ namespace f2c::types {
 Robot::Robot(double width, double cov_width,
     double max_curv, double max_diff_curv) :
       width_(width), cov_width_(cov_width),
-      max_icc_(max_curv), linear_curv_change_(max_diff_curv) {
+      max_icc_(fabs(max_curv)), linear_curv_change_(fabs(max_diff_curv)) {
   if (width <= 0.0 || cov_width < 0.0) {
     throw std::out_of_range("Robot widths have to be greater than 0.");
   }
-- 
2.43.0


From 4689c8d16324533cfd26c24d800a73eaeea18bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 28/63] fix: keep the type and creation direction of
 transformed swaths

---
 src/fields2cover/utils/transformation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..3026bd8 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,11 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
+  F2CSwath new_swath(transform(
         swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+      swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +134,10 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
+                   swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From bb298103920db89a75532013e7ddcbd7142a5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 29/63] fix: throw when a coordinate transformation cannot be
 created

---
 src/fields2cover/utils/transformation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 3026bd8..8cb3479 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -277,9 +277,13 @@ std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)> Transform::createCoordTransf(
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> in,
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> out) {
+    auto* coord_transf = OGRCreateCoordinateTransformation(in.get(), out.get());
+    if (coord_transf == nullptr) {
+      throw std::invalid_argument("Coordinate system not recognized");
+    }
     return std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)>(
-        OGRCreateCoordinateTransformation(in.get(), out.get()),
+        coord_transf,
           [](OGRCoordinateTransformation* coord) {
             OGRCoordinateTransformation::DestroyCT(coord);});
 }
-- 
2.43.0


From 04e2ce4fcf7797f47c00df0ef179a214f36d9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 30/63] fix: UTM zone of fields on the antimeridian

---
 src/fields2cover/utils/transformation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 8cb3479..31f7e70 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -189,8 +189,8 @@ void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
   }
 
   std::string utm_zone = std::string("UTM:") + \
-      std::to_string(static_cast<size_t>(
-            floor((field.getRefPoint().getX() + 180) / 6) + 1)) + \
+      std::to_string(std::min<size_t>(60, static_cast<size_t>(
+            floor((field.getRefPoint().getX() + 180) / 6) + 1))) + \
       (field.getRefPoint().getY() > 0 ? "N" : "S") + \
       " datum:" + (field.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
   transform(field, utm_zone);
-- 
2.43.0


From c93b49e056b56abe9a8bf6f46fd31e430a79e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 31/63] fix: heading of transformed states that move backwards

---
 src/fields2cover/utils/transformation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 31f7e70..ce203aa 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -67,6 +67,9 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
     new_path[i].angle = (new_path[i+1].point - new_path[i].point).getAngleFromPoint();
+    if (new_path[i].dir == f2c::types::PathDirection::BACKWARD) {
+      new_path[i].angle = F2CPoint::mod_2pi(new_path[i].angle + M_PI);
+    }
   }
 
 
-- 
2.43.0


From 4af42786922539d7e88fcf6e323f57ce2c4576ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 32/63] fix: report malformed GML files instead of
 dereferencing null

---
 src/fields2cover/utils/parser.cpp | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..b57b42b 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -40,19 +40,31 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
+  auto getChild = [](const tinyxml2::XMLElement* elem, const char* name) {
+    auto* child = elem->FirstChildElement(name);
+    if (child == nullptr) {
+      throw std::invalid_argument(
+          std::string("GML file without element ") + name);
+    }
+    return child;
+  };
+
+  auto* p_field = getChild(p_parcel, "Field");
 
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
+  auto* p_polygon = getChild(getChild(p_field, "geometry"), "gml:Polygon");
 
+  if (p_polygon->Attribute("srsName") == nullptr) {
+    throw std::invalid_argument("GML file without coordinate system");
+  }
   std::string coord_sys = p_polygon->Attribute("srsName");
 
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
+  auto* p_text = getChild(getChild(
+            getChild(p_polygon, "gml:outerBoundaryIs"),
+            "gml:LinearRing"), "gml:coordinates")->GetText();
+  if (p_text == nullptr) {
+    throw std::invalid_argument("GML file without coordinates");
+  }
+  std::string p_coords {p_text};
   auto findAndReplaceAll =
       [](std::string& data, std::string toSearch, std::string replaceStr) {
             size_t pos = data.find(toSearch);
@@ -69,6 +81,9 @@ F2CField Parser::importFieldGml(
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
+  if (new_geom == nullptr) {
+    throw std::invalid_argument("GML file with wrong coordinates");
+  }
 
   F2CField field(F2CCells(new_geom), id);
   field.setCRS(coord_sys);
-- 
2.43.0


From 8b0aa3e5625bbe79287827c354916cb3c4a8aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 33/63] fix: GML coordinates separated by any white space

---
 src/fields2cover/utils/parser.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index b57b42b..f745699 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -5,6 +5,8 @@
 //=============================================================================
 
 #include <tinyxml2.h>
+#include <algorithm>
+#include <sstream>
 #include <boost/optional.hpp>
 #include <nlohmann/json.hpp>
 #include "fields2cover/utils/parser.h"
@@ -65,19 +67,17 @@ F2CField Parser::importFieldGml(
     throw std::invalid_argument("GML file without coordinates");
   }
   std::string p_coords {p_text};
-  auto findAndReplaceAll =
-      [](std::string& data, std::string toSearch, std::string replaceStr) {
-            size_t pos = data.find(toSearch);
-            while (pos != std::string::npos) {
-                data.replace(pos, toSearch.size(), replaceStr);
-                pos = data.find(toSearch, pos + replaceStr.size());
-            }
-            return;
-      };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
+  // Tuples "x,y" may be separated by any white space
+  auto toWktRing = [](const std::string& text) {
+    std::istringstream tuples(text);
+    std::string ring, tuple;
+    while (tuples >> tuple) {
+      std::replace(tuple.begin(), tuple.end(), ',', ' ');
+      ring += (ring.empty() ? "" : ", ") + tuple;
+    }
+    return "(" + ring + ")";
+  };
+  p_coords = "POLYGON (" + toWktRing(p_coords) + ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
-- 
2.43.0


From 4716e5b5471c96304bf3bd189ff8dcfb8e77dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 34/63] fix: import the inner boundaries of GML polygons

---
 src/fields2cover/utils/parser.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index f745699..5f8ee2c 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -60,13 +60,14 @@ F2CField Parser::importFieldGml(
   }
   std::string coord_sys = p_polygon->Attribute("srsName");
 
-  auto* p_text = getChild(getChild(
-            getChild(p_polygon, "gml:outerBoundaryIs"),
-            "gml:LinearRing"), "gml:coordinates")->GetText();
-  if (p_text == nullptr) {
-    throw std::invalid_argument("GML file without coordinates");
-  }
-  std::string p_coords {p_text};
+  auto getCoords = [&getChild](const tinyxml2::XMLElement* boundary) {
+    auto* p_text = getChild(
+        getChild(boundary, "gml:LinearRing"), "gml:coordinates")->GetText();
+    if (p_text == nullptr) {
+      throw std::invalid_argument("GML file without coordinates");
+    }
+    return std::string(p_text);
+  };
   // Tuples "x,y" may be separated by any white space
   auto toWktRing = [](const std::string& text) {
     std::istringstream tuples(text);
@@ -77,7 +78,14 @@ F2CField Parser::importFieldGml(
     }
     return "(" + ring + ")";
   };
-  p_coords = "POLYGON (" + toWktRing(p_coords) + ")";
+  std::string p_coords = "POLYGON (" + toWktRing(
+      getCoords(getChild(p_polygon, "gml:outerBoundaryIs")));
+  for (auto* p_inner = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      p_inner != nullptr;
+      p_inner = p_inner->NextSiblingElement("gml:innerBoundaryIs")) {
+    p_coords += ", " + toWktRing(getCoords(p_inner));
+  }
+  p_coords += ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
-- 
2.43.0


From f050f99956294d08f3215c0bed4804e7c4ad0fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 35/63] fix: report malformed JSON files instead of guessing or
 aborting

---
 src/fields2cover/utils/parser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 5f8ee2c..e67bf3a 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -107,7 +107,7 @@ F2CPoint getPointFromJson(const json& ps) {
   } else if (ps.size() == 2) {
     return F2CPoint(ps[0], ps[1]);
   }
-  return F2CPoint();
+  throw std::invalid_argument("JSON point without 2 or 3 coordinates");
 }
 
 F2CCell getCellFromJson(const json& imported_cell) {
@@ -119,7 +119,7 @@ F2CCell getCellFromJson(const json& imported_cell) {
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
+  auto json_rings = imported_cell.at("geometry").at("coordinates");
   for (int i = 0; i < json_rings.size(); ++i) {
     cell.addRing(jsonToF2CRing(json_rings[i]));
   }
@@ -131,10 +131,10 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
 
-  for (auto&& imported_cell : imported_field["features"]) {
+  for (auto&& imported_cell : imported_field.at("features")) {
     fields.emplace_back(
       F2CField(F2CCells(getCellFromJson(imported_cell)),
-        imported_cell["properties"]["Name"]));
+        imported_cell.at("properties").at("Name")));
   }
   return 0;
 }
@@ -142,21 +142,21 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
 F2CCell Parser::importCellJson(const std::string& file) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
-  return getCellFromJson(imported_field["features"][0]);
+  return getCellFromJson(imported_field.at("features").at(0));
 }
 
 F2CSwaths Parser::importSwathsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_swaths = json::parse(f);
   F2CSwaths swaths;
-  for (auto&& imported_swath : imported_swaths["features"]) {
+  for (auto&& imported_swath : imported_swaths.at("features")) {
     F2CLineString line;
-    for (auto&& ps : imported_swath["geometry"]["coordinates"]) {
+    for (auto&& ps : imported_swath.at("geometry").at("coordinates")) {
       line.addPoint(getPointFromJson(ps));
     }
     swaths.emplace_back(line,
-      imported_swath["properties"]["width"],
-      imported_swath["properties"]["path_id"]);
+      imported_swath.at("properties").at("width"),
+      imported_swath.at("properties").at("path_id"));
   }
   return swaths;
 }
@@ -165,9 +165,9 @@ F2CStrips Parser::importStripsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_strips = json::parse(f);
   F2CStrips strips;
-  for (auto&& imported_strip : imported_strips["features"]) {
+  for (auto&& imported_strip : imported_strips.at("features")) {
     F2CStrip strip;
-    strip.setName(imported_strip["properties"]["crop_id"]);
+    strip.setName(imported_strip.at("properties").at("crop_id"));
     strip.setCell(getCellFromJson(imported_strip));
     strips.emplace_back(strip);
   }
-- 
2.43.0


From ee1da7a4e27f518c60bcf99ed950432676ae488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 36/63] fix: spline keeps the cubic term of its first interval

---
 src/fields2cover/utils/spline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..c3b468b 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -102,6 +102,9 @@ double CubicSpline::operator()(double x) const {
   size_t idx = l == 0 ? 0 : l - 1;
 
   double xi = xs - x_vec_[idx];
+  if (xi < 0.0) {  // Linear extrapolation
+    return y_vec_[idx] + b_vec_[idx] * xi;
+  }
   double xi2 = xi * xi;
   double xi3 = xi2 * xi;
 
@@ -187,7 +190,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From 28f25e1a3448be0a7dc58fd3eaef7152afbe5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 37/63] fix: spline checks the order of its first two knots

---
 src/fields2cover/utils/spline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index c3b468b..1f436ba 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -126,10 +126,13 @@ void CubicSpline::SetSplineCubic() {
   u[size_ - 1] = 0.;
   c_vec_[size_ - 1] = 0.;
 
-  for (unsigned int i = 1; i < size_ - 1; i++) {
+  for (unsigned int i = 0; i < size_ - 1; i++) {
     check_error(x_vec_[i + 1] > x_vec_[i],
         "In CubicSpline SetSpline, x array is not sorted"
         "from smallest to largest\n");
+  }
+
+  for (unsigned int i = 1; i < size_ - 1; i++) {
     h[i] = x_vec_[i + 1] - x_vec_[i];
 
     alpha[i] = 3. / h[i] * (y_vec_[i + 1] - y_vec_[i]) - 3. /
-- 
2.43.0


From c501613daa3cde56225af710fa26564b5b6d540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 38/63] fix: monotonic spline reads past its table and ignores
 its end slope

---
 src/fields2cover/utils/spline.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 1f436ba..936e205 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -150,6 +150,9 @@ void CubicSpline::SetSplineCubic() {
     d_vec_[i] = (c_vec_[i + 1] - c_vec_[i]) / (3. * h[i]);
   }
 
+  b_vec_[size_ - 1] = b_vec_[size_ - 2] +
+      h[size_ - 2] * (c_vec_[size_ - 2] + c_vec_[size_ - 1]);
+
   // Monotonic correction
   if (monotonic_) {
     bool changed = false;
@@ -165,8 +168,10 @@ void CubicSpline::SetSplineCubic() {
         b_vec_[i] = 0.0;
         changed = true;
       }
+    }
 
-      double slope = (y_vec_[i_high] - y_vec_[i]) / h[i];
+    for (unsigned int i = 0; i < size_ - 1; i++) {
+      double slope = (y_vec_[i + 1] - y_vec_[i]) / h[i];
       if (slope == 0.0 && (b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0)) {
         b_vec_[i] = 0.0;
         b_vec_[i + 1] = 0.0;
@@ -183,7 +188,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i < size_ - 1; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From 029940cda4fae1ae2f722edfd834bccf34a6128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 39/63] fix: evaluating a spline without points

---
 src/fields2cover/utils/spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 936e205..714d83a 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -86,6 +86,7 @@ void CubicSpline::SetPoints(
 
 
 double CubicSpline::operator()(double x) const {
+  check_error(size_ > 1, "In CubicSpline, points were not set\n");
   const auto xs = static_cast<double>(x);
 
   int l = 0;
-- 
2.43.0


From f36e9acb17ab590b7efa8435fc9fde9bb7918870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 40/63] fix: looking up the end of a path may give the origin

---
 src/fields2cover/types/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..c02eaec 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -233,9 +233,10 @@ PathState Path::at(double len) const {
   PathState state_at;
   for (size_t i = 0; i < this->size(); ++i) {
     double len_state = fabs(states_[i].len);
-    if (len_state < len) {
+    if (len_state < len && i + 1 < this->size()) {
       len -= len_state;
     } else {
+      len = std::min(len, len_state);  // Rounding may leave a bit too much
       state_at = states_[i];
       Point p = states_[i].point;
       double ang = states_[i].angle;
-- 
2.43.0


From f5e16c8418cc8dc562f422785b74a7c1a9c0f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 41/63] fix: appending a path to itself reads freed states

---
 src/fields2cover/types/Path.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index c02eaec..03c61f9 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -97,8 +97,11 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  // By index, as the path may be appended to itself.
+  const size_t n = path.size();
+  this->states_.reserve(this->size() + n);
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
-- 
2.43.0


From fd1b0818511c2a0c1360095204526c23ee7f4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 42/63] fix: populating a path with no points or no length
 loses it

---
 src/fields2cover/types/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 03c61f9..7d1e280 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -348,7 +348,9 @@ void Path::loadFile(const std::string& file) {
 }
 
 Path& Path::populate(int number_points) {
-  if (this->size() < 3) { return *this;}
+  if (this->size() < 3 || number_points < 1 || this->length() == 0.0) {
+    return *this;
+  }
 
   std::vector<double> x, y, ang_prov, old_vel, len;
   std::vector<PathDirection> old_dir;
-- 
2.43.0


From c9041cae09ed1ffe52ea5375f9edd30b66649d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 43/63] fix: load paths whatever the decimal separator of the
 locale

---
 src/fields2cover/types/Path.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 7d1e280..2512eb3 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -333,6 +333,7 @@ void Path::saveToFile(const std::string& file, size_t precision) const {
 
 void Path::loadFile(const std::string& file) {
   std::ifstream in(file);
+  in.imbue(std::locale::classic());  // As it was written
   double x, y, z, ang, vel, len, dir, d_type;
   while (in >> x >> y >> z >> ang >> vel >> len >> dir >> d_type) {
     PathState s;
-- 
2.43.0


From e19c650e474ccb9b5ff200c7f21f4380d8a99f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 44/63] fix: reading the ends or bounds of an empty path

---
 src/fields2cover/types/Path.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 2512eb3..ec2f8d1 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -111,6 +111,7 @@ size_t Path::size() const {
 }
 
 double Path::getDimMinX() const {
+  if (this->size() == 0) { return 0.0;}
   return std::min_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getX() < s2.point.getX();
@@ -118,6 +119,7 @@ double Path::getDimMinX() const {
 }
 
 double Path::getDimMinY() const {
+  if (this->size() == 0) { return 0.0;}
   return std::min_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getY() < s2.point.getY();
@@ -125,6 +127,7 @@ double Path::getDimMinY() const {
 }
 
 double Path::getDimMaxX() const {
+  if (this->size() == 0) { return 0.0;}
   return std::max_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getX() < s2.point.getX();
@@ -132,6 +135,7 @@ double Path::getDimMaxX() const {
 }
 
 double Path::getDimMaxY() const {
+  if (this->size() == 0) { return 0.0;}
   return std::max_element(this->begin(), this->end(),
       [](const PathState& s1, const PathState& s2) {
         return s1.point.getY() < s2.point.getY();
@@ -254,10 +258,12 @@ PathState Path::at(double len) const {
 }
 
 Point Path::atStart() const {
+  if (this->size() == 0) { return {};}
   return states_[0].point;
 }
 
 Point Path::atEnd() const {
+  if (this->size() == 0) { return {};}
   return states_.back().atEnd();
 }
 
@@ -434,7 +440,9 @@ LineString Path::toLineString() const {
   for (auto&& s : this->states_) {
     line.addPoint(s.point);
   }
-  line.addPoint(this->atEnd());
+  if (this->size() > 0) {
+    line.addPoint(this->atEnd());
+  }
   return line;
 }
 
-- 
2.43.0


From 0f62cfdc34a9e8b53fe4777e5da505411b5ed766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 45/63] fix: cached turns ignore the turning speed and the
 discretization

The cache of turns is looked up by curvature limits, distance and angles.
A turn planned again for a robot with another turning speed, or after
setDiscretization, was returned with the speed and spacing of the first.
---
 src/fields2cover/path_planning/turning_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..1cc40b2 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -83,6 +83,8 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
   std::vector<int> v_turn {
         static_cast<int>(1e3 * robot.getMaxCurv()),
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
+        static_cast<int>(1e3 * robot.getTurnVel()),
+        static_cast<int>(1e6 * discretization),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
         static_cast<int>(1e3 * end_angle)
-- 
2.43.0


From 0a3a805d8d69886f741c0c9d993c1fcbf88eea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 46/63] fix: plan the path of a route that has only a
 connection

The swaths before the last connection were read from an empty vector.
---
 src/fields2cover/path_planning/path_planning.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index f4723ab..a4db751 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -19,8 +19,10 @@ F2CPath PathPlanning::planPath(const F2CRobot& robot,
     path += planPath(robot, route.getSwaths(i), turn);
   }
   if (route.sizeConnections() > route.sizeVectorSwaths()) {
+    auto last_swaths = (route.sizeVectorSwaths() > 0) ?
+      route.getLastSwaths() : F2CSwaths();
     path += planPathForConnection(robot,
-      route.getLastSwaths(), route.getLastConnection(), F2CSwaths(), turn);
+      last_swaths, route.getLastConnection(), F2CSwaths(), turn);
   }
   return path;
 }
-- 
2.43.0


From 5163b36e74229e83e6282dff9018962d9396dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 47/63] fix: straight connections along the x axis taken for
 corners

Directions just below and just above zero differ by almost a turn when
subtracted, so points of a straight line were taken for corners.
---
 src/fields2cover/path_planning/path_planning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index a4db751..c79e982 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -121,7 +121,7 @@ std::vector<std::pair<F2CPoint, double>> PathPlanning::simplifyConnection(
   for (int i = 1; i < mp.size() - 1; ++i) {
     double ang_in  = (mp[i] - mp[i-1]).getAngleFromPoint();
     double ang_out = (mp[i+1] - mp[i]).getAngleFromPoint();
-    if (fabs(ang_in - ang_out) > 0.1) {
+    if (F2CPoint::getAngleDiffAbs(ang_in, ang_out) > 0.1) {
       vp.emplace_back(mp[i]);
     }
   }
-- 
2.43.0


From 5c0ecce893e342de685be40aca7c3001858bc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 48/63] fix: plan a route that starts or ends with a connection
 of one point

The heading at the point was asked of the connection, which has none with a
single point and throws. Such a connection is made when the requested start
is the end of a swath, or a route is given only its first or last point.
---
 src/fields2cover/path_planning/path_planning.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index c79e982..c840e98 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -56,18 +56,25 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
   if (s1.size() > 0) {
     p1 = s1.back().endPoint();
     ang1 = s1.back().getOutAngle();
-  } else if (mp.size() > 0) {
+  } else if (mp.size() > 1) {
     p1 = mp[0];
     ang1 = mp.getOutAngle(0);
+  } else if (mp.size() == 1 && s2.size() > 0 &&
+      mp[0] != s2[0].startPoint()) {
+    p1 = mp[0];
+    ang1 = (s2[0].startPoint() - p1).getAngleFromPoint();
   } else {
     return {};
   }
   if (s2.size() > 0) {
     p2 = s2[0].startPoint();
     ang2 = s2[0].getInAngle();
-  } else if (mp.size() > 0) {
+  } else if (mp.size() > 1) {
     p2 = mp.getLastPoint();
     ang2 = mp.getInAngle(mp.size()-1);
+  } else if (mp.size() == 1 && mp[0] != p1) {
+    p2 = mp[0];
+    ang2 = (p2 - p1).getAngleFromPoint();
   } else {
     return {};
   }
-- 
2.43.0


From 9efff7b593fa53019e70beb381026232bca3a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 49/63] fix: clones of geometries keep only 15 digits of their
 coordinates

---
 include/fields2cover/types/Geometries_impl.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..2cb5da5 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -17,9 +17,8 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
-  SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
-  return cloned;
+  // The text of a geometry keeps only 15 digits of its coordinates.
+  return SAMETYPE(*this->data_);
 }
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
-- 
2.43.0


From 484caaf369a5b94d25fde78790523e3fbee4b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 50/63] fix: route of a start point that is the end of a swath

---
 .../route_planning/route_planner_base.cpp     | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..fed0cef 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -149,7 +149,9 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
 std::vector<long long int> RoutePlannerBase::computeBestRoute(
     const F2CGraph2D& cov_graph, bool show_log, long int time_limit_seconds,
     bool use_guided_local_search) const {
-  int depot_id = static_cast<int>(cov_graph.numNodes()-1);
+  // The start point may also be the end of a swath
+  int depot_id = static_cast<int>(this->r_start_end ?
+      cov_graph.nodeToIndex(*this->r_start_end) : cov_graph.numNodes()-1);
   const ortools::RoutingIndexManager::NodeIndex depot{depot_id};
   ortools::RoutingIndexManager manager(cov_graph.numNodes(), 1, depot);
   ortools::RoutingModel routing(manager);
@@ -191,11 +193,17 @@ std::vector<long long int> RoutePlannerBase::computeBestRoute(
 }
 
 F2CRoute RoutePlannerBase::transformSolutionToRoute(
-    const std::vector<long long int>& route_ids,
+    const std::vector<long long int>& v_route,
     const F2CSwathsByCells& swaths_by_cells,
     const F2CGraph2D& coverage_graph,
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
+  std::vector<long long int> route_ids {v_route};
+  if (r_start_end) {
+    const long long int depot = coverage_graph.nodeToIndex(*r_start_end);
+    route_ids.insert(route_ids.begin(), depot);
+    route_ids.emplace_back(depot);
+  }
   const size_t NS = swaths_by_cells.sizeTotal();
   for (int i = 0; i < route_ids.size()-2; ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
@@ -206,16 +214,20 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
         if (route.isEmpty() && r_start_end) {
           route.addConnection(shortest_graph.shortestPath(
                 *r_start_end, swath.startPoint()));
+          route.addSwath(swath);
+        } else {
+          route.addSwath(swath, shortest_graph);
         }
-        route.addSwath(swath, shortest_graph);
         break;
       } else if (p_e == swath.startPoint() && p_s == swath.endPoint()) {
         swath.reverse();
         if (route.isEmpty() && r_start_end) {
           route.addConnection(shortest_graph.shortestPath(
                 *r_start_end, swath.startPoint()));
+          route.addSwath(swath);
+        } else {
+          route.addSwath(swath, shortest_graph);
         }
-        route.addSwath(swath, shortest_graph);
         break;
       }
     }
-- 
2.43.0


From ac0a2be24977702e7a09c1d4442f5b0a0bb2faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 51/63] fix: swaths next to a corner were cut off from the
 headland network

---
 src/fields2cover/route_planning/route_planner_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index fed0cef..c111616 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -75,7 +75,9 @@ F2CGraph2D RoutePlannerBase::createShortestGraph(
 
         F2CLineString border {g.indexToNode(from), g.indexToNode(to)};
         for (auto&& n : nodes) {
-          if (n != border[0] && n != border[1] && n.distance(border) < d_tol) {
+          // Nodes almost at the ends of the edge are other nodes too
+          const size_t id = g.nodeToIndex(n);
+          if (id != from && id != to && n.distance(border) < d_tol) {
             g.addEdge(border[0], n);
             g.addEdge(n, border[1]);
             g.removeEdge(border[0], border[1]);
-- 
2.43.0


From d981399038da73a7ee9d24408d6c231f36ffa651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 52/63] fix: null geometries of rings out of range and of
 operations GEOS rejects were dereferenced

---
 include/fields2cover/types/Geometries_impl.hpp |  3 +++
 src/fields2cover/types/Cell.cpp                | 10 ++++++++++
 src/fields2cover/types/Cells.cpp               | 13 +++++++++----
 src/fields2cover/types/MultiLineString.cpp     |  3 +++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 2cb5da5..1cbe98d 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -25,6 +25,9 @@ template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::simplify(
     double d_tol) const {
   OGRGeometry* s = this->data_->SimplifyPreserveTopology(d_tol);
+  if (!s) {
+    throw std::runtime_error("Geometry cannot be simplified");
+  }
   SAMETYPE f2c_s(s);
   OGRGeometryFactory::destroyGeometry(s);
   return f2c_s;
diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 6c71315..6f1c217 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -16,6 +16,9 @@ Cell::Cell() {
 }
 
 Cell::Cell(const OGRGeometry* geom) {
+  if (!geom) {
+    throw std::invalid_argument("Cell(const OGRGeometry*): No geometry");
+  }
   if (wkbFlatten(geom->getGeometryType()) == OGRwkbGeometryType::wkbPolygon) {
     this->data_ =
       std::shared_ptr<OGRPolygon>(downCast<OGRPolygon*>(geom->clone()),
@@ -130,10 +133,17 @@ void Cell::addGeometry(const LinearRing& ring) {
 }
 
 const LinearRing Cell::getExteriorRing() const {
+  if (!this->data_->getExteriorRing()) {
+    throw std::out_of_range("Cell does not contain an exterior ring");
+  }
   return LinearRing(this->data_->getExteriorRing());
 }
 
 const LinearRing Cell::getInteriorRing(size_t i) const {
+  if (i >= static_cast<size_t>(this->data_->getNumInteriorRings())) {
+    throw std::out_of_range(
+        "Cell does not contain interior ring " + std::to_string(i));
+  }
   return LinearRing(this->data_->getInteriorRing(i));
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 59dddcf..d3c110e 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -17,6 +17,9 @@ Cells::Cells() {
 }
 
 Cells::Cells(const OGRGeometry* geom) {
+  if (!geom) {
+    throw std::invalid_argument("Cells(const OGRGeometry*): No geometry");
+  }
   if (wkbFlatten(geom->getGeometryType()) == OGRwkbGeometryType::wkbPolygon) {
     this->data_ = std::shared_ptr<OGRMultiPolygon>(downCast<OGRMultiPolygon*>(
         OGRGeometryFactory::createGeometry(wkbMultiPolygon)),
@@ -114,13 +117,11 @@ const Cell Cells::getCell(size_t i) const {
 }
 
 const LinearRing Cells::getCellBorder(size_t i) const {
-  return LinearRing(
-      downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->getExteriorRing());
+  return this->getCell(i).getExteriorRing();
 }
 
 const LinearRing Cells::getInteriorRing(size_t i_cell, size_t i_ring) const {
-  return LinearRing(downCast<OGRPolygon*>(this->data_->getGeometryRef(i_cell))
-      ->getInteriorRing(i_ring));
+  return this->getCell(i_cell).getInteriorRing(i_ring);
 }
 
 void Cells::addGeometry(const Cell& c) {
@@ -128,6 +129,10 @@ void Cells::addGeometry(const Cell& c) {
 }
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
+  if (i >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i));
+  }
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
       ring.clone().closeRing().get());
 }
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 18919b1..8d9468f 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -43,6 +43,9 @@ void MultiLineString::operator*=(double b) {
 }
 
 void MultiLineString::append(const OGRGeometry* geom) {
+  if (!geom) {
+    throw std::invalid_argument("MultiLineString: No geometry to append");
+  }
   if (wkbFlatten(geom->getGeometryType()) ==
       OGRwkbGeometryType::wkbLineString) {
     if (!geom->IsEmpty()) {
-- 
2.43.0


From 1dba5822d1c76484f55d9ae94189f439a08caaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 53/63] fix: closest point of a line or border without segments
 was read out of bounds

---
 src/fields2cover/types/Cell.cpp       | 3 +++
 src/fields2cover/types/Cells.cpp      | 3 +++
 src/fields2cover/types/LineString.cpp | 3 +++
 src/fields2cover/types/LinearRing.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 6f1c217..0ace16a 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -245,6 +245,9 @@ Point Cell::closestPointOnBorderTo(const Point& p) const {
     ps.emplace_back(ring.closestPointTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("Cell without border has no closest point");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index d3c110e..af5518f 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -259,6 +259,9 @@ Point Cells::closestPointOnBorderTo(const Point& p) const {
     ps.emplace_back(cell.closestPointOnBorderTo(p));
     dist.emplace_back(ps.back().distance(p));
   }
+  if (ps.empty()) {
+    throw std::out_of_range("Cells without border has no closest point");
+  }
   return ps[std::min_element(dist.begin(), dist.end()) - dist.begin()];
 }
 
diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..09f4562 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -130,6 +130,9 @@ double LineString::endAngle() const {
 Point LineString::closestPointTo(const Point& p) const {
   std::vector<double> dist;
   std::vector<Point> ps;
+  if (this->size() < 2) {
+    return this->startPoint();  // Throws if there are no points
+  }
   for (size_t i = 0; i < this->size() - 1; ++i) {
     ps.emplace_back(p.closestPointInSegment(this->at(i), this->at(i+1)));
     dist.emplace_back(ps.back().distance(p));
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..b904d40 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -136,6 +136,9 @@ LinearRing& LinearRing::closeRing() {
 Point LinearRing::closestPointTo(const Point& p) const {
   std::vector<double> dist;
   std::vector<Point> ps;
+  if (this->size() < 2) {
+    return this->startPoint();  // Throws if there are no points
+  }
   for (size_t i = 0; i < this->size() - 1; ++i) {
     ps.emplace_back(p.closestPointInSegment(this->at(i), this->at(i+1)));
     dist.emplace_back(ps.back().distance(p));
-- 
2.43.0


From 627d0a33f36a19d2c8e76dfccae26402f050fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 54/63] fix: continuity of no angles read the first one

---
 include/fields2cover/types/Geometry_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index dc40a8a..f5ba477 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -193,6 +193,9 @@ double Geometry<T, R>::getAngContinuity(double prev_val, double val) {
 template <class T, OGRwkbGeometryType R>
 std::vector<double> Geometry<T, R>::getAngContinuity(
     const std::vector<double>& val) {
+  if (val.empty()) {
+    return {};
+  }
   std::vector<double> res {val[0]};
   for (size_t i = 1; i < val.size(); ++i) {
     res.emplace_back(getAngContinuity(res[i - 1], val[i]));
-- 
2.43.0


From 255623eb0510a789fe58180f2c147529df1f9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 55/63] fix: adding a connection of the route to itself read
 freed memory

---
 src/fields2cover/types/Route.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index a647983..0ed40a2 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -73,10 +73,12 @@ void Route::addConnection(const Point& p) {
 }
 
 void Route::addConnection(const MultiPoint& mp) {
-  if (mp.size() < 1) {
+  // A copy, as mp may be one of the connections of this route
+  const MultiPoint points {mp.clone()};
+  if (points.size() < 1) {
     this->addConnection();
   }
-  for (auto&& p : mp) {
+  for (auto&& p : points) {
     this->addConnection(p);
   }
 }
-- 
2.43.0


From d7b5477869737e74b891db88e0a68d209f89a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 56/63] fix: swaths without width were generated forever

---
 src/fields2cover/swath_generator/swath_generator_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/swath_generator/swath_generator_base.cpp b/src/fields2cover/swath_generator/swath_generator_base.cpp
index 3a0b5e6..2db9075 100644
--- a/src/fields2cover/swath_generator/swath_generator_base.cpp
+++ b/src/fields2cover/swath_generator/swath_generator_base.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <stdexcept>
 #include "fields2cover/swath_generator/swath_generator_base.h"
 
 namespace f2c::sg {
@@ -42,6 +43,9 @@ F2CSwathsByCells SwathGeneratorBase::generateSwaths(double angle,
 
 F2CSwaths SwathGeneratorBase::generateSwaths(double angle,
     double op_width, const F2CCell& poly) {
+  if (!(op_width > 0)) {
+    throw std::invalid_argument("Width of the swaths has to be positive");
+  }
   auto rot_poly {F2CPoint(0.0, 0.0).rotateFromPoint(-angle, poly)};
 
   double field_height {rot_poly.getHeight()};
-- 
2.43.0


From 5b154fd62d56c1930899576f14604c8fbcc8ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 57/63] fix: validity of a turn without states read its last
 state

---
 src/fields2cover/path_planning/turning_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index 1cc40b2..162f02e 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -102,6 +102,9 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
 bool TurningBase::isTurnValid(const types::Path& path,
     double dist_start_end, double end_angle,
     double max_dist, double max_rot_error) {
+  if (path.size() < 1) {
+    return false;
+  }
   for (auto&& s : path) {
     if (s.point.getY() < -max_dist) {
       return false;
-- 
2.43.0


From a53a735f00305b66991817df35e9159f3ef4e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 58/63] fix: routes without swaths used nodes that do not exist

---
 src/fields2cover/route_planning/route_planner_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index c111616..1dd8773 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -22,6 +22,9 @@ F2CRoute RoutePlannerBase::genRoute(
     const F2CCells& cells, const F2CSwathsByCells& swaths,
     bool show_log, double d_tol, bool redirect_swaths,
     long int time_limit_seconds, bool search_for_optimum) {
+  if (swaths.sizeTotal() < 1) {
+    return F2CRoute();
+  }
   F2CGraph2D shortest_graph = createShortestGraph(cells, swaths, d_tol);
 
   F2CGraph2D cov_graph = createCoverageGraph(
-- 
2.43.0


From cfd75e6d6f4e19899c8158dd091af2db92668ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 59/63] fix: routes of less than three nodes were read out of
 bounds

---
 src/fields2cover/route_planning/route_planner_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 1dd8773..89b154a 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -210,7 +210,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     route_ids.emplace_back(depot);
   }
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
+  for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
     for (int j = 0; j < NS; ++j) {
-- 
2.43.0


From f7f4cee8a484208f4e59ce0780f835a6bd4c0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 60/63] fix: planning in one call with no headland swaths read
 a ring that does not exist

---
 src/fields2cover.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..b86434b 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,8 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      fast_hl_rings = hl_swaths.empty() ? cells :
+        hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


From 497165e2af50e9e1196ad4bac4566357dcd1423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 61/63] fix: assigning to a point that was moved from
 dereferenced null, so that swapping, sorting, reversing or inserting in lists
 of points crashed

---
 src/fields2cover/types/Point.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..c2aa3f2 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -21,6 +21,10 @@ Point::Point(Point&& p) = default;
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
+  if (!this->data_) {  // Its data was moved to another point
+    this->data_ = p.clone().data_;
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
@@ -28,6 +32,10 @@ Point& Point::operator=(Point&& p) {
 }
 
 Point& Point::operator=(const Point& p) {
+  if (!this->data_) {  // Its data was moved to another point
+    this->data_ = p.clone().data_;
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
-- 
2.43.0


From 6250226b899ffb5d91399bf640944a7706b19410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:38 +0000
Subject: [PATCH 62/63] fix: a bent splitting line was sometimes ignored, as
 the strip cut along it came out invalid

---
 src/fields2cover/types/Cells.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index af5518f..352ecaa 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -183,8 +183,8 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  // Pointed ends, so that a line that ends in a vertex also cuts around it.
-  return this->difference(destroyResGeom<Cells>(line->Buffer(1e-8, 1)));
+  // Round ends, so that a line that ends in a vertex also cuts around it.
+  return this->difference(destroyResGeom<Cells>(line->Buffer(1e-8, 2)));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-- 
2.43.0


From 8938b76c92d81998962f56507c0a4912aaa72330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:26 +0000
Subject: [PATCH 63/63] fix: Cells::buffer of a point or several points was
 empty

---
 include/fields2cover/types/Geometry_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index f5ba477..6ca37e4 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -298,7 +298,10 @@ OGRGeometry* Geometry<T, R>::OGRBuffer(double dfDist, int side) const {
   GEOSGeom hGeosGeom = this->data_->exportToGEOS(hGEOSCtxt);
   if (hGeosGeom != nullptr) {
     GEOSBufferParams* hBufParams = GEOSBufferParams_create_r(hGEOSCtxt);
+    // With flat caps GEOS gives nothing around points
     GEOSBufferParams_setEndCapStyle_r(hGEOSCtxt, hBufParams,
+        this->data_->getDimension() == 0 ?
+        GEOSBufCapStyles::GEOSBUF_CAP_ROUND :
         GEOSBufCapStyles::GEOSBUF_CAP_FLAT);
     GEOSBufferParams_setJoinStyle_r(hGEOSCtxt, hBufParams,
         GEOSBufJoinStyles::GEOSBUF_JOIN_MITRE);
-- 
2.43.0

