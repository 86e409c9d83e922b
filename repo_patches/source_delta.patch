From d8abedc7392b530826f779d79d78fae1eefbb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 01/64] fix: move assignment of points to an inverted line
 string keeps their order

utils::invert returns the reversed copy; its result was discarded, so the points
were stored in the wrong direction.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..d0bb866 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      rhs = utils::invert(rhs);
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From d84254601791dfefa7cd63e0a9508bc888b87ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 02/64] fix: findNearest with a count of zero does not access
 an empty result list

---
 lanelet2_core/src/LaneletMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..8a87f82 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -972,7 +972,7 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   NSmallestElements<RetT> closest(count);
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
-    if (closest.full() && dBox > closest.values().back().first) {
+    if (closest.full() && (closest.empty() || dBox > closest.values().back().first)) {
       return true;
     }
     closest.insert(distance2d(prim, pt), prim);
-- 
2.43.0


From 13d9f1dd3b8cb6c9847108cfdc060cac31b91247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 03/64] fix: adding an element to a submap again does not
 duplicate it in the spatial and usage lookups

---
 lanelet2_core/src/LaneletMap.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 8a87f82..026b10a 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -381,38 +381,48 @@ typename PrimitiveLayer<T>::ConstPrimitiveT PrimitiveLayer<T>::get(Id id) const
 
 template <typename T>
 void PrimitiveLayer<T>::add(const PrimitiveLayer<T>::PrimitiveT& element) {
+  if (!elements_.insert({element.id(), element}).second) {
+    return;  // already part of this layer
+  }
   for (const auto& elem : element) {
     tree_->usage.ownedLookup.insert(std::make_pair(elem, element));
   }
-  elements_.insert({element.id(), element});
   tree_->insert(element);
 }
 
 template <>
 void PrimitiveLayer<Area>::add(const Area& area) {
+  if (!elements_.insert({area.id(), area}).second) {
+    return;  // already part of this layer
+  }
   tree_->usage.add(area);
-  elements_.insert({area.id(), area});
   tree_->insert(area);
 }
 
 template <>
 void PrimitiveLayer<Lanelet>::add(const Lanelet& ll) {
+  if (!elements_.insert({ll.id(), ll}).second) {
+    return;  // already part of this layer
+  }
   tree_->usage.add(ll);
-  elements_.insert({ll.id(), ll});
   tree_->insert(ll);
 }
 
 template <>
 void PrimitiveLayer<Point3d>::add(const Point3d& p) {
+  if (!elements_.insert({p.id(), p}).second) {
+    return;  // already part of this layer
+  }
   tree_->usage.add(p);
-  elements_.insert({p.id(), p});
   tree_->insert(p);
 }
 
 template <>
 void PrimitiveLayer<RegulatoryElementPtr>::add(const PrimitiveLayer<RegulatoryElementPtr>::PrimitiveT& element) {
+  if (!elements_.insert({element->id(), element}).second) {
+    return;  // already part of this layer
+  }
   tree_->usage.add(element);
-  elements_.insert({element->id(), element});
   tree_->insert(element);
 }
 
-- 
2.43.0


From acf745efab92f9089b707204733f7a465887f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 04/64] fix: findUsagesInLanelets and findUsagesInAreas list
 each user once

---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 026b10a..77014e1 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -805,6 +805,7 @@ ConstLanelets findUsagesInLanelets(const LaneletMapLayers& map, const ConstPoint
   auto llts = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls); });
   auto lltsInv = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls.invert()); });
   llts.insert(llts.end(), lltsInv.begin(), lltsInv.end());
+  std::sort(llts.begin(), llts.end(), [](auto& l1, auto& l2) { return l1.id() < l2.id(); });
   auto remove = std::unique(llts.begin(), llts.end());
   llts.erase(remove, llts.end());
   return llts;
@@ -815,6 +816,7 @@ ConstAreas findUsagesInAreas(const LaneletMapLayers& map, const ConstPoint3d& p)
   auto areas = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls); });
   auto areasInv = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls.invert()); });
   areas.insert(areas.end(), areasInv.begin(), areasInv.end());
+  std::sort(areas.begin(), areas.end(), [](auto& a1, auto& a2) { return a1.id() < a2.id(); });
   auto remove = std::unique(areas.begin(), areas.end());
   areas.erase(remove, areas.end());
   return areas;
-- 
2.43.0


From 283d854dda23914f59ccd80e25ba6589308cac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 05/64] fix: utils::has for areas also looks at inner bounds
 and regulatory elements

---
 lanelet2_core/include/lanelet2_core/primitives/Area.h | 2 +-
 lanelet2_core/src/Lanelet.cpp                         | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/Area.h b/lanelet2_core/include/lanelet2_core/primitives/Area.h
index ab42458..3b4b5cc 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Area.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Area.h
@@ -321,7 +321,7 @@ namespace utils {
  * elements, only ids of regulatory elements itself.
  * A similar implementation exists for linestrings and regulatory elements.
  */
-inline bool has(const ConstArea& ll, Id id) { return has(ll.outerBoundPolygon(), id); }
+bool has(const ConstArea& ll, Id id);
 }  // namespace utils
 
 inline bool operator==(const ConstArea& lhs, const ConstArea& rhs) { return lhs.constData() == rhs.constData(); }
diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..3802fa4 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -309,6 +309,14 @@ bool has(const ConstLanelet& ll, Id id) {
   return has(ll.leftBound(), id) || has(ll.rightBound(), id) ||
          std::any_of(regelems.begin(), regelems.end(), [&id](const auto& elem) { return elem->id() == id; });
 }
+
+bool has(const ConstArea& ll, Id id) {
+  auto inner = ll.innerBoundPolygons();
+  auto regelems = ll.regulatoryElements();
+  return has(ll.outerBoundPolygon(), id) ||
+         std::any_of(inner.begin(), inner.end(), [&id](const auto& poly) { return has(poly, id); }) ||
+         std::any_of(regelems.begin(), regelems.end(), [&id](const auto& elem) { return elem->id() == id; });
+}
 }  // namespace utils
 
 CompoundPolygon3d ConstLanelet::polygon3d() const { return constData()->polygon(); }
-- 
2.43.0


From 982e48df8345aed5debc796737725edbb0a90cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 06/64] fix: distance2d to a regulatory element ignores
 parameters without points instead of throwing

---
 lanelet2_core/src/RegulatoryElementGeometry.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/src/RegulatoryElementGeometry.cpp b/lanelet2_core/src/RegulatoryElementGeometry.cpp
index 8ce4e47..f662a7b 100644
--- a/lanelet2_core/src/RegulatoryElementGeometry.cpp
+++ b/lanelet2_core/src/RegulatoryElementGeometry.cpp
@@ -51,16 +51,25 @@ struct Bbox3dVisitor : public RuleParameterVisitor {  // NOLINT
 struct DistanceVisitor : public RuleParameterVisitor {  // NOLINT
   explicit DistanceVisitor(BasicPoint2d p) : pdist{std::move(p)} {}
   void operator()(const ConstPoint3d& p) override { d = std::min(d, distance(traits::to2D(p), pdist)); }
-  void operator()(const ConstLineString3d& l) override { d = std::min(d, distance2d(l, pdist)); }
-  void operator()(const ConstPolygon3d& p) override { d = std::min(d, distance2d(p, pdist)); }
+  // primitives without points have no distance and are ignored
+  void operator()(const ConstLineString3d& l) override {
+    if (!l.empty()) {
+      d = std::min(d, distance2d(l, pdist));
+    }
+  }
+  void operator()(const ConstPolygon3d& p) override {
+    if (!p.empty()) {
+      d = std::min(d, distance2d(p, pdist));
+    }
+  }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    if (ll.expired() || ll.lock().polygon3d().empty()) {
       return;
     }
     d = std::min(d, distance2d(ll.lock(), pdist));
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    if (ar.expired() || ar.lock().outerBoundPolygon().empty()) {
       return;
     }
     d = std::min(d, distance2d(ar.lock(), pdist));
-- 
2.43.0


From f24c2f70cdc76f6cde6714d56d8ed98b8959dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 07/64] fix: ids of all primitives a map is constructed from
 are registered as in use

---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 77014e1..038c50e 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From f2c875375564edf214cefbee832eeff9900b0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 08/64] fix: centerline of a lanelet whose left bound is only
 the shared first point does not read past the bound

---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 3802fa4..627862e 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -194,7 +194,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && std::next(leftCurrent) != leftBound.end()) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From 417a2745dcec37083fc9eaebefbdf0c0239bdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 09/64] fix: velocity attributes with an unknown unit are not
 read with the wrong unit

---
 lanelet2_core/src/Attribute.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..ea41e50 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -17,13 +17,13 @@ Optional<Velocity> getUnit(const std::string& value, size_t pos) {
   auto unit = value.substr(pos);
   const auto flags = std::regex::ECMAScript;
   // try to match unit
-  if (std::regex_search(unit, std::regex("\\s*(m/s)|(mps)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(m/s|mps)\\s*", flags))) {
     return 1_mps;
   }
-  if (std::regex_search(unit, std::regex("\\s*(km/h)|(kmh)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(km/h|kmh)\\s*", flags))) {
     return 1_kmh;
   }
-  if (std::regex_search(unit, std::regex("\\s*(m/h)|(mph)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(m/h|mph)\\s*", flags))) {
     return 1_mph;
   }
   return {};
-- 
2.43.0


From a2f17b2e7883588a6e181d200230ec1c9fef58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 10/64] fix: attributes made from numbers keep their value in
 their text

---
 lanelet2_core/src/Attribute.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index ea41e50..8e3095e 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -2,6 +2,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/variant/get.hpp>
+#include <cmath>
 #include <regex>
 
 #include "lanelet2_core/Exceptions.h"
@@ -29,6 +30,15 @@ Optional<Velocity> getUnit(const std::string& value, size_t pos) {
   return {};
 }
 
+//! text for a number: the usual six decimals unless the value would not be read back from them
+std::string toText(double value, double tolerance = 0.) {
+  auto text = std::to_string(value);
+  if (std::abs(std::stod(text) - value) <= tolerance * std::abs(value)) {
+    return text;
+  }
+  return boost::lexical_cast<std::string>(value);
+}
+
 template <typename T>
 T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
   auto newCache = std::make_shared<Attribute::Cache>(value);
@@ -52,9 +62,9 @@ Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(ca
 
 Attribute::Attribute(int value) : value_(std::to_string(value)) { store(cache_, value); }
 
-Attribute::Attribute(double value) : value_(std::to_string(value)) { store(cache_, value); }
+Attribute::Attribute(double value) : value_(toText(value)) { store(cache_, value); }
 
-Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQuantity(value).value())} {
+Attribute::Attribute(const Velocity& value) : value_{toText(units::KmHQuantity(value).value(), 1e-15)} {
   store(cache_, value);
 }
 
-- 
2.43.0


From 9979be43789399a3587bce5592e1d9fd05e2efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 11/64] fix: typed attribute access does not use a cached value
 that a concurrent reader may have replaced

---
 lanelet2_core/src/Attribute.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 8e3095e..4327c58 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -47,12 +47,11 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
 }
 
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
+  // the value has to be copied: other readers may replace the cache at any time
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
-  if (!c) {
-    return nullptr;
-  }
-  return boost::get<T>(&*cache);
+  const auto* val = c ? boost::get<T>(c.get()) : nullptr;
+  return val != nullptr ? Optional<T>(*val) : Optional<T>();
 }
 }  // namespace
 
@@ -70,8 +69,8 @@ Attribute::Attribute(const Velocity& value) : value_{toText(units::KmHQuantity(v
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
+  auto val = load<bool>(cache_);
+  if (val) {
     return *val;
   }
   // need to compute value
@@ -90,8 +89,8 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
+  auto val = load<double>(cache_);
+  if (val) {
     return *val;
   }
   // need to compute value
@@ -104,8 +103,8 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
+  auto val = load<Id>(cache_);
+  if (val) {
     return *val;
   }
   // need to compute value
@@ -118,8 +117,8 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
+  auto val = load<int>(cache_);
+  if (val) {
     return *val;
   }
   // need to compute value
@@ -132,8 +131,8 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
+  auto val = load<Velocity>(cache_);
+  if (val) {
     return *val;
   }
   // need to compute value
-- 
2.43.0


From d3ec2cd9f19682716ea38dcf45d113729626b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 12/64] fix: distance between line strings if one is a single
 point or has no extent

The closest points of two segments were computed as if the first point of
the first segment was closest whenever the second segment had zero length.
---
 lanelet2_core/src/LineStringGeometry.cpp | 39 +++++++++++++-----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 5cf07b6..55481eb 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -55,6 +55,24 @@ inline LineParams calculateLineParams(double a, double b, double c, double d, do
   return lp;
 }
 
+template <typename PointT>
+// NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
+PointT projectedPoint(PointT l1, PointT l2, PointT p) {
+  PointT v = l2 - l1;
+  PointT w = p - l1;
+
+  const auto c1 = w.dot(v);
+  if (c1 <= 0) {
+    return l1;
+  }
+  const auto c2 = v.dot(v);
+  if (c2 <= c1) {
+    return l2;
+  }
+  const auto b = c1 / c2;
+  return v * b + l1;
+}
+
 template <typename PointT>
 // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
 std::pair<PointT, PointT> projectedPoint(PointT p1, PointT p2, PointT q1, PointT q2) {
@@ -65,6 +83,9 @@ std::pair<PointT, PointT> projectedPoint(PointT p1, PointT p2, PointT q1, PointT
   double a = u.dot(u);
   double b = u.dot(v);
   double c = v.dot(v);
+  if (c == 0.) {  // the second segment is a point
+    return {projectedPoint(p1, p2, q1), q1};
+  }
   double d = u.dot(w);
   double e = v.dot(w);
   auto den = a * c - b * b;
@@ -101,24 +122,6 @@ std::pair<PointT, PointT> projectedPoint(PointT p1, PointT p2, PointT q1, PointT
   return {p1 + (sc * u), q1 + (tc * v)};  // return the closest distance
 }
 
-template <typename PointT>
-// NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
-PointT projectedPoint(PointT l1, PointT l2, PointT p) {
-  PointT v = l2 - l1;
-  PointT w = p - l1;
-
-  const auto c1 = w.dot(v);
-  if (c1 <= 0) {
-    return l1;
-  }
-  const auto c2 = v.dot(v);
-  if (c2 <= c1) {
-    return l2;
-  }
-  const auto b = c1 / c2;
-  return v * b + l1;
-}
-
 template <typename RangeT, typename Func>
 void distForAllSegments(const RangeT& r, Func f) {
   if (r.size() == 1) {
-- 
2.43.0


From 19431ee3d5530d618778f97d94d2bf00c822d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 13/64] fix: border distance of polygons ignored the closing
 segment below 50 points

---
 lanelet2_core/src/LineStringGeometry.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 55481eb..15b6083 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -129,9 +129,12 @@ void distForAllSegments(const RangeT& r, Func f) {
   }
   for (auto first = r.begin(), second = r.begin() + 1; second != r.end(); ++first, ++second) {
     if (f(*first, *second) == 0.) {
-      break;
+      return;
     }
   }
+  if (traits::isPolygonT<RangeT>() && r.size() > 1) {
+    f(r.back(), r.front());  // the segment that closes the polygon
+  }
 }
 
 namespace bg = boost::geometry;
-- 
2.43.0


From e70f5c589b15f12be8441bd6456146424d7637e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 14/64] fix: wrong sign of signedDistance at corners of long
 line strings

If the segment after the corner is found as the closest one (R-tree search),
only that segment decided on which side the point is.
---
 .../include/lanelet2_core/geometry/impl/LineString.h      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index a6461cf..03ffaab 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -78,6 +78,14 @@ template <typename LineStringT, typename BasicPointT>
 bool isLeftOf(const LineStringT& ls, const BasicPointT& p, const ProjectedPointInfo<BasicPointT>& ppInfo) {
   BasicPointT pSeg1 = ppInfo.closestSegment.first;
   BasicPointT pSeg2 = ppInfo.closestSegment.second;
+  if (pSeg1 == ppInfo.projectedPoint) {
+    // the segment before is equally close. Continue with that one, so that the corner is considered below.
+    auto segPointIt = findPoint(ls, pSeg1);
+    if (segPointIt != ls.begin() && segPointIt != ls.end()) {
+      pSeg2 = pSeg1;
+      boost::geometry::convert(*std::prev(segPointIt), pSeg1);
+    }
+  }
   bool isLeft = pointIsLeftOf(pSeg1, pSeg2, p);
   if (pSeg2 == ppInfo.projectedPoint) {
     auto nextSegPointIt = std::next(findPoint(ls, pSeg2));
-- 
2.43.0


From 6918aa486da08543189539678e77b53310f1059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 15/64] fix: intersectCenterlines2d reported the distances
 along the other centerline for the wrong line

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
index 39a82a0..e522fdd 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
@@ -102,7 +102,7 @@ BasicPoints2d intersectCenterlines2d(const Lanelet1T& lanelet, const Lanelet2T&
   }
   if (distanceOther != nullptr) {
     std::transform(intersections.begin(), intersections.end(), std::back_inserter(*distanceOther),
-                   [&centerline](const auto& elem) { return toArcCoordinates(centerline, elem).length; });
+                   [&otherCenterline](const auto& elem) { return toArcCoordinates(otherCenterline, elem).length; });
   }
   return intersections;
 }
-- 
2.43.0


From 7ef2248de1df68a9d541e9ad41b4e65812a3d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 16/64] fix: intersects3d of line strings compared points away
 from the crossing

The crossing was projected from height zero, so that on sloped line strings
above (or below) zero the compared points were not above each other.
---
 .../lanelet2_core/geometry/impl/LineString.h  | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 03ffaab..53d49c0 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -612,6 +612,29 @@ inline BasicLineString2d joinSubStrings(const std::vector<BasicLineString2d>& co
   return newLS;
 }
 
+/**
+ * @brief heightAt get the (interpolated) height of a line string where it is closest to a point in 2d
+ */
+template <typename LineString3dT>
+double heightAt(const LineString3dT& lineString, const BasicPoint2d& point) {
+  double height = 0.;
+  double minDist = std::numeric_limits<double>::max();
+  helper::forEachPair(lineString.begin(), lineString.end(), [&](const auto& first, const auto& second) {
+    const BasicPoint3d p1 = utils::toBasicPoint(first);
+    const BasicPoint3d p2 = utils::toBasicPoint(second);
+    const BasicSegment2d segment{utils::to2D(p1), utils::to2D(p2)};
+    const BasicPoint2d projected = lanelet::geometry::project(segment, point);
+    const auto dist = (projected - point).norm();
+    if (dist < minDist) {
+      const auto segmentLength = (segment.second - segment.first).norm();
+      const auto ratio = segmentLength > 0. ? (projected - segment.first).norm() / segmentLength : 0.;
+      minDist = dist;
+      height = p1.z() + ratio * (p2.z() - p1.z());
+    }
+  });
+  return height;
+}
+
 }  // namespace internal
 
 template <typename LineStringIterator>
@@ -786,9 +809,8 @@ IfLS<LineString3dT, bool> intersects3d(const LineString3dT& linestring, const Li
   BasicPoints2d intersections;
   boost::geometry::intersection(ls2d, ols2d, intersections);
   auto distanceSmallerTolerance = [heightTolerance, &linestring, &otherLinestring](const auto& point) {
-    auto pProj1 = project(linestring, BasicPoint3d(point.x(), point.y(), 0));
-    auto pProj2 = project(otherLinestring, BasicPoint3d(point.x(), point.y(), 0));
-    return distance(pProj1, pProj2) < heightTolerance;
+    return std::abs(internal::heightAt(linestring, point) - internal::heightAt(otherLinestring, point)) <
+           heightTolerance;
   };
   return std::any_of(intersections.begin(), intersections.end(), distanceSmallerTolerance);
 }
-- 
2.43.0


From 1185070e553d0c27256c4c17b1a95e089c83a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 17/64] fix: offset to the right keeps its distance at sharp
 corners and reports inversions

---
 .../include/lanelet2_core/geometry/impl/LineString.h          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 53d49c0..374673b 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -434,7 +434,7 @@ inline void checkForInversion(const LineString2dT& oldLS, const BasicLineString2
   for (const auto& p : offsetLS) {
     auto it = tree.qbegin(internal::bgi::nearest(p, 1));
     auto pd = geometry::distance2d(BasicLineString2d{it->first, it->second}, p);
-    if (pd + epsilon < distance) {
+    if (pd + epsilon < std::abs(distance)) {
       throw GeometryError("Possible Lanelet Inversion");
     }
   }
@@ -484,7 +484,7 @@ inline BasicLineString2d shiftConvexSharp(const LineString2dT& lineString, const
   BasicPoint2d firstP = shiftPerpendicular(lineString, idx, distance, true, pv);
   BasicPoint2d lastP = shiftPerpendicular(lineString, idx, distance, false, pv);
   auto alpha = M_PI - std::acos(pv.following.dot(pv.preceding) / (pv.preceding.norm() * pv.following.norm()));
-  auto overshoot = distance * std::tan(M_PI_4 - alpha / 4);
+  auto overshoot = std::abs(distance) * std::tan(M_PI_4 - alpha / 4);
   return {firstP + pv.preceding.normalized() * overshoot, lastP - pv.following.normalized() * overshoot};
 }
 
-- 
2.43.0


From 1f02c82886f7450b180666ea57015c3aca2157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 18/64] fix: AllWayStop::getStopLine returned the stop line of
 another lanelet after a lanelet expired

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..a2d4a8c 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -76,6 +76,22 @@ ConstLineStringsOrPolygons3d getConstLsOrPoly(const RuleParameterMap& params, Ro
                           [](auto& lsOrPoly) { return static_cast<ConstLineStringOrPolygon3d>(lsOrPoly); });
 }
 
+// Stop lines are stored in the order of the yield lanelets, including those that have expired in the meantime.
+Optional<size_t> findYieldIndex(const RuleParameterMap& paramsMap, const ConstLanelet& llt) {
+  auto params = paramsMap.find(RoleName::Yield);
+  if (params == paramsMap.end()) {
+    return {};
+  }
+  auto it = std::find_if(params->second.begin(), params->second.end(), [&llt](const RuleParameter& param) {
+    const auto* weakLlt = boost::get<WeakLanelet>(&param);
+    return weakLlt != nullptr && !weakLlt->expired() && weakLlt->lock() == llt;
+  });
+  if (it == params->second.end()) {
+    return {};
+  }
+  return size_t(std::distance(params->second.begin(), it));
+}
+
 void updateTrafficSigns(TrafficSignsWithType trafficSigns) {
   if (!trafficSigns.type.empty()) {
     for (auto& sign : trafficSigns.trafficSigns) {
@@ -379,12 +395,11 @@ Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) con
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto index = findYieldIndex(parameters(), llt);
+  if (!index) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*index);
 }
 
 Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
@@ -392,12 +407,11 @@ Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto index = findYieldIndex(parameters(), llt);
+  if (!index) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*index);
 }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
@@ -422,6 +436,9 @@ void AllWayStop::addLanelet(const LaneletWithStopLine& lltWithStop) {
   if (!sl.empty() && !lltWithStop.stopLine) {
     throw InvalidInputError("A lanelet without stopline was added, but existing lanelets have a stop line!");
   }
+  if (sl.empty() && !!lltWithStop.stopLine) {
+    parameters()[RoleName::Yield].clear();  // only expired lanelets left, they have no stop line
+  }
   parameters()[RoleName::Yield].emplace_back(lltWithStop.lanelet);
   if (!!lltWithStop.stopLine) {
     parameters()[RoleName::RefLine].emplace_back(*lltWithStop.stopLine);
-- 
2.43.0


From 799c64cd1684c45c92f7bf20857a9e0b9c84da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 19/64] fix: ways and relations lost their 'ele' tag when
 loaded from osm

---
 lanelet2_io/src/OsmFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..9ee0345 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -41,9 +41,11 @@ struct UnresolvedRole {
 
 Attributes tags(const pugi::xml_node& node) {
   Attributes attributes;
+  // the elevation is part of the position of a node, for all other elements it is a tag like any other
+  const bool isNode = std::string(node.name()) == keyword::Node;
   for (auto tag = node.child(keyword::Tag); tag;  // NOLINT
        tag = tag.next_sibling(keyword::Tag)) {
-    if (std::string(tag.attribute(keyword::Key).value()) == keyword::Elevation) {
+    if (isNode && std::string(tag.attribute(keyword::Key).value()) == keyword::Elevation) {
       continue;
     }
     attributes[tag.attribute(keyword::Key).value()] = tag.attribute(keyword::Value).value();
-- 
2.43.0


From ff4526fdb127c9056d90336af1dffe150f142d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 20/64] fix: custom centerlines loaded from osm point in the
 direction of the lanelet

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..e378f8b 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -28,6 +28,18 @@ bool isValid(const LineStrings3d& lss) {
   return boost::geometry::is_valid(ls);
 }
 
+// like the borders, centerlines are stored without a direction. They always point in the direction of the lanelet.
+LineString3d alignToBorder(const LineString3d& center, const LineString3d& border) {
+  if (center.empty() || border.empty()) {
+    return center;
+  }
+  auto endpointDistance = [&border](const LineString3d& ls) {
+    return geometry::distance(to2D(ls.front()), to2D(border.front())) +
+           geometry::distance(to2D(ls.back()), to2D(border.back()));
+  };
+  return endpointDistance(center.invert()) < endpointDistance(center) ? center.invert() : center;
+}
+
 void reverse(LineStrings3d& lss) {
   for (auto& ls : lss) {
     ls = ls.invert();
@@ -143,7 +155,7 @@ class FromFileLoader {  // NOLINT
       Lanelet lanelet(id, left, right, attributes);
       if (findRole(llElem.members, RoleNameString::Centerline) != llElem.members.end()) {
         auto center = getLaneletBorder(llElem, RoleNameString::Centerline);
-        lanelet.setCenterline(center);
+        lanelet.setCenterline(alignToBorder(center, left));
       }
 
       lanelets_.emplace(id, lanelet);
-- 
2.43.0


From e5220b5f32fdb9799d8374be0efe0b17f0da89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 21/64] fix: writing regulatory elements crashed if some of
 several lanelet or area parameters were missing in the map

---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..2b3c02b 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From ee8bc6a838fba65927c50b1724ce287596194825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 22/64] fix: report areas whose last ring is not closed

assembleBoundary dropped an unfinished ring without an error if it was the last
one, so open inner rings or surplus outer bounds vanished silently.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index e378f8b..910b1ef 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -384,6 +384,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From c05d2e2f87701c6710dfa8e2c065bcbf69808a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 23/64] fix: report unreadable binary maps as ParseError

load() documents IOError for files that can not be parsed, but the exceptions of
boost::archive were passed on.
---
 lanelet2_io/src/BinHandler.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 8d22edc..0ad9eb2 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -35,10 +35,15 @@ std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorM
     throw ParseError("Failed open archive " + filename);
   }
   std::unique_ptr<LaneletMap> laneletMap = std::make_unique<LaneletMap>();
-  boost::archive::binary_iarchive ia(fs);
-  ia >> *laneletMap;
   Id idCounter = 0;
-  ia >> idCounter;
+  try {
+    boost::archive::binary_iarchive ia(fs);
+    ia >> *laneletMap;
+    ia >> idCounter;
+  } catch (const std::exception& e) {
+    // boost throws archive_exception, but sizes that were read from an invalid archive can cause other errors
+    throw ParseError("Failed to read archive " + filename + ": " + e.what());
+  }
   utils::registerId(idCounter);
   return laneletMap;
 }
-- 
2.43.0


From 7da798d9ec57f621f496e637e0e35e17076c082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 24/64] fix: UTM projection returned NaN for points on the
 equator 90 degrees away from the zone

---
 lanelet2_projection/src/UTM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_projection/src/UTM.cpp b/lanelet2_projection/src/UTM.cpp
index a19079d..e61b835 100644
--- a/lanelet2_projection/src/UTM.cpp
+++ b/lanelet2_projection/src/UTM.cpp
@@ -1,6 +1,7 @@
 #include "lanelet2_projection/UTM.h"
 
 #include <GeographicLib/UTMUPS.hpp>
+#include <cmath>
 
 namespace lanelet {
 namespace projection {
@@ -42,7 +43,8 @@ BasicPoint3d UtmProjector::forward(const GPSPoint& gps) const {
       throw ForwardProjectionError(e.what());
     }
 
-    if (zoneAfterTransfer != zone_) {
+    // points on the equator that are 90 degrees away from the zone have no transverse Mercator coordinates
+    if (zoneAfterTransfer != zone_ || !std::isfinite(xAfterTransfer) || !std::isfinite(yAfterTransfer)) {
       throw ForwardProjectionError("You have left the padding area of the UTM zone!");
     }
     utm.x() = xAfterTransfer;
-- 
2.43.0


From f939f13a32d92d342e048d439197ddf6bee9d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 25/64] fix: canPass between areas ignored that one of the
 areas is not passable

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From 1c3995ecd0c17d6efa768379ff60a1498cb4177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 26/64] fix: bus lanes were not passable for any participant
 and had no speed limit

The tagging specification allows buses, taxis and emergency vehicles and applies
the limits of roads.
---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..8bd8062 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -266,6 +266,8 @@ SpeedLimitInformation getSpeedLimitFromType(const AttributeMap& attributes, cons
   const static SpeedLimitMap SpeedLimitLookup{
       {{Value::Urban, Value::Road}, &CountrySpeedLimits::vehicleUrbanRoad},
       {{Value::Nonurban, Value::Road}, &CountrySpeedLimits::vehicleNonurbanRoad},
+      {{Value::Urban, Value::BusLane}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Nonurban, Value::BusLane}, &CountrySpeedLimits::vehicleNonurbanRoad},
       {{Value::Urban, Value::Highway}, &CountrySpeedLimits::vehicleUrbanHighway},
       {{Value::Nonurban, Value::Highway}, &CountrySpeedLimits::vehicleNonurbanHighway},
       {{Value::Urban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
@@ -334,6 +336,7 @@ Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::
       {Value::BicycleLane, {Participants::Bicycle}},
       {Value::PlayStreet, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::EmergencyLane, {Participants::VehicleEmergency}},
+      {Value::BusLane, {Participants::VehicleBus, Participants::VehicleEmergency, Participants::VehicleTaxi}},
       {Value::Exit, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::Walkway, {Participants::Pedestrian}},
       {Value::Crosswalk, {Participants::Pedestrian}},
-- 
2.43.0


From 73814a2529dc7a4dada188c2384ae9e76fd5b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 27/64] fix: speed_limit_mandatory of a participant was ignored
 next to the general tag

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 8bd8062..7d2d261 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -307,8 +307,10 @@ SpeedLimitInformation GenericTrafficRules::speedLimit(const RegulatoryElementCon
         getMapOrDefault(attributes, AttributeName::SpeedLimit, Attribute(0_kmh)).asVelocity().get_value_or(0_kmh);
     auto limit =
         getOverride(attributes, Attr::SpeedLimit + ":"s, Attr::SpeedLimit + ":"s + participant(), defaultLimit);
-    auto mandatory =
-        getOverride(attributes, Attr::SpeedLimitMandatory, Attr::SpeedLimitMandatory + ":"s + participant(), true);
+    auto defaultMandatory =
+        getMapOrDefault(attributes, Attr::SpeedLimitMandatory, Attribute(true)).asBool().get_value_or(true);
+    auto mandatory = getOverride(attributes, Attr::SpeedLimitMandatory + ":"s,
+                                 Attr::SpeedLimitMandatory + ":"s + participant(), defaultMandatory);
     return {limit, mandatory};
   }
   return getSpeedLimitFromType(attributes, countrySpeedLimits(), participant());
-- 
2.43.0


From 86ba6c6e5f36c7537f5a7a6a16bce7eb2d1863a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 28/64] fix: routingRelation without conflicts still reported
 conflicting lanelets

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From 2bf13f1fabe885a5b415da18bfd27138f3498e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 29/64] fix: possible lane changes depended on the order in
 which lanelets were visited

---
 .../internal/RoutingGraphBuilder.h            |  2 +-
 lanelet2_routing/src/RoutingGraphBuilder.cpp  | 87 +++++++------------
 2 files changed, 33 insertions(+), 56 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
index 92a66d5..029d59b 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
@@ -46,7 +46,7 @@ class RoutingGraphBuilder {
   //! Adds the first and last points of a lanelet to the search index
   void addPointsToSearchIndex(const ConstLanelet& ll);
   bool hasEdge(const ConstLanelet& from, const ConstLanelet& to);
-  void assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation);
+  void assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos, const RelationType& relation);
 
   /** @brief Assigns routing costs of each routing cost module to a relation between two lanelets
    *  @param from Start lanelet
diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..7f2f7e5 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -5,6 +5,7 @@
 #include <lanelet2_core/geometry/Lanelet.h>
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "lanelet2_routing/Exceptions.h"
 #include "lanelet2_routing/RoutingGraph.h"
@@ -19,69 +20,50 @@ inline IdPair orderedIdPair(const Id id1, const Id id2) { return (id1 < id2) ? I
 
 //! This class collects lane changable lanelets and combines them to a sequence of adjacent lanechangable lanelets
 class LaneChangeLaneletsCollector {
-  struct LaneChangeInfo {
-    ConstLanelet target;
-    bool visited;
-  };
-  using LaneChangeMap = std::unordered_map<ConstLanelet, LaneChangeInfo>;
+  using LaneChangeMap = std::unordered_map<ConstLanelet, ConstLanelet>;
 
  public:
   using LaneChangeLanelets = std::pair<ConstLanelets, ConstLanelets>;
 
   LaneChangeLaneletsCollector() = default;
   void add(ConstLanelet from, ConstLanelet to) {
-    laneChanges_.emplace(std::move(from), LaneChangeInfo{std::move(to), false});
+    laneChanges_.emplace(std::move(from), std::move(to));
     currPos_ = laneChanges_.begin();
   }
 
-  template <typename Func1, typename Func2>
-  Optional<LaneChangeLanelets> getNextChangeLanelets(Func1&& prev, Func2&& next) {
-    for (; currPos_ != laneChanges_.end() && currPos_->second.visited; ++currPos_) {
-    }
+  //! Returns the next lane change together with all lane changes that are possible when driving straight on from there
+  template <typename Func>
+  Optional<LaneChangeLanelets> getNextChangeLanelets(Func&& next) {
     if (currPos_ == laneChanges_.end()) {
       return {};
     }
-    return getLaneChangeLanelets(currPos_, std::forward<Func1>(prev), std::forward<Func2>(next));
+    return getLaneChangeLanelets(currPos_++, std::forward<Func>(next));
   }
 
  private:
-  template <typename Func1, typename Func2>
-  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& prev, Func2&& next) {
-    iter->second.visited = true;
-    auto followers = getAdjacentLaneChangeLanelets(iter, std::forward<Func2>(next));
-    auto predecessors = getAdjacentLaneChangeLanelets(iter, std::forward<Func1>(prev));
-    std::reverse(predecessors.first.begin(), predecessors.first.end());
-    std::reverse(predecessors.second.begin(), predecessors.second.end());
-    std::pair<ConstLanelets, ConstLanelets> result;
-    result.first = utils::concatenate({predecessors.first, ConstLanelets{iter->first}, followers.first});
-    result.second = utils::concatenate({predecessors.second, ConstLanelets{iter->second.target}, followers.second});
-    return result;
-  }
-
-  template <typename Func1>
-  LaneChangeLanelets getAdjacentLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& adjacent) {
-    std::pair<ConstLanelets, ConstLanelets> successors;
+  template <typename Func>
+  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::const_iterator iter, Func&& next) const {
+    LaneChangeLanelets result;
+    std::unordered_set<ConstLanelet> visited;
     while (true) {
-      auto nextSourceLlts = adjacent(iter->first);
-      auto nextTargetLlts = adjacent(iter->second.target);
+      result.first.push_back(iter->first);
+      result.second.push_back(iter->second);
+      visited.insert(iter->first);
+      auto nextSourceLlts = next(iter->first);
+      auto nextTargetLlts = next(iter->second);
       if (nextSourceLlts.size() != 1 || nextTargetLlts.size() != 1) {
         break;
       }
-      ConstLanelet& nextSourceLlt = nextSourceLlts.front();
-      ConstLanelet& nextTargetLlt = nextTargetLlts.front();
-      iter = laneChanges_.find(nextSourceLlt);
-      if (iter == laneChanges_.end() || iter->second.visited || iter->second.target != nextTargetLlt) {
+      iter = laneChanges_.find(nextSourceLlts.front());
+      if (iter == laneChanges_.end() || iter->second != nextTargetLlts.front() || visited.count(iter->first) != 0) {
         break;
       }
-      iter->second.visited = true;
-      successors.first.push_back(nextSourceLlt);
-      successors.second.push_back(nextTargetLlt);
     }
-    return successors;
+    return result;
   }
 
   LaneChangeMap laneChanges_;
-  LaneChangeMap::iterator currPos_{laneChanges_.end()};
+  LaneChangeMap::const_iterator currPos_{laneChanges_.end()};
 };
 
 RoutingGraphBuilder::RoutingGraphBuilder(const traffic_rules::TrafficRules& trafficRules,
@@ -255,13 +237,9 @@ void RoutingGraphBuilder::addLaneChangeEdges(LaneChangeLaneletsCollector& laneCh
     auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
     return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::target(edge, g); });
   };
-  auto prev = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::in_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::source(edge, g); });
-  };
   Optional<LaneChangeLaneletsCollector::LaneChangeLanelets> laneChangeLanelets;
-  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(prev, next))) {
-    assignLaneChangeCosts(std::move(laneChangeLanelets->first), std::move(laneChangeLanelets->second), relation);
+  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(next))) {
+    assignLaneChangeCosts(laneChangeLanelets->first, laneChangeLanelets->second, relation);
   }
 }
 
@@ -338,20 +316,19 @@ bool RoutingGraphBuilder::hasEdge(const ConstLanelet& from, const ConstLanelet&
   return !!graph_->getEdgeInfo(from, to);
 }
 
-void RoutingGraphBuilder::assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation) {
+void RoutingGraphBuilder::assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos,
+                                                const RelationType& relation) {
   assert(relation == RelationType::Left || relation == RelationType::Right);
   assert(froms.size() == tos.size());
-  for (; !froms.empty(); froms.erase(froms.begin()), tos.erase(tos.begin())) {
-    for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
-      auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
-      if (!std::isfinite(cost)) {
-        // if the costs are infinite, we add an adjacent edge instead
-        auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
-        graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
-        continue;
-      }
-      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
+  for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
+    auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
+    if (!std::isfinite(cost)) {
+      // if the costs are infinite, we add an adjacent edge instead
+      auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
+      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
+      continue;
     }
+    graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
   }
 }
 
-- 
2.43.0


From effec619485386e9f299276eb9ac2ede0975ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 30/64] fix: endless loop in left/right queries for lanelets
 that are neighbours all around a center

---
 lanelet2_routing/src/RoutingGraph.cpp | 39 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraph.cpp b/lanelet2_routing/src/RoutingGraph.cpp
index 057db0b..53bb058 100644
--- a/lanelet2_routing/src/RoutingGraph.cpp
+++ b/lanelet2_routing/src/RoutingGraph.cpp
@@ -151,12 +151,25 @@ template <typename Func>
 ConstLanelets getUntilEnd(const ConstLanelet& start, Func next) {
   auto result = reservedVector<ConstLanelets>(3);
   Optional<ConstLanelet> current = start;
-  while (!!(current = next(*current))) {
+  // the neighbours of lanelets around a common center form a circle
+  while (!!(current = next(*current)) && *current != start && !utils::contains(result, *current)) {
     result.emplace_back(*current);
   }
   return result;
 }
 
+//! Appends lanelets with their relation and returns false as soon as a lanelet occurs that is already known
+bool appendUnknown(LaneletRelations& relations, const ConstLanelet& start, const ConstLanelets& llts, RelationType type) {
+  return std::all_of(llts.begin(), llts.end(), [&](const ConstLanelet& llt) {
+    auto isLlt = [&llt](const LaneletRelation& relation) { return relation.lanelet == llt; };
+    if (llt == start || utils::anyOf(relations, isLlt)) {
+      return false;
+    }
+    relations.emplace_back(LaneletRelation{llt, type});
+    return true;
+  });
+}
+
 ConstLaneletOrAreas getAllEdgesFromGraph(const RoutingGraphGraph& graph, const FilteredRoutingGraph& subgraph,
                                          const ConstLaneletOrArea& laneletOrArea, bool edgesOut) {
   ConstLaneletOrAreas result;
@@ -525,15 +538,15 @@ LaneletRelations RoutingGraph::leftRelations(const ConstLanelet& lanelet, Routin
   LaneletRelations result;
   while (!leftReached) {
     const ConstLanelets leftOf{lefts(current, routingCostId)};
-    for (auto const& it : leftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Left});
-      current = it;
+    if (!appendUnknown(result, lanelet, leftOf, RelationType::Left)) {
+      break;
     }
+    current = leftOf.empty() ? current : leftOf.back();
     const ConstLanelets adjacentLeftOf{adjacentLefts(current, routingCostId)};
-    for (auto const& it : adjacentLeftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentLeft});
-      current = it;
+    if (!appendUnknown(result, lanelet, adjacentLeftOf, RelationType::AdjacentLeft)) {
+      break;
     }
+    current = adjacentLeftOf.empty() ? current : adjacentLeftOf.back();
     leftReached = (leftOf.empty() && adjacentLeftOf.empty());
   }
   return result;
@@ -553,15 +566,15 @@ LaneletRelations RoutingGraph::rightRelations(const ConstLanelet& lanelet, Routi
   auto result = reservedVector<LaneletRelations>(3);
   while (!rightReached) {
     const ConstLanelets rightOf{rights(current, routingCostId)};
-    for (auto const& it : rightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Right});
-      current = it;
+    if (!appendUnknown(result, lanelet, rightOf, RelationType::Right)) {
+      break;
     }
+    current = rightOf.empty() ? current : rightOf.back();
     const ConstLanelets adjacentRightOf{adjacentRights(current, routingCostId)};
-    for (auto const& it : adjacentRightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentRight});
-      current = it;
+    if (!appendUnknown(result, lanelet, adjacentRightOf, RelationType::AdjacentRight)) {
+      break;
     }
+    current = adjacentRightOf.empty() ? current : adjacentRightOf.back();
     rightReached = (rightOf.empty() && adjacentRightOf.empty());
   }
   return result;
-- 
2.43.0


From 453385666f5eeb189ab15c0e099deaa81a79a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 31/64] fix: passing an area was counted as a lane change by
 forEachSuccessor and forEachPredecessor

---
 .../include/lanelet2_routing/internal/ShortestPath.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
index 9e67370..7604fce 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
@@ -99,7 +99,8 @@ class DijkstraStyleSearch {
       auto& follower = (*map_)[boost::target(e, g)];
       follower.length = predecessor.length + 1;
       follower.predecessor = boost::source(e, g);
-      follower.numLaneChanges = predecessor.numLaneChanges + (g[e].relation != RelationType::Successor);
+      auto isLaneChange = g[e].relation != RelationType::Successor && g[e].relation != RelationType::Area;
+      follower.numLaneChanges = predecessor.numLaneChanges + (isLaneChange ? 1 : 0);
     }
 
    private:
-- 
2.43.0


From 76d21f9dae7caa93392f08e6a895dfa58948aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 32/64] fix: conflicts between lanelets that are both driven
 against their direction were missing

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 28 ++++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 7f2f7e5..83d904a 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -199,25 +199,31 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
   // Conflicting
   ConstLanelets results = passableLanelets.search(geometry::boundingBox2d(ll));
   ConstLanelet other;
+  auto maxHeight = participantHeight();
+  auto addIfConflicting = [&](const ConstLanelet& candidate) {
+    if (hasEdge(ll, candidate) || !graph_->getVertex(candidate)) {
+      return;
+    }
+    if ((maxHeight && geometry::overlaps3d(ll, candidate, *maxHeight)) ||
+        (!maxHeight && geometry::overlaps2d(ll, candidate))) {
+      assignCosts(ll, candidate, RelationType::Conflicting);
+      assignCosts(candidate, ll, RelationType::Conflicting);
+    }
+  };
   for (auto& result : results) {
-    if (bothWaysLaneletIds_.find(ll.id()) != bothWaysLaneletIds_.end() && result == ll) {
+    auto bothWays = bothWaysLaneletIds_.find(result.id()) != bothWaysLaneletIds_.end();
+    if (bothWays && result == ll) {
       other = result.invert();
       assignCosts(ll, other, RelationType::Conflicting);
       assignCosts(other, ll, RelationType::Conflicting);
       continue;
     }
-    other = result;
-    if (hasEdge(ll, result)) {
+    if (result.id() == ll.id()) {
       continue;
     }
-    auto vertex = graph_->getVertex(other);
-    if (!vertex || result == ll) {
-      continue;
-    }
-    auto maxHeight = participantHeight();
-    if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
+    addIfConflicting(result);
+    if (bothWays) {
+      addIfConflicting(result.invert());
     }
   }
 }
-- 
2.43.0


From 81029dbf1d007880938b4862657e1a4b0dcab235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 33/64] fix: areas did not report the lanelets they conflict
 with, nor lanelets driven against their direction their conflicting areas

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 83d904a..6e153cd 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -276,6 +276,11 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const LaneletLayer&
     if ((maxHeight && geometry::overlaps3d(area, candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(area, candidate))) {
       assignCosts(candidate, area, RelationType::Conflicting);
+      assignCosts(area, candidate, RelationType::Conflicting);
+      if (bothWaysLaneletIds_.find(candidate.id()) != bothWaysLaneletIds_.end()) {
+        assignCosts(candidate.invert(), area, RelationType::Conflicting);
+        assignCosts(area, candidate.invert(), RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From f8a3d41560905c9cde25b5508441fd26fa3d716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 34/64] fix: Route::leftRelations and rightRelations crashed
 for lanelets off the route and never returned for neighbours all around a
 center

---
 lanelet2_routing/src/Route.cpp | 37 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..a36b5d6 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -128,6 +128,21 @@ std::pair<Optional<RouteGraph::Vertex>, RelationType> getNextVertex(RouteGraph::
   return {internal::GetTarget<Backwards>{}(*out.first, g), g[*out.first].relation};
 }
 
+LaneletRelations getNextRelations(const RouteGraph& graph, const FilteredRouteGraph& g, const ConstLanelet& lanelet) {
+  LaneletRelations result;
+  auto next = graph.getVertex(lanelet);
+  std::set<RouteGraph::Vertex> visited;
+  RelationType type{};
+  // lanelets can be neighbours all around a center, so we have to stop when we are back
+  while (!!next && visited.insert(*next).second) {
+    if (visited.size() > 1) {
+      result.emplace_back(LaneletRelation{g[*next].lanelet, type});
+    }
+    std::tie(next, type) = getNextVertex(*next, g);
+  }
+  return result;
+}
+
 }  // anonymous namespace
 
 Route::Route() = default;
@@ -265,16 +280,7 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 }
 
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
-  LaneletRelations result;
-  auto next = graph_->getVertex(lanelet);
-  RelationType type;
-  auto g = graph_->somehowLeft();
-  std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
-    result.emplace_back(LaneletRelation{g[*next].lanelet, type});
-    std::tie(next, type) = getNextVertex(*next, g);
-  }
-  return result;
+  return getNextRelations(*graph_, graph_->somehowLeft(), lanelet);
 }
 
 Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) const {
@@ -286,16 +292,7 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 }
 
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
-  LaneletRelations result;
-  auto next = graph_->getVertex(lanelet);
-  RelationType type;
-  auto g = graph_->somehowRight();
-  std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
-    result.emplace_back(LaneletRelation{g[*next].lanelet, type});
-    std::tie(next, type) = getNextVertex(*next, g);
-  }
-  return result;
+  return getNextRelations(*graph_, graph_->somehowRight(), lanelet);
 }
 
 void Route::forEachSuccessor(const ConstLanelet& lanelet, const LaneletVisitFunction& f) const {
-- 
2.43.0


From 173314d9bde2dee8c121effac14812f30a22a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 35/64] fix: remainingShortestPath was empty for routes of a
 single lanelet

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index a36b5d6..144c4a8 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -157,7 +157,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From 319c04978c8714ef57b0a9a32771ebdbd822ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 36/64] fix: debug maps of routes had a foreign point instead
 of a lanelet without relations

---
 lanelet2_routing/src/Route.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 144c4a8..6727857 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -223,6 +223,9 @@ LaneletMapPtr Route::getDebugLaneletMap() const {
     addRelation(edgeMap, vertexMap, g[boost::source(e, g)], g[boost::target(e, g)], g[e].relation);
   };
   for (auto v : graph_->get().vertex_set()) {
+    if (vertexMap.find(g[v].lanelet.id()) == vertexMap.end()) {
+      createAndAddPoint(vertexMap, g[v]);
+    }
     auto outEdges = boost::out_edges(v, graph_->get());
     std::for_each(outEdges.first, outEdges.second, addEdge);
   }
-- 
2.43.0


From 95fa49adb375ad5c31075c30d8f05927baf099a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 37/64] fix: debug maps of routes lost all but one relation

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 6727857..2eabb67 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -59,7 +59,7 @@ void addRelation(std::map<DebugEdge, LineString3d>& edgeMap, std::map<Id, Point2
     if (toPointIt == vertexMap.end()) {
       toPointIt = createAndAddPoint(vertexMap, to);
     }
-    LineString2d lineString;
+    LineString2d lineString(utils::getId());
     lineString.push_back(fromPointIt->second);
     lineString.push_back(toPointIt->second);
     lineStringMapIt = edgeMap.emplace(orderedPair, LineString3d(lineString)).first;
-- 
2.43.0


From 51a9bf8e680dfc4391a2b66f41813dc1c1381341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 38/64] fix: Route::checkValidity reported errors exactly for
 relations that are valid

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 2eabb67..5197b1e 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -353,7 +353,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From 6c1d91b67d7e3a4a76405e3133cb23e43d6603e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 39/64] fix: routes lacked lanelets whose other neighbour does
 not lead to the goal

---
 lanelet2_routing/src/RouteBuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 2634693..78ac297 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -110,10 +110,12 @@ class VisitedLaneletGraph {
       if (vertex == visited_.end() || !vertex->second) {
         return;
       }
-      if (relation == RelationType::Successor && vertex->second->numFollowers > 0) {
-        vertex->second->numFollowers--;
-      } else if (vertex->second->numLaneChangesOut > 0) {  // implies left or right
-        vertex->second->numLaneChangesOut--;
+      if (relation == RelationType::Successor) {
+        if (vertex->second->numFollowers > 0) {
+          vertex->second->numFollowers--;
+        }
+      } else if (vertex->second->numLaneChangesOut > 0 && routeLanelets_->find(v.first) != routeLanelets_->end()) {
+        vertex->second->numLaneChangesOut--;  // only lane changes onto the route have been counted, see add()
       }
     });
   }
-- 
2.43.0


From 00486c74ccab8a50efbb72354ed5297a2c67680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 40/64] fix: routes lacked neighbours of lanelets after passing
 the goal or its neighbours for the first time

---
 lanelet2_routing/src/RouteBuilder.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 78ac297..e921c57 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -172,7 +172,18 @@ RouteLanelets lastLanelets(const std::vector<LaneletVertexId>& initialRoute, con
   if (initialRoute.empty() || initialRoute.front() == initialRoute.back()) {
     return {};
   }
-  return getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  auto lanelets = getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  // the route does not end at lanelets that the initial route passes on its way to the end
+  for (auto it = initialRoute.begin(); std::next(it) != initialRoute.end(); ++it) {
+    auto edges = boost::out_edges(*it, originalGraph);
+    if (std::any_of(edges.first, edges.second, [&](auto e) {
+          return boost::target(e, originalGraph) == *std::next(it) &&
+                 hasRelation<RelationType::Successor>(originalGraph, e);
+        })) {
+      lanelets.erase(*it);
+    }
+  }
+  return lanelets;
 }
 
 //! The visited lanelet graph initially also contains lanelets that are always conflicting with the route, but the route
-- 
2.43.0


From d064642b0228bdb9f37c638dfec9c27abe273c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 41/64] fix: routes contained lanelets that are not reachable
 on the route or do not lead to its goal

---
 lanelet2_routing/src/RouteBuilder.cpp | 54 ++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index e921c57..0393de7 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -58,16 +58,46 @@ class VisitedLaneletGraph {
     }
   }
 
-  //! Prunes all leafs if this graph except for the lanelet llt
-  void pruneLeafsExcluding(LaneletVertexId llt, const NextToRouteGraph& g) {
-    bool progress = true;
-    while (progress) {
-      progress = false;
-      for (auto& vertex : visited_) {
-        if (vertex.first == llt || !vertex.second || !vertex.second->isLeaf()) {
-          continue;
+  //! Prunes all vertices of this graph that do not lead to the lanelet llt
+  void pruneNotLeadingTo(LaneletVertexId llt, const NextToRouteGraph& g) {
+    std::set<LaneletVertexId> leading{llt};
+    LaneletVertexIds open{llt};
+    while (!open.empty()) {
+      auto onRoute = has(*routeLanelets_, open.back());
+      auto inEdges = boost::in_edges(open.back(), g);
+      open.pop_back();
+      std::for_each(inEdges.first, inEdges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        auto vertex = visited_.find(boost::source(e, g));
+        // as in add(), only lane changes onto the route are considered
+        if (vertex != visited_.end() && !!vertex->second && (onRoute || g[e].relation == RelationType::Successor) &&
+            leading.insert(vertex->first).second) {
+          open.push_back(vertex->first);
         }
-        progress = true;
+      });
+    }
+    for (auto& vertex : visited_) {
+      if (!!vertex.second && !has(leading, vertex.first)) {
+        remove(vertex, g);
+      }
+    }
+  }
+
+  //! Prunes all vertices of the graph that can not (or no longer) be reached from llt
+  void pruneUnreachableFrom(LaneletVertexId llt, const NextToRouteGraph& g) {
+    std::set<LaneletVertexId> reachable{llt};
+    LaneletVertexIds open{llt};
+    while (!open.empty()) {
+      auto outEdges = boost::out_edges(open.back(), g);
+      open.pop_back();
+      std::for_each(outEdges.first, outEdges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        auto vertex = visited_.find(boost::target(e, g));
+        if (vertex != visited_.end() && !!vertex->second && reachable.insert(vertex->first).second) {
+          open.push_back(vertex->first);
+        }
+      });
+    }
+    for (auto& vertex : visited_) {
+      if (!!vertex.second && !has(reachable, vertex.first)) {
         remove(vertex, g);
       }
     }
@@ -409,12 +439,16 @@ class RouteUnderConstruction {
     breadthFirstSearch(nextToRouteGraph_, begin_, NeighbouringGraphVisitor{laneletVisitor_});
 
     // remove lanelets that do not lead to end_ from the graph
-    laneletVisitor_.pruneLeafsExcluding(end_, nextToRouteGraph_);
+    laneletVisitor_.pruneNotLeadingTo(end_, nextToRouteGraph_);
 
     // remove lanelets that (temporarily) leave the route from the graph
     pathOutOfRouteFinder_.forEachVertexOutOfRoute(
         laneletVisitor_, [&](auto& vertex) { laneletVisitor_.remove(vertex, nextToRouteGraph_); });
 
+    // remove lanelets from the graph that were only connected with the route by the lanelets removed before
+    laneletVisitor_.pruneNotLeadingTo(end_, nextToRouteGraph_);
+    laneletVisitor_.pruneUnreachableFrom(begin_, nextToRouteGraph_);
+
     // add the new vertices to the laneletsOnTheRoute_ and determine if we made progress.
     bool progress = false;
     laneletVisitor_.forAllValidLanelets([&](auto lltId) { progress |= laneletsOnRoute_.insert(lltId.first).second; });
-- 
2.43.0


From f63992a43cfc5cb357e0e9640fa43de0a6949cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 42/64] fix: validation reported documented tags and values as
 unknown

---
 lanelet2_validation/src/validators/CheckTags.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index c3ff409..6fc637b 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -29,7 +29,7 @@ const std::vector<std::string>& knownPointTags() {
 const ValueMap& knownPointValues() {
   using Attr = AttributeNamesString;
   using Value = AttributeValueString;
-  const static ValueMap Tags{{Attr::Type, {Value::Dot, Value::End, Value::Pole, Value::Post, Value::Start}}};
+  const static ValueMap Tags{{Attr::Type, {"begin", Value::Dot, Value::End, Value::Pole, Value::Post, Value::Start}}};
   return Tags;
 }
 
@@ -84,7 +84,8 @@ const ValueMap& knownLineStringValues() {
 const std::vector<std::string>& knownLaneletTags() {
   using Attr = AttributeNamesString;
   const static std::vector<std::string> Tags{Attr::Type,   Attr::Subtype,    Attr::OneWay,   Attr::Name,
-                                             Attr::Region, Attr::SpeedLimit, Attr::Location, Attr::Participant};
+                                             Attr::Region, Attr::SpeedLimit, Attr::Location, Attr::Participant,
+                                             "road_name",  "road_surface"};
   return Tags;
 }
 
@@ -100,8 +101,8 @@ const ValueMap& knownLaneletValues() {
   const static ValueMap Tags{
       {Attr::Type, {Value::Lanelet}},
       {Attr::Subtype,
-       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Highway, Value::PlayStreet,
-        Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
+       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Exit, Value::Highway,
+        Value::PlayStreet, Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
       {Attr::Location, {Value::Nonurban, Value::Private, Value::Urban}}};
   return Tags;
 }
@@ -109,7 +110,8 @@ const ValueMap& knownLaneletValues() {
 const std::vector<std::string>& knownAreaTags() {
   using Attr = AttributeNamesString;
   const static std::vector<std::string> Tags{Attr::Type,     Attr::Subtype, Attr::SpeedLimit,
-                                             Attr::Location, Attr::Region,  Attr::Name};
+                                             Attr::Location, Attr::Region,  Attr::Name,
+                                             Attr::Participant, "road_name", "road_surface"};
   return Tags;
 }
 
@@ -117,7 +119,7 @@ const ValueMap& knownAreaValues() {
   using Attr = AttributeNamesString;
   using Value = AttributeValueString;
   const static ValueMap Tags{
-      {Attr::Type, {Value::Multipolygon}},
+      {Attr::Type, {"area", Value::Multipolygon}},
       {Attr::Subtype,
        {Value::BicycleLane, Value::Building, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Exit,
         Value::Freespace, Value::Highway, Value::Keepout, Value::Parking, Value::PlayStreet, Value::Road,
-- 
2.43.0


From 56847ce9d28d22e0a8b6cdbd9ca2e42ab5ab12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 43/64] fix: points that are too close were missed if other
 points are above or below them

---
 .../src/validators/PointsTooClose.cpp         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lanelet2_validation/src/validators/PointsTooClose.cpp b/lanelet2_validation/src/validators/PointsTooClose.cpp
index 05d5186..57d37e0 100644
--- a/lanelet2_validation/src/validators/PointsTooClose.cpp
+++ b/lanelet2_validation/src/validators/PointsTooClose.cpp
@@ -13,14 +13,17 @@ RegisterMapValidator<PointsTooCloseChecker> reg;
 Issues PointsTooCloseChecker::operator()(const lanelet::LaneletMap& map) {
   Issues issues;
   for (const auto& p : map.pointLayer) {
-    auto nearest = map.pointLayer.nearest(utils::to2D(p).basicPoint(), 2);
-    if (nearest.size() == 2) {
-      auto& next = nearest[0] == p ? nearest[1] : nearest[0];
-      if (geometry::distance(p, next) < 0.05) {
-        issues.emplace_back(
-            Severity::Warning, Primitive::Point, p.id(),
-            "Point is very close to point " + std::to_string(next.id()) + ". This can lead to defects in the map");
-      }
+    // the closest points in 2d can be far away in 3d, so all points around have to be considered
+    const BasicPoint2d offset(0.05, 0.05);
+    const BasicPoint2d pos = utils::to2D(p).basicPoint();
+    auto next = map.pointLayer.searchUntil(BoundingBox2d(pos - offset, pos + offset),
+                                           [&p](const auto& /*box*/, const ConstPoint3d& other) {
+                                             return other != p && geometry::distance(p, other) < 0.05;
+                                           });
+    if (!!next) {
+      issues.emplace_back(
+          Severity::Warning, Primitive::Point, p.id(),
+          "Point is very close to point " + std::to_string(next->id()) + ". This can lead to defects in the map");
     }
   }
   return issues;
-- 
2.43.0


From 101be75a734c80513b79a0b995ea6433a69bcd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 44/64] fix: building a routing graph crashed for lanelets with
 an empty bound

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 6e153cd..db2138c 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -90,7 +90,10 @@ ConstLanelets RoutingGraphBuilder::getPassableLanelets(const LaneletLayer& lanel
   ConstLanelets llts;
   llts.reserve(lanelets.size());
   std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts),
-               [&trafficRules](const ConstLanelet& llt) { return trafficRules.canPass(llt); });
+               [&trafficRules](const ConstLanelet& llt) {
+                 // lanelets without geometry (e.g. from incomplete map files) can not be connected to anything
+                 return !llt.leftBound().empty() && !llt.rightBound().empty() && trafficRules.canPass(llt);
+               });
   return llts;
 }
 
-- 
2.43.0


From 4047fc918de5f24c2c35e9aafd9ecdf15d0e58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 45/64] fix: copying an attribute raced with concurrent readers
 that fill its cache

---
 lanelet2_core/include/lanelet2_core/Attribute.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..e8f98f2 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -45,6 +45,16 @@ class Attribute {
   Attribute(int value);                                         // NOLINT
   Attribute(double value);                                      // NOLINT
   Attribute(const Velocity& value);                             // NOLINT
+  // a copied attribute might be read by others at the same time, which replaces its cache
+  Attribute(const Attribute& rhs) : value_{rhs.value_}, cache_{std::atomic_load(&rhs.cache_)} {}
+  Attribute(Attribute&& rhs) noexcept = default;
+  Attribute& operator=(const Attribute& rhs) {
+    value_ = rhs.value_;
+    cache_ = std::atomic_load(&rhs.cache_);
+    return *this;
+  }
+  Attribute& operator=(Attribute&& rhs) noexcept = default;
+  ~Attribute() = default;
 
   /**
    * @brief interpret this attribute as bool value
-- 
2.43.0


From 86d0f133f47223a1e75681a89ef10cef11b3b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 46/64] fix: SpeedLimit created from Python was a plain
 TrafficSign and not found by speedLimits()

---
 lanelet2_python/python_api/core.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 36eab12..07aca88 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1385,7 +1385,13 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<SpeedLimit, boost::noncopyable, std::shared_ptr<SpeedLimit>, bases<TrafficSign>>(  // NOLINT
       "SpeedLimit", "A speed limit regulatory element. This is a special case of a traffic sign regulatory element.",
       no_init)
-      .def("__init__", make_constructor(&TrafficSign::make, default_call_policies(),
+      .def("__init__", make_constructor(+[](Id id, const AttributeMap& attributes, const TrafficSignsWithType& signs,
+                                            const TrafficSignsWithType& cancellingSigns, const LineStrings3d& refLines,
+                                            const LineStrings3d& cancelLines) {
+                                          return SpeedLimit::make(id, attributes, signs, cancellingSigns, refLines,
+                                                                  cancelLines);
+                                        },
+                                        default_call_policies(),
                                         (arg("id"), arg("attributes"), arg("trafficSigns"),
                                          arg("cancellingTrafficSigns") = TrafficSignsWithType{},
                                          arg("refLines") = LineStrings3d(), arg("cancelLines") = LineStrings3d())))
-- 
2.43.0


From 705b869aeef9d84bb1b9db93e46885d1ba1bded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 47/64] fix: dividing basic points by a number did not work in
 Python 3

---
 lanelet2_python/python_api/core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 07aca88..b3861cd 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -509,6 +509,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](BasicPoint2d p) { return makeRepr("BasicPoint2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -521,6 +522,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](Eigen::Vector2d p) { return makeRepr("Vector2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -537,6 +539,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint3d, double>)
       .def("__rmul__", mulWrapper<BasicPoint3d, double>)
       .def("__div__", divWrapper<BasicPoint3d, double>)
+      .def("__truediv__", divWrapper<BasicPoint3d, double>)
       .def(
           "__repr__", +[](BasicPoint3d p) { return makeRepr("BasicPoint3d", p.x(), p.y(), p.z()); })
       .def(self_ns::str(self_ns::self));
-- 
2.43.0


From 2cff3ee8def7179e1be5b0b2ed20681d4f1d977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 48/64] fix: the third argument of the Python Origin was named
 lon like the second one

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 4651d85..71518de 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -70,7 +70,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            +[](double lat, double lon, double alt) {
                              return std::make_shared<Origin>(GPSPoint{lat, lon, alt});
                            },
-                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("lon") = 0)))
+                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("alt") = 0.)))
       .def_readwrite("position", &Origin::position);
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
-- 
2.43.0


From bbf84dc5933779b59a4e2dfa5d7807ea30ff75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 49/64] fix: SpeedLimitInformation could not be constructed
 from Python with a speed limit

---
 lanelet2_python/python_api/traffic_rules.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/traffic_rules.cpp b/lanelet2_python/python_api/traffic_rules.cpp
index 936f74a..64e6405 100644
--- a/lanelet2_python/python_api/traffic_rules.cpp
+++ b/lanelet2_python/python_api/traffic_rules.cpp
@@ -9,8 +9,9 @@ using namespace boost::python;
 using namespace lanelet;
 using namespace lanelet::traffic_rules;
 
-SpeedLimitInformation makeSpeedLimit(double speedLimitKph, bool isMandatory) {
-  return SpeedLimitInformation{Velocity(speedLimitKph * units::KmH()), isMandatory};
+std::shared_ptr<SpeedLimitInformation> makeSpeedLimit(double speedLimitMps, bool isMandatory) {
+  return std::make_shared<SpeedLimitInformation>(
+      SpeedLimitInformation{Velocity(speedLimitMps * units::MPS()), isMandatory});
 }
 
 double getVelocity(const SpeedLimitInformation& self) { return units::KmHQuantity(self.speedLimit).value(); }
@@ -53,8 +54,9 @@ std::string asString() {
 BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   auto core = import("lanelet2.core");
 
-  class_<SpeedLimitInformation>("SpeedLimitInformation", "Current speed limit as returned by a traffic rule object")
-      .def("__init__", makeSpeedLimit, (arg("speedLimitMPS"), arg("isMandatory") = true),
+  class_<SpeedLimitInformation, std::shared_ptr<SpeedLimitInformation>>("SpeedLimitInformation", "Current speed limit as returned by a traffic rule object")
+      .def("__init__",
+           make_constructor(makeSpeedLimit, default_call_policies(), (arg("speedLimitMPS"), arg("isMandatory") = true)),
            "Initialize from speed limit [m/s] and bool if speedlimit is "
            "mandatory")
       .add_property("speedLimit", getVelocity, setVelocity, "velocity in km/h")
-- 
2.43.0


From 4a29e81f3f99dc215ea9b1fc928f3bbdd1beade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 50/64] fix: assigning Object2d.absoluteHull from Python always
 raised

---
 lanelet2_python/python_api/matching.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/matching.cpp b/lanelet2_python/python_api/matching.cpp
index 1fab969..3b72781 100644
--- a/lanelet2_python/python_api/matching.cpp
+++ b/lanelet2_python/python_api/matching.cpp
@@ -134,7 +134,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            (arg("objectId") = lanelet::InvalId, arg("pose") = Pose2d::Identity(),
                             arg("absoluteHull") = boost::python::list())))
       .add_property(
-          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; }, &hullFromList,
+          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; },
+          +[](Object2d& self, const boost::python::list& hull) { self.absoluteHull = hullFromList(hull); },
           "hull in absolute coordinates (not relative to the object's pose)")
       .def_readwrite("pose", &Object2d::pose)
       .def_readwrite("objectId", &Object2d::objectId);
-- 
2.43.0


From 15feea2ba6198765ad55433b3c1d150dfc52c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 51/64] fix: ConstLaneletWithStopLine could not be constructed
 from Python

---
 lanelet2_python/python_api/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index b3861cd..bf0d498 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -692,7 +692,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .fromPython<LineStringsOrPolygons3d>()
       .fromPython<ConstLineStringsOrPolygons3d>();
 
-  ToOptionalConverter().fromPython<LineString3d>();
+  ToOptionalConverter().fromPython<LineString3d>().fromPython<ConstLineString3d>();
 
   to_python_converter<LineStringOrPolygon3d, LineStringOrPolygonToObject>();
   to_python_converter<ConstLineStringOrPolygon3d, ConstLineStringOrPolygonToObject>();
-- 
2.43.0


From 32fced1cd62a0e9c582845a607ec9c032a9cdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 52/64] fix: possiblePaths could not be called with keyword
 arguments from Python

---
 lanelet2_python/python_api/routing.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 712c229..8b02606 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -295,14 +295,12 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("reachableSetTowards", &RoutingGraph::reachableSetTowards, "set of lanelets that can reach a given lanelet",
            (arg("lanelet"), arg("maxRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = true))
       .def("possiblePaths", possPCost, "possible paths from a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePaths", possPParam, "possible paths from a given start lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsTowards", possPToCost,
            "possible paths to a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePathsTowards", possPToParam, "possible paths to a given lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsMinLen", possPLen, "possible routes from a given start lanelet that are 'minLanelets'-long",
-- 
2.43.0


From c9af03d5739cbe2ac9d3a99c8f805153aa64e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 53/64] fix: a point taken from a linestring in Python dangled
 after the linestring was modified

---
 lanelet2_python/python_api/core.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index bf0d498..bc6c619 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -347,7 +347,8 @@ class IsConstLineString : public def_visitor<IsConstLineString<LsT, InternalRef>
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<InternalRefVal> addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    // points are handles to shared data. A reference would change or dangle when the linestring is modified.
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<!InternalRefVal> addGetitem(ClassT& c) const {
@@ -375,7 +376,7 @@ class IsLineString : public def_visitor<IsLineString<LsT>> {
   }
   template <typename ClassT>
   void addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
 };
 
-- 
2.43.0


From 90bdc936c9233545b8e8d3d3474350c728dfd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 54/64] fix: the visited element of
 LaneletOrAreaVisitInformation could not be read from Python

---
 lanelet2_python/python_api/routing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 8b02606..497a9c8 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -208,10 +208,12 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<LaneletOrAreaVisitInformation>(
       "LaneletOrAreaVisitInformation",
       "Object passed as input for the forEachSuccessorIncludingAreas function of the routing graph")
-      .def_readwrite("laneletOrArea", &LaneletOrAreaVisitInformation::laneletOrArea,
-                     "the currently visited lanelet/area")
-      .def_readwrite("predecessor", &LaneletOrAreaVisitInformation::predecessor,
-                     "the predecessor within the shortest path")
+      .add_property("laneletOrArea",
+                    make_getter(&LaneletOrAreaVisitInformation::laneletOrArea, return_value_policy<return_by_value>()),
+                    make_setter(&LaneletOrAreaVisitInformation::laneletOrArea), "the currently visited lanelet/area")
+      .add_property("predecessor",
+                    make_getter(&LaneletOrAreaVisitInformation::predecessor, return_value_policy<return_by_value>()),
+                    make_setter(&LaneletOrAreaVisitInformation::predecessor), "the predecessor within the shortest path")
       .def_readwrite("length", &LaneletOrAreaVisitInformation::length,
                      "The length of the shortest path to this lanelet (including lanelet")
       .def_readwrite("cost", &LaneletOrAreaVisitInformation::cost, "The cost along the shortest path")
-- 
2.43.0


From 943d7b8d7e9ff1db4ca41214a7638da2fa5f63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 55/64] fix: reading the parameters of a regulatory element in
 Python raised when a lanelet no longer exists

---
 lanelet2_python/python_api/core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index bc6c619..756b5ee 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -197,6 +197,9 @@ struct ConstLaneletOrAreaToObject {
 
 struct ConstWeakLaneletToObject {
   static PyObject* convert(const lanelet::ConstWeakLanelet& v) {
+    if (v.expired()) {
+      return incref(object().ptr());
+    }
     return incref(object(v.lock()).ptr());
   }
 };
-- 
2.43.0


From 020cad377711d245bfcfe81643ea5e7168cc1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 56/64] fix: TrafficSignsWithType.trafficSigns could not be
 read from Python

---
 lanelet2_python/python_api/core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 756b5ee..7be932f 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1335,7 +1335,9 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
              return std::make_shared<TrafficSignsWithType>(TrafficSignsWithType{std::move(ls), std::move(type)});
            }),
            "Construct from a Linestring/Polygon with an explicit type")
-      .def_readwrite("trafficSigns", &TrafficSignsWithType::trafficSigns)
+      .add_property("trafficSigns",
+                    make_getter(&TrafficSignsWithType::trafficSigns, return_value_policy<return_by_value>()),
+                    make_setter(&TrafficSignsWithType::trafficSigns))
       .def_readwrite("type", &TrafficSignsWithType::type);
 
   class_<TrafficSign, boost::noncopyable, std::shared_ptr<TrafficSign>, bases<RegulatoryElement>>(
-- 
2.43.0


From 97e206472312d5ec8849071bcbbc461cc2e7daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 57/64] fix: findUsages with a regulatory element always raised
 in Python

---
 lanelet2_python/python_api/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 7be932f..aba0b6a 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1414,14 +1414,14 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   wrapLayer<AreaLayer, bases<PrimitiveLayer<Area>>>("AreaLayer")
       .def(
-          "findUsages", +[](AreaLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](AreaLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find areas with this regulatory element")
       .def(
           "findUsages", +[](AreaLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
           "Find areas with this linestring");
   wrapLayer<LaneletLayer, bases<PrimitiveLayer<Lanelet>>>("LaneletLayer")
       .def(
-          "findUsages", +[](LaneletLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](LaneletLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find lanelets with this regualtory element")
       .def(
           "findUsages", +[](LaneletLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
-- 
2.43.0


From 93b6a6894918d575eb84c4ca8eb9d3f252cbaa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 58/64] fix: len of the inner bounds of a ConstArea always
 raised in Python

---
 lanelet2_python/python_api/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index aba0b6a..4011172 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1132,7 +1132,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<ConstInnerBounds>("ConstInnerBounds", "An immutable list-like type to hold of inner boundaries of an Area",
                            no_init)
       .def("__iter__", iterator<ConstInnerBounds>())
-      .def("__len__", &InnerBounds::size, "Number of holes")
+      .def("__len__", &ConstInnerBounds::size, "Number of holes")
       .def("__getitem__", wrappers::getItem<ConstInnerBounds>, return_value_policy<return_by_value>())
       .def("__repr__", +[](const ConstInnerBounds& b) { return repr(list(b)); });
 
-- 
2.43.0


From e6d2c52b4ad9e097cd52db13ef27bf9112de9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 59/64] fix: toArcCoordinates measured to the first visit of a
 point the line string passes more than once

---
 .../include/lanelet2_core/geometry/impl/LineString.h         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 374673b..785f539 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -756,10 +756,11 @@ ArcCoordinates toArcCoordinates(const LineString2dT& lineString, const BasicPoin
   auto res = internal::signedDistanceImpl(lineString, point);
   auto dist = res.first;
   const auto& projectedPoint = res.second;
-  // find first point in segment in linestring
+  // find segment in linestring. A linestring can pass the same point more than once, so compare both points
   double length = 0.;
   auto accumulateLength = [&](const auto& first, const auto& second) {
-    if (boost::geometry::equals(first, projectedPoint.closestSegment.first)) {
+    if (boost::geometry::equals(first, projectedPoint.closestSegment.first) &&
+        boost::geometry::equals(second, projectedPoint.closestSegment.second)) {
       return true;
     }
     length += distance(first, second);
-- 
2.43.0


From ad822ff6d59bec7618b07e8f1142fe1d1551bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 60/64] fix: an exception in a routing cost module ended the
 program

---
 lanelet2_python/python_api/routing.cpp                  | 8 ++++----
 lanelet2_routing/include/lanelet2_routing/RoutingCost.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 497a9c8..29c756b 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -56,12 +56,12 @@ Optional<T> objectToOptional(const object& o) {
 class RoutingCostBaseWrapper : public lanelet::routing::RoutingCost, public wrapper<lanelet::routing::RoutingCost> {
  public:
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     return this->get_override("getCostSucceeding")(boost::ref(trafficRules), from, to);
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     return this->get_override("getCostLaneChange")(boost::ref(trafficRules), from, to);
   }
 };
@@ -73,7 +73,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   RoutingCostWrapper(double laneChangeCost, double minLaneChange) : BaseT(laneChangeCost, minLaneChange) {}
 
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     const auto o = this->get_override("getCostSucceeding");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
@@ -87,7 +87,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     const auto o = this->get_override("getCostLaneChange");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
diff --git a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
index 789d123..7565e2d 100644
--- a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
+++ b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
@@ -61,7 +61,7 @@ class RoutingCostDistance : public RoutingCost {
     return (from.applyVisitor(getLength) + to.applyVisitor(getLength)) / 2;
   }
   inline double getCostLaneChange(const traffic_rules::TrafficRules& /*trafficRules*/, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeLength_ <= 0.) {
       return laneChangeCost_;
     }
@@ -94,7 +94,7 @@ class RoutingCostTravelTime : public RoutingCost {
   }
 
   inline double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeTime_ <= 0.) {
       return laneChangeCost_;
     }
-- 
2.43.0


From 9b145cb9da18afbd8239e36da95398075bb2db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 61/64] fix: Route.checkValidity could not be called without
 argument from Python

---
 lanelet2_python/python_api/routing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 29c756b..a62a76e 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -414,5 +414,6 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
           "similar to forEachSuccessor but instead goes backwards along the routing graph",
           (arg("lanelet"), arg("func")))
       .def("__contains__", &Route::contains, "Checks if a specific lanelet is part of the route", (arg("lanelet")))
-      .def("checkValidity", &Route::checkValidity, "perform sanity check on the route");
+      .def("checkValidity", &Route::checkValidity, "perform sanity check on the route",
+           (arg("throwOnError") = false));
 }
-- 
2.43.0


From 124ff44aa293f1175c4e536a7dabab7d154f527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 62/64] fix: osm relations with members of the same type or the
 same id compared equal

---
 lanelet2_io/src/OsmFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 9ee0345..14b277e 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -329,7 +329,7 @@ bool operator==(const Way& lhs, const Way& rhs) {
 bool operator==(const Relation& lhs, const Relation& rhs) {
   auto membersEqual = [&lhs, &rhs]() {
     for (auto itL = lhs.members.begin(), itR = rhs.members.begin(); itL != lhs.members.end(); ++itL, ++itR) {
-      if (itL->second->type() != itR->second->type() && itL->second->id != itR->second->id) {
+      if (itL->second->type() != itR->second->type() || itL->second->id != itR->second->id) {
         return false;
       }
     }
-- 
2.43.0


From 6703c93fbec3e8cc5024b9a034d898002e43b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:04 +0000
Subject: [PATCH 63/64] fix: print_ids reports missing ids instead of failing

Joining a string and the integer id raised a TypeError, and --has-id 0 was treated as if it was not given.
---
 lanelet2_python/scripts/print_ids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lanelet2_python/scripts/print_ids.py b/lanelet2_python/scripts/print_ids.py
index dca9c49..6a0a2b8 100755
--- a/lanelet2_python/scripts/print_ids.py
+++ b/lanelet2_python/scripts/print_ids.py
@@ -22,12 +22,12 @@ layers = {"Points": map.pointLayer, "Line Strings": map.lineStringLayer, "Polygo
           "Lanelets": map.laneletLayer, "Areas": map.areaLayer, "Regulatory Elements": map.regulatoryElementLayer}
 
 for layer_name, layer in layers.items():
-    if not args.has_id:
+    if args.has_id is None:
         print_layer(layer, layer_name)
     else:
         for elem in layer:
             if elem.id == args.has_id:
                 print("Found ID " + str(elem.id) + " in layer " + layer_name)
                 sys.exit(0)
-if args.has_id:
-    print("ID " + args.has_id + " not in map")
+if args.has_id is not None:
+    print("ID " + str(args.has_id) + " not in map")
-- 
2.43.0


From bc913f357c14908192a830b561a541134dcff021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:41 +0000
Subject: [PATCH 64/64] fix: io handlers keep their configuration

A handler only kept a pointer to the configuration. With the default argument (or any temporary) of the factories the
pointer dangled as soon as the handler was created and config() read freed memory.
---
 .../include/lanelet2_io/io_handlers/IoHandler.h    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h b/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
index 849e4df..9fcd709 100644
--- a/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
+++ b/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
@@ -14,7 +14,7 @@ class IOHandler {  // NOLINT
  public:
   using Ptr = std::shared_ptr<IOHandler>;
   explicit IOHandler(const Projector& projector, const io::Configuration& config = io::Configuration())
-      : projector_{&projector}, config_{&config} {}
+      : projector_{&projector}, config_{config} {}
   virtual ~IOHandler() = default;
 
   /**
@@ -38,17 +38,17 @@ class IOHandler {  // NOLINT
     return *projector_;
   }
 
-  io::Configuration config() { return *config_; }
+  io::Configuration config() { return config_; }
 
  protected:
   IOHandler() = default;  // workaround for gcc5 bug
 
  private:
-  const Projector* projector_{};       //!< projection object for lat/lon
-                                       //!< from/to x/y conversions
-  const io::Configuration* config_{};  //!< config object for additional parameters.
-                                       //! Parser should always use default parameters
-                                       //! if parameters are missing
+  const Projector* projector_{};  //!< projection object for lat/lon
+                                  //!< from/to x/y conversions
+  io::Configuration config_;      //!< config object for additional parameters.
+                                  //! Parser should always use default parameters
+                                  //! if parameters are missing
 
   //! using a default projector is not allowed. The implementations define how this issue is handled.
   virtual void handleDefaultProjector() const = 0;
-- 
2.43.0

