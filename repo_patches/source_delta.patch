From c9c543f1dad0378a02e3fac8f28eac342180472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 01/12] fix: Reflect101Coordinates divides by zero for images
 one pixel wide or high

---
 SEFramework/SEFramework/Image/PaddedImage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..96a3d3e 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,10 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  if (max == 0) {
+    // A single pixel is its own mirror image
+    return 0;
+  }
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From b5e893f2ca7bfa09fe7e09b4e8f230a40ccbbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 02/12] fix: FlagsStr lacks SATURATED, printing flags of a
 saturated source throws std::out_of_range

---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From 79973b836e47c275d3db8a0db57331cc585866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 03/12] fix: MedianFilter clips the box on both sides

When the box was wider than the image, the size was limited only by the
distance to the left (top) border, and pixels beyond the right (bottom)
border were read.
---
 .../SEImplementation/Background/SE/MedianFilter.h         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..be05d1b 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -20,6 +20,7 @@
 
 #include "SEFramework/Image/VectorImage.h"
 #include "SEFramework/Image/WriteableImage.h"
+#include <algorithm>
 #include <array>
 
 namespace SourceXtractor {
@@ -125,12 +126,7 @@ private:
    *    As many pixels as could be read safely from the image, up to box_size
    */
   static int clip(int position, int box_size, int image_size) {
-    box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min(box_size / 2, std::min(position, image_size - position - 1));
   }
 
   /**
-- 
2.43.0


From cfcbde82e35fede77fd293c04cc8c6a4f57893db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 04/12] fix: moving a TransformModelComponent keeps its
 component

---
 ModelFitting/src/lib/Models/TransformModelComponent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/TransformModelComponent.cpp b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
index fa87b81..3eecc14 100644
--- a/ModelFitting/src/lib/Models/TransformModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
@@ -46,7 +46,8 @@ TransformModelComponent::TransformModelComponent(
   assert(m_transform[2] * m_inv_transform[1] + m_transform[3] * m_inv_transform[3] >= 1 - 1e-8);
 }
 
-TransformModelComponent::TransformModelComponent(TransformModelComponent&& other) {
+TransformModelComponent::TransformModelComponent(TransformModelComponent&& other)
+    : m_component(std::move(other.m_component)) {
   for (int i = 0; i < 4; i++) {
     m_transform[i] = other.m_transform[i];
     m_inv_transform[i] = other.m_inv_transform[i];
-- 
2.43.0


From b9bfe23740547ab0e3129cd3d30fef23501080df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 05/12] fix: moving a RotatedModelComponent

The observer of the angle referred to the moved-from object, whose
destructor dereferenced its moved-from parameter.
---
 .../src/lib/Models/RotatedModelComponent.cpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
index 5714cf9..8c4d883 100644
--- a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
@@ -41,12 +41,19 @@ RotatedModelComponent::RotatedModelComponent(std::unique_ptr<ModelComponent> com
 RotatedModelComponent::RotatedModelComponent(RotatedModelComponent&& other)
         : m_component {std::move(other.m_component)},
           m_rotation_angle{std::move(other.m_rotation_angle)},
-          m_cos{other.m_cos}, m_sin{other.m_sin},
-          m_observer_id (other.m_observer_id) {
+          m_cos{other.m_cos}, m_sin{other.m_sin} {
+  // The observer of the moved-from component refers to that component
+  m_rotation_angle->removeObserver(other.m_observer_id);
+  m_observer_id = m_rotation_angle->addObserver([this](double v){
+    m_cos = std::cos(v);
+    m_sin = std::sin(v);
+  });
 }
 
 RotatedModelComponent::~RotatedModelComponent() {
-  m_rotation_angle->removeObserver(m_observer_id);
+  if (m_rotation_angle) {
+    m_rotation_angle->removeObserver(m_observer_id);
+  }
 }
 
 double RotatedModelComponent::getValue(double x, double y) {
-- 
2.43.0


From 7f3f5a5d9f754938f82aeb70020c90c378582962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 06/12] fix: apertures round the lower corner of their box down

---
 SEFramework/src/lib/Aperture/CircularAperture.cpp    | 3 ++-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp  | 3 ++-
 SEFramework/src/lib/Aperture/TransformedAperture.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..33b1910 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -20,6 +20,7 @@
  *  Created on: Oct 08, 2018
  *      Author: Alejandro Alvarez
  */
+#include <cmath>
 #include <iostream>
 #include "SEFramework/Aperture/CircularAperture.h"
 
@@ -77,7 +78,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..dd69fa6 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "SEFramework/Aperture/EllipticalAperture.h"
+#include <cmath>
 #include <iostream>
 namespace SourceXtractor {
 
@@ -78,7 +79,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/TransformedAperture.cpp b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
index d88f5b8..8950372 100644
--- a/SEFramework/src/lib/Aperture/TransformedAperture.cpp
+++ b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
@@ -23,6 +23,7 @@
 
 #include "SEFramework/Aperture/TransformedAperture.h"
 #include <algorithm>
+#include <cmath>
 
 namespace SourceXtractor {
 
@@ -62,7 +63,7 @@ PixelCoordinate TransformedAperture::getMinPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::min({a.first, b.first, c.first, d.first});
   auto min_y = std::min({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::floor(x + min_x), std::floor(y + min_y));
 }
 
 PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
-- 
2.43.0


From 23cb0f55ea710e8c098541c9d3f31fc1fcb3ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 07/12] fix: measureFlux rounds the mirrored pixel position
 down

---
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..c4e8e2f 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -21,6 +21,7 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
 #include "SEFramework/Aperture/FluxMeasurement.h"
 #include "SEFramework/Image/ImageChunk.h"
 
@@ -36,8 +37,8 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
-- 
2.43.0


From 3992ee0df81a392de7fdf9ed6176c9047df843e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 08/12] fix: EngineParameter updates its engine value before it
 notifies its observers

---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..3fc1928 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,8 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 5ea42296728949b108f9115efc21fdc73e1b9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 09/12] fix: a dependent parameter brings its value up to date
 when its first observer is added

---
 ModelFitting/src/lib/Parameters/BasicParameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ModelFitting/src/lib/Parameters/BasicParameter.cpp b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
index 48bd97e..cf4e997 100644
--- a/ModelFitting/src/lib/Parameters/BasicParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
@@ -37,6 +37,8 @@ void BasicParameter::setValue(const double new_value) {
 }
 
 std::size_t BasicParameter::addObserver(ParameterObserver observer) {
+  // A value that is computed on demand while nobody observes it may be out of date
+  getValue();
   m_last_obs_id += 1;
   m_observer_map.emplace(m_last_obs_id, std::move(observer));
   return m_last_obs_id;
-- 
2.43.0


From d0aea2787a81a56b8bf43382e288650f939d3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 10/12] fix: QuadTree range queries skipped subtrees whose
 corners are all out of range

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..6131b8c 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,12 +84,10 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
-        if (dx_sq + dy_sq <= range_sq) {
+        // compare range with distance to closest point of the area covered by the subtree
+        auto dx = c.x - std::max(m_sub_trees[i]->m_min.x, std::min(c.x, m_sub_trees[i]->m_max.x));
+        auto dy = c.y - std::max(m_sub_trees[i]->m_min.y, std::min(c.y, m_sub_trees[i]->m_max.y));
+        if (dx * dx + dy * dy <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
         }
-- 
2.43.0


From d6dbde182528a844a1458ac9f6368d5cd7bae3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 11/12] fix: QuadTree::add did not terminate when as many
 points as the capacity are at the same place

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index 6131b8c..d51f5b4 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -54,7 +54,8 @@ void QuadTree<T>::add(const T& data) {
     m_sub_trees[quad]->add(data);
   } else {
     addLocally(data);
-    if (m_data.size() >= m_capacity) {
+    // Points at the same place can not be separated by splitting
+    if (m_data.size() >= m_capacity && (m_min.x < m_max.x || m_min.y < m_max.y)) {
       split();
     }
   }
-- 
2.43.0


From e6547f920b0b9a218cc7681b35a7fa6ea564f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 12/12] fix: QuadTree::remove removed equal points from several
 subtrees

---
 SEUtils/SEUtils/QuadTree.h          | 3 ++-
 SEUtils/SEUtils/_impl/QuadTree.icpp | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/SEUtils/SEUtils/QuadTree.h b/SEUtils/SEUtils/QuadTree.h
index 4d24790..46b7881 100644
--- a/SEUtils/SEUtils/QuadTree.h
+++ b/SEUtils/SEUtils/QuadTree.h
@@ -41,7 +41,8 @@ public:
   QuadTree(const QuadTree& tree);
 
   void add(const T& data);
-  void remove(const T& data);
+  // Removes one occurrence of data, returns whether it was found
+  bool remove(const T& data);
   std::vector<T> getPointsWithinRange(Coord c, double range) const;
 
 private:
diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index d51f5b4..3397ebb 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -62,20 +62,22 @@ void QuadTree<T>::add(const T& data) {
 }
 
 template<typename T>
-void QuadTree<T>::remove(const T& data) {
+bool QuadTree<T>::remove(const T& data) {
   if (m_is_divided) {
     auto c = Coord { Traits::getCoord(data, 0), Traits::getCoord(data, 1) };
     for (int i=0; i<4; i++) {
-      if (m_sub_trees[i] != nullptr && m_sub_trees[i]->isContained(c)) {
-        m_sub_trees[i]->remove(data);
+      if (m_sub_trees[i] != nullptr && m_sub_trees[i]->isContained(c) && m_sub_trees[i]->remove(data)) {
+        return true;
       }
     }
   } else {
     auto it = std::find(m_data.begin(), m_data.end(), data);
     if (it != m_data.end()) {
         m_data.erase(it);
+        return true;
     }
   }
+  return false;
 }
 
 template<typename T>
-- 
2.43.0

