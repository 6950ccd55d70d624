From 2e8ff72c6d38b63ac94bc8bb75483040e449de91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 01/21] fix: degree elevation of a Bezier segment left out the
 last inner control point

---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..a6afa81 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j <= GetDegree(dimension).get(); ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 3026bebb649abdf6e3d03e0c4c629851c0bbee55 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:33:44 +0000
Subject: [PATCH 02/21] fix: knot removal accepted removals that move the
 geometry beyond the tolerance (or to NaN)

---
 src/spl/b_spline.h | 26 ++++++++++----------------
 src/spl/nurbs.h    | 34 +++++++++++++---------------------
 2 files changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..adc01ab 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -80,8 +80,8 @@ class BSpline : public Spline<DIM> {
     int off = first - 1, i = first, j = last;
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
-    i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    i += diff;
+    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -210,7 +210,7 @@ class BSpline : public Spline<DIM> {
   }
 
   bool IsKnotRemovable(double alfi, const std::vector<double> &temp, double tolerance,
-                       int i, int j, int off, int dimension) const {
+                       int i, int off, int dimension) const {
     std::array<int, DIM> point_handler_length = this->GetPointsPerDirection();
     point_handler_length[dimension] = 0;
     util::MultiIndexHandler<DIM> point_handler(point_handler_length);
@@ -218,21 +218,15 @@ class BSpline : public Spline<DIM> {
     size_t temp_length = temp.size() / new_points;
     for (int l = 0; l < new_points; ++l, ++point_handler) {
       std::vector<double> temp1(this->GetPointDim() + 1, 1), temp2(this->GetPointDim() + 1, 1);
+      auto indices = point_handler.GetIndices();
+      indices[dimension] = i;
       for (int k = 0; k < this->GetPointDim(); ++k) {
-        temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
-        temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
+        temp1[k] = this->GetControlPoint(indices, k);
+        temp2[k] = alfi * temp[l * temp_length + (i - off + 1) * this->GetPointDim() + k]
+            + (1 - alfi) * temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
-        for (int k = 0; k < this->GetPointDim(); ++k) {
-          auto indices = point_handler.GetIndices();
-          indices[dimension] = i;
-          temp1[k] = this->GetControlPoint(indices, k);
-          temp2[k] = alfi * temp[l * temp_length + (i - off + 1) * this->GetPointDim() + k]
-              + (1 - alfi) * temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
-        }
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
-          return false;
-        }
+      if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        return false;
       }
     }
     return true;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..225ef65 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -93,8 +93,8 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp_w = GetTempNewWeights(scaling, off, last, i, j, dimension);
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
-    i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    i += diff;
+    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -398,7 +398,7 @@ class NURBS : public Spline<DIM> {
   }
 
   bool IsKnotRemovable(double alfi, const std::vector<double> &temp, const std::vector<double> &temp_w,
-                       double tolerance, int i, int j, int off, int dimension) const {
+                       double tolerance, int i, int off, int dimension) const {
     auto maxdist = physical_space_->GetMaximumDistanceFromOrigin();
     auto minw = physical_space_->GetMinimumWeight();
     tolerance = tolerance * minw / (1 + maxdist);
@@ -412,26 +412,18 @@ class NURBS : public Spline<DIM> {
     for (int l = 0; l < new_points; ++l, ++point_handler) {
       size_t offset = l * temp_length;
       size_t w_offset = l * temp_w_length;
-      std::vector<double> temp1(this->GetPointDim() + 1, temp_w[w_offset + i - off - 1]);
-      std::vector<double> temp2(this->GetPointDim() + 1, temp_w[w_offset + j - off + 1]);
+      std::vector<double> temp1(this->GetPointDim() + 1), temp2(this->GetPointDim() + 1);
+      auto indices = point_handler.GetIndices();
+      indices[dimension] = i;
       for (int k = 0; k < this->GetPointDim(); ++k) {
-        temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
-        temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
+        temp1[k] = physical_space_->GetHomogenousControlPoint(indices).GetValue(k);
+        temp2[k] = alfi * temp[offset + (i - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off + 1]
+            + (1 - alfi) * temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
-        auto indices = point_handler.GetIndices();
-        indices[dimension] = i;
-        for (int k = 0; k < this->GetPointDim(); ++k) {
-          temp1[k] = physical_space_->GetHomogenousControlPoint(indices).GetValue(k);
-          temp2[k] = alfi * temp[offset + (i - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off + 1]
-              + (1 - alfi) * temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
-        }
-        temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
-        temp2[this->GetPointDim()] =
-            alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
-          return false;
-        }
+      temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
+      temp2[this->GetPointDim()] = alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
+      if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        return false;
       }
     }
     return true;
-- 
2.43.0


From a89bafb0e35e47029487cd011f8cb64c1a69b58d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:29:44 +0000
Subject: [PATCH 03/21] fix: restoring a spline after splitting it into Bezier
 segments read past the knot vector when an inner knot vanished

---
 src/spl/spline.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index a6afa81..e8ebefd 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -309,15 +309,16 @@ class Spline {
   }
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
-    auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
-                 util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
+    auto first_inner_knot = static_cast<size_t>(GetDegree(dimension).get() + 1);
+    std::vector<ParamCoord> inner_knots;
+    for (size_t i = first_inner_knot; i + first_inner_knot < GetKnotVector(dimension)->GetNumberOfKnots(); ++i) {
+      if (inner_knots.empty() || !(inner_knots.back() == GetKnotVector(dimension)->GetKnot(i))) {
+        inner_knots.emplace_back(GetKnotVector(dimension)->GetKnot(i));
       }
     }
+    for (size_t i = 0; i < inner_knots.size(); ++i) {
+      RemoveKnot(inner_knots[i], dimension, util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[i]));
+    }
   }
 
   std::vector<baf::ControlPoint> GetBezierSegment(int dimension, int segment) const {
-- 
2.43.0


From 05305ab6954f4968ec52a3b884177bd11e4ab0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:15 +0000
Subject: [PATCH 04/21] fix: EndsWith matched strings one character too short
 and missed suffixes that also occur earlier in the string

---
 src/util/string_operations.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..6c589d4 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -72,7 +72,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length() &&
+        string.compare(string.length() - end_of_string.length(), end_of_string.length(), end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From c1ea47acb6100000771575c377f337e41aff2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:15 +0000
Subject: [PATCH 05/21] fix: StringToDouble misread numbers with an exponent
 but no decimal point, a leading decimal point or a plus sign

---
 src/util/string_operations.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 6c589d4..d4be45d 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -91,12 +91,14 @@ class StringOperations {
     if (string[0] == '-') {
       sign = -1;
       string.erase(0, 1);
+    } else if (string[0] == '+') {
+      string.erase(0, 1);
     }
     std::size_t found = string.find_first_of('.');
     std::size_t exponent = string.find_first_of("Ee");
     std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
     double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
+    double factor = pow(10, static_cast<double>(std::min({found, exponent, string.length()})) - 1);
     for (auto i = 0u; i <= end_of_number; ++i) {
       if (i != found) {
         result += std::stoi(string.substr(i, 1)) * factor;
-- 
2.43.0


From de56b78fc0df639ebc1beb27cf0084085326de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:15 +0000
Subject: [PATCH 06/21] fix: converting a second time with positions also wrote
 the splines of the first conversion

---
 src/io/io_converter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..35319b9 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -100,6 +100,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
-- 
2.43.0


From 75972f8b4369a497c5295ad7e091d489dfe5c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:08 +0000
Subject: [PATCH 07/21] fix: reading an IGES surface read two values past the
 end of the parameter data

---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From 25666265ec5b4bcba6c60db15baa12f2637b9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:39 +0000
Subject: [PATCH 08/21] fix: writing VTK points threw when rounding moved the
 last grid point past the last knot

---
 src/io/vtk_writer_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..c1147fc 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_IO_VTK_WRITER_UTILS_H_
 #define SRC_IO_VTK_WRITER_UTILS_H_
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 
@@ -56,7 +57,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        coords[j] = ParamCoord(std::min(
+            knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j], knots[j + DIM]));
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From fa5836420bfde838276f122b19dfe0b59ebfe112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:08 +0000
Subject: [PATCH 09/21] fix: geometric comparison sampled outside the parameter
 range when the first knot is not zero

---
 src/spl/spline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index e8ebefd..7e0245f 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -109,7 +109,8 @@ class Spline {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
         double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        param_coord[dim] = ParamCoord(std::min(GetKnotVector(dim)->GetKnot(0).get() + span / number * point_handler[dim],
+                                               GetKnotVector(dim)->GetLastKnot().get()));
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-- 
2.43.0


From 4f75a55bc129937370e583cb8f716308f958a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:09 +0000
Subject: [PATCH 10/21] fix: projection on a surface limited the second
 parameter to the range of the first direction

---
 src/spl/projection.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..3ba83cf 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -140,11 +140,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 9de7c540ffeae0230bfd392107cce33b502c2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:09 +0000
Subject: [PATCH 11/21] fix: projection started outside the parameter range
 when the first knot is not zero

---
 src/spl/projection.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 3ba83cf..eb31a05 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -86,9 +86,9 @@ class Projection {
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
     std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+        elements[0].GetUpperBound() + elements[0].GetLowerBound()).get())}}, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
+    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() + elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +115,10 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(
+            std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(
+            std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
-- 
2.43.0


From 0d85ca5b82aae6a3adf908932d3ea8d4654f2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:09 +0000
Subject: [PATCH 12/21] fix: sweeping along a trajectory whose first knot is
 not zero evaluated it outside its parameter range

---
 src/spl/surface_generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..bc9e0b0 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -72,7 +72,8 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    v_i.emplace_back(ParamCoord{std::min(nurbs_T->GetKnotVector(0)->GetKnot(0).get() + i * step_size,
+                                         nurbs_T->GetKnotVector(0)->GetLastKnot().get())});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From ecb52e6fa33b87cde2f4edda7612dabbd64d07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:09 +0000
Subject: [PATCH 13/21] fix: the frame of a swept surface was not orthogonal
 where the trajectory has no curvature

---
 src/spl/surface_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index bc9e0b0..34f26d8 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -170,9 +170,9 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From bc3ff70a92d34f51ca5266d5df4b5ae6432c7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 14/21] fix: the converter log relied on EndsWith matching
 empty lines to end a list of options

---
 src/io/executables/converter_log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..e0b4c98 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -39,7 +39,8 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !util::StringOperations::trim(line).empty() &&
+          !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +50,8 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !util::StringOperations::trim(line).empty() &&
+          !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
-- 
2.43.0


From 901c5d3ef618ab2029a7200a6443dc9ed9834885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 15/21] fix: derivatives of rational basis functions were only
 normalised for the first functions and with the wrong quotient rule

---
 example/iga/src/basis_function_handler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example/iga/src/basis_function_handler.h b/example/iga/src/basis_function_handler.h
index 23fef08..332f633 100644
--- a/example/iga/src/basis_function_handler.h
+++ b/example/iga/src/basis_function_handler.h
@@ -186,11 +186,11 @@ class BasisFunctionHandler {
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
       ++mih;
     }
-    for (uint64_t i = 0; i < basis_functions.size(); ++i) {
+    for (uint64_t i = 0; i < nurbs_basis_functions.size(); ++i) {
       nurbs_basis_functions[i] = nurbs_basis_functions[i] / sum_baf;
       for (int j = 0; j < DIM; ++j) {
-        nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] * sum_baf -
-            nurbs_basis_functions[i] * sum_baf_ders[j]) / pow(sum_baf, 2);
+        nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] -
+            nurbs_basis_functions[i] * sum_baf_ders[j]) / sum_baf;
       }
     }
     return nurbs_basis_function_derivatives;
-- 
2.43.0


From b52ea82e335ca3ac275bad964e4529bd828681bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 16/21] fix: boundary splines took knots and degree from the
 wrong parametric direction

---
 example/iga/src/linear_equation_assembler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/iga/src/linear_equation_assembler.h b/example/iga/src/linear_equation_assembler.h
index a563117..7691962 100644
--- a/example/iga/src/linear_equation_assembler.h
+++ b/example/iga/src/linear_equation_assembler.h
@@ -86,8 +86,8 @@ class LinearEquationAssembler {
       int m = 0;
       for (int j = 0; j < DIM; ++j) {
         if (j != i) {
-          kv_ptr[m] = spline_->GetKnotVector(m);
-          degree[m] = spline_->GetDegree(m);
+          kv_ptr[m] = spline_->GetKnotVector(j);
+          degree[m] = spline_->GetDegree(j);
           ++m;
         }
       }
-- 
2.43.0


From 335da0453f3254281f1fee31255697c15a9d1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 17/21] fix: writing a solution to VTK threw when rounding
 moved the last grid point past the last knot

---
 example/iga/src/solution_vtk_writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example/iga/src/solution_vtk_writer.h b/example/iga/src/solution_vtk_writer.h
index 019e138..7e3d45c 100644
--- a/example/iga/src/solution_vtk_writer.h
+++ b/example/iga/src/solution_vtk_writer.h
@@ -48,7 +48,8 @@ class SolutionVTKWriter {
     while (true) {
       std::array<ParamCoord, DIM> param_coords{};
       for (int i = 0; i < DIM; ++i) {
-        param_coords[i] = spl->GetKnotVector(i)->GetKnot(0) + ParamCoord{mih[i] * dxi[i]};
+        param_coords[i] = ParamCoord{std::min(spl->GetKnotVector(i)->GetKnot(0).get() + mih[i] * dxi[i],
+                                              spl->GetKnotVector(i)->GetLastKnot().get())};
       }
       point_data.emplace_back(solution_spl->Evaluate(param_coords, {cp_dim})[0]);
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
-- 
2.43.0


From 9faae940c40dff38a41886713111999cea898457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:24 +0000
Subject: [PATCH 18/21] fix: a knot vector averaged from data parameters
 started at zero instead of the first data parameter

---
 src/baf/knot_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..73c1b2c 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
-- 
2.43.0


From 8f8435fea708eedff78052f52dbc6344d622e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 19/21] Revert "fix: writing a solution to VTK threw when
 rounding moved the last grid point past the last knot"

This reverts commit 335da0453f3254281f1fee31255697c15a9d1a26.
---
 example/iga/src/solution_vtk_writer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/example/iga/src/solution_vtk_writer.h b/example/iga/src/solution_vtk_writer.h
index 7e3d45c..019e138 100644
--- a/example/iga/src/solution_vtk_writer.h
+++ b/example/iga/src/solution_vtk_writer.h
@@ -48,8 +48,7 @@ class SolutionVTKWriter {
     while (true) {
       std::array<ParamCoord, DIM> param_coords{};
       for (int i = 0; i < DIM; ++i) {
-        param_coords[i] = ParamCoord{std::min(spl->GetKnotVector(i)->GetKnot(0).get() + mih[i] * dxi[i],
-                                              spl->GetKnotVector(i)->GetLastKnot().get())};
+        param_coords[i] = spl->GetKnotVector(i)->GetKnot(0) + ParamCoord{mih[i] * dxi[i]};
       }
       point_data.emplace_back(solution_spl->Evaluate(param_coords, {cp_dim})[0]);
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
-- 
2.43.0


From d1398bf8e6d8be250496ff2530f4c7da78d45a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 20/21] Revert "fix: boundary splines took knots and degree
 from the wrong parametric direction"

This reverts commit b52ea82e335ca3ac275bad964e4529bd828681bf.
---
 example/iga/src/linear_equation_assembler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/iga/src/linear_equation_assembler.h b/example/iga/src/linear_equation_assembler.h
index 7691962..a563117 100644
--- a/example/iga/src/linear_equation_assembler.h
+++ b/example/iga/src/linear_equation_assembler.h
@@ -86,8 +86,8 @@ class LinearEquationAssembler {
       int m = 0;
       for (int j = 0; j < DIM; ++j) {
         if (j != i) {
-          kv_ptr[m] = spline_->GetKnotVector(j);
-          degree[m] = spline_->GetDegree(j);
+          kv_ptr[m] = spline_->GetKnotVector(m);
+          degree[m] = spline_->GetDegree(m);
           ++m;
         }
       }
-- 
2.43.0


From 4145bddb62175091140f1448538527e524ec77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 21/21] Revert "fix: derivatives of rational basis functions
 were only normalised for the first functions and with the wrong quotient
 rule"

This reverts commit 901c5d3ef618ab2029a7200a6443dc9ed9834885.
---
 example/iga/src/basis_function_handler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example/iga/src/basis_function_handler.h b/example/iga/src/basis_function_handler.h
index 332f633..23fef08 100644
--- a/example/iga/src/basis_function_handler.h
+++ b/example/iga/src/basis_function_handler.h
@@ -186,11 +186,11 @@ class BasisFunctionHandler {
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
       ++mih;
     }
-    for (uint64_t i = 0; i < nurbs_basis_functions.size(); ++i) {
+    for (uint64_t i = 0; i < basis_functions.size(); ++i) {
       nurbs_basis_functions[i] = nurbs_basis_functions[i] / sum_baf;
       for (int j = 0; j < DIM; ++j) {
-        nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] -
-            nurbs_basis_functions[i] * sum_baf_ders[j]) / sum_baf;
+        nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] * sum_baf -
+            nurbs_basis_functions[i] * sum_baf_ders[j]) / pow(sum_baf, 2);
       }
     }
     return nurbs_basis_function_derivatives;
-- 
2.43.0

