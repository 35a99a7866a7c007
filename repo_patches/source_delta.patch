From 551ee8a3ec1e413b68a811fe89175aecbd699b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:20 +0000
Subject: [PATCH 01/35] fix: compute the last inner control point when
 elevating the degree of a Bezier segment

DegreeElevateBezierSegment left the inner control point with index p untouched (zero weight, hence NaN coordinates after
the division by the weight), so elevating the degree changed the geometry of every spline.
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..a6afa81 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j <= GetDegree(dimension).get(); ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 43c7ca6e1301d9bcd25f22b804263d62c5c54812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:36 +0000
Subject: [PATCH 02/35] fix: refuse to remove a knot that is not an interior
 knot

RemoveKnot removed a control point and an unrelated knot when the given parameter was not a knot at all, destroyed the
clamped ends for the first and last knot, and went on after the last copy of the knot had been removed.
---
 src/spl/spline.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index a6afa81..9786afe 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -189,6 +189,7 @@ class Spline {
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
     size_t count = 0;
     for (; count < multiplicity; ++count) {
+      if (!IsInteriorKnot(knot, dimension)) break;
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
@@ -257,6 +258,11 @@ class Spline {
                                    int first, int last, int dimension, double tolerance) = 0;
 
  protected:
+  bool IsInteriorKnot(ParamCoord knot, int dimension) const {
+    return GetKnotVector(dimension)->GetMultiplicity(knot) > 0 && knot > GetKnotVector(dimension)->GetKnot(0)
+        && !GetKnotVector(dimension)->IsLastKnot(knot);
+  }
+
   void ThrowIfParametricCoordinateOutsideKnotVectorRange(std::array<ParamCoord, DIM> param_coord) const {
     parameter_space_->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
   }
-- 
2.43.0


From 221669e2994452e9a32777e69611d8d8ef68d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:55 +0000
Subject: [PATCH 03/35] fix: apply the right criterion when deciding whether a
 knot is removable

If the number of affected control points is odd, the two points compared by the first criterion are two different
control points, and a knot was removed whenever they happened to coincide.  NaN distances (zero intermediate weight)
were taken as removable, and for a knot of multiplicity p + 1 the empty list of ratios was indexed.
---
 src/spl/b_spline.h | 11 +++++++----
 src/spl/nurbs.h    | 14 +++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..55bcd79 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,7 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling, temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -209,7 +209,7 @@ class BSpline : public Spline<DIM> {
     }
   }
 
-  bool IsKnotRemovable(double alfi, const std::vector<double> &temp, double tolerance,
+  bool IsKnotRemovable(const std::vector<double> &scaling, const std::vector<double> &temp, double tolerance,
                        int i, int j, int off, int dimension) const {
     std::array<int, DIM> point_handler_length = this->GetPointsPerDirection();
     point_handler_length[dimension] = 0;
@@ -222,7 +222,10 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      // The first criterion compares two candidates for the same control point, which do not exist if i == j.
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        if (scaling.empty()) return false;
+        double alfi = scaling[i - off - 1];
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
@@ -230,7 +233,7 @@ class BSpline : public Spline<DIM> {
           temp2[k] = alfi * temp[l * temp_length + (i - off + 1) * this->GetPointDim() + k]
               + (1 - alfi) * temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         }
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..2975340 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,7 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling, temp, temp_w, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -397,8 +397,9 @@ class NURBS : public Spline<DIM> {
         (this->GetWeight(point_handler.GetIndices()) - (1 - alpha) * (*temp_w_ptr)[index + x - off + shift]) / alpha;
   }
 
-  bool IsKnotRemovable(double alfi, const std::vector<double> &temp, const std::vector<double> &temp_w,
-                       double tolerance, int i, int j, int off, int dimension) const {
+  bool IsKnotRemovable(const std::vector<double> &scaling, const std::vector<double> &temp,
+                       const std::vector<double> &temp_w, double tolerance, int i, int j, int off,
+                       int dimension) const {
     auto maxdist = physical_space_->GetMaximumDistanceFromOrigin();
     auto minw = physical_space_->GetMinimumWeight();
     tolerance = tolerance * minw / (1 + maxdist);
@@ -418,7 +419,10 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      // The first criterion compares two candidates for the same control point, which do not exist if i == j.
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        if (scaling.empty()) return false;
+        double alfi = scaling[i - off - 1];
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
@@ -429,7 +433,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From 6f0c73f9a3b1ca802a18ad251799f9d36d84f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 04/35] fix: remove the knots inserted for the Bezier
 decomposition by value

RemoveBezierKnots walked the knot vector by index while knots were removed from it: as soon as a knot vanished entirely
the positions were misaligned and it read behind the end of the knot vector.
---
 src/spl/spline.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 9786afe..8174edb 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -315,14 +315,11 @@ class Spline {
   }
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
-    auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
-                 util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
-      }
+    std::vector<ParamCoord> inner_knots(GetKnotVector(dimension)->begin(), GetKnotVector(dimension)->end());
+    inner_knots.erase(std::unique(inner_knots.begin(), inner_knots.end()), inner_knots.end());
+    for (size_t i = 0; i < diff.size() && i + 2 < inner_knots.size(); ++i) {
+      RemoveKnot(inner_knots[i + 1], dimension, util::NumericSettings<double>::kEpsilon(),
+                 static_cast<size_t>(diff[i]));
     }
   }
 
-- 
2.43.0


From e9a1649e76ee53a0d83f3c60245641a8fd802edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 05/35] fix: do not index in front of the control points when
 reducing a linear spline

Reducing the degree of a linear (or constant) spline accessed the control point with index -1.  Such a reduction is now
refused like every other one that is not possible.
---
 src/spl/spline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 8174edb..6e64241 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -228,6 +228,7 @@ class Spline {
   }
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
+    if (GetDegree(dimension).get() < 2) return false;
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<std::vector<baf::ControlPoint>> bezier_segments;
-- 
2.43.0


From 406750aa09dcb7cd32595cf1632d418a9945cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 06/35] fix: reject knots that cannot be inserted

Inserting a knot outside the knot vector range, at the first knot, or more than p + 1 times indexed the knot vector far
out of bounds or added control points without end (elevating the degree of a spline with a knot of multiplicity p + 1).
---
 src/spl/spline.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 6e64241..d51d88c 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -20,6 +20,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include <functional>
 #include <numeric>
 #include <sstream>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -161,6 +162,7 @@ class Spline {
   }
 
   void InsertKnot(ParamCoord knot, int dimension, size_t multiplicity = 1) {
+    ThrowIfKnotCannotBeInserted(knot, dimension, multiplicity);
     KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
     Degree degree = GetDegree(dimension);
     for (size_t i = 1; i <= multiplicity; ++i) {
@@ -259,6 +261,18 @@ class Spline {
                                    int first, int last, int dimension, double tolerance) = 0;
 
  protected:
+  void ThrowIfKnotCannotBeInserted(ParamCoord knot, int dimension, size_t multiplicity) const {
+    if (!GetKnotVector(dimension)->IsInKnotVectorRange(knot)) {
+      throw std::range_error("A knot can only be inserted inside the knot vector range.");
+    }
+    auto maximum_multiplicity = static_cast<size_t>(GetDegree(dimension).get()) + 1;
+    auto current_multiplicity = GetKnotVector(dimension)->GetMultiplicity(knot);
+    if (multiplicity > 0 && (current_multiplicity >= maximum_multiplicity
+        || multiplicity > maximum_multiplicity - current_multiplicity)) {
+      throw std::runtime_error("The multiplicity of a knot cannot be higher than p + 1.");
+    }
+  }
+
   bool IsInteriorKnot(ParamCoord knot, int dimension) const {
     return GetKnotVector(dimension)->GetMultiplicity(knot) > 0 && knot > GetKnotVector(dimension)->GetKnot(0)
         && !GetKnotVector(dimension)->IsLastKnot(knot);
-- 
2.43.0


From 0f3f7a4b8448d3d61f7a6fd329f96186da57fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 07/35] fix: reject an empty list of control points instead of
 accessing its first element

---
 src/spl/physical_space.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..ce5f9d0 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,7 +30,8 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()),
+        number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
-- 
2.43.0


From c57452366093995e3251bb11dcda0d19afdc9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 08/35] fix: copy the parameter and physical space in the copy
 assignment of splines

The implicit copy assignment shared both spaces between the two splines, unlike the copy constructor, so that modifying
one of them modified the other one as well.
---
 src/spl/b_spline.h | 7 +++++++
 src/spl/nurbs.h    | 7 +++++++
 src/spl/spline.h   | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 55bcd79..82f0b17 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -50,6 +50,13 @@ class BSpline : public Spline<DIM> {
     physical_space_ = std::make_shared<PhysicalSpace<DIM>>(physical_space);
   }
 
+  BSpline &operator=(const BSpline<DIM> &bspline) {
+    Spline<DIM>::operator=(bspline);
+    PhysicalSpace<DIM> physical_space(*bspline.GetPhysicalSpace());
+    physical_space_ = std::make_shared<PhysicalSpace<DIM>>(physical_space);
+    return *this;
+  }
+
   virtual ~BSpline() = default;
 
   bool AreEqual(const BSpline<DIM> &rhs, double tolerance = util::NumericSettings<double>::kEpsilon()) const {
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 2975340..5d7bc55 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -56,6 +56,13 @@ class NURBS : public Spline<DIM> {
     physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(weighted_physical_space);
   }
 
+  NURBS &operator=(const NURBS<DIM> &nurbs) {
+    Spline<DIM>::operator=(nurbs);
+    WeightedPhysicalSpace<DIM> weighted_physical_space(*nurbs.physical_space_);
+    physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(weighted_physical_space);
+    return *this;
+  }
+
   virtual ~NURBS() = default;
 
   bool AreEqual(const NURBS<DIM> &rhs, double tolerance = util::NumericSettings<double>::kEpsilon()) const {
diff --git a/src/spl/spline.h b/src/spl/spline.h
index d51d88c..dfaebb8 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -46,6 +46,11 @@ class Spline {
     ParameterSpace<DIM> parameter_space(*spline.parameter_space_);
     parameter_space_ = std::make_shared<ParameterSpace<DIM>>(parameter_space);
   }
+  Spline &operator=(const Spline<DIM> &spline) {
+    ParameterSpace<DIM> parameter_space(*spline.parameter_space_);
+    parameter_space_ = std::make_shared<ParameterSpace<DIM>>(parameter_space);
+    return *this;
+  }
 
   virtual std::vector<double> Evaluate(std::array<ParamCoord, DIM> param_coord,
                                        const std::vector<int> &dimensions) const {
-- 
2.43.0


From 106b6d6492e3703aebf0a107465b6f2507af0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 09/35] fix: compare splines geometrically on their parameter
 domain

AreGeometricallyEqual sampled from 0 instead of the first knot, could overshoot the last knot by rounding, took NaN
distances as equal and read behind the control points if the right-hand side has fewer coordinates.
---
 src/spl/spline.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index dfaebb8..c8f1110 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -103,23 +103,26 @@ class Spline {
                              double tolerance = util::NumericSettings<double>::kEpsilon()) const {
     double number = ceil(pow(100, 1.0 / DIM));
     std::array<int, DIM> points = std::array<int, DIM>();
-    std::vector<int> dimensions;
+    std::vector<int> dimensions(GetPointDim()), dimensions_rhs(rhs.GetPointDim());
+    std::iota(dimensions.begin(), dimensions.end(), 0);
+    std::iota(dimensions_rhs.begin(), dimensions_rhs.end(), 0);
     for (int i = 0; i < DIM; ++i) {
       points[i] = number + 1;
     }
-    for (int i = 0; i < GetPointDim(); ++i) {
-      dimensions.push_back(i);
-    }
     util::MultiIndexHandler<DIM> point_handler(points);
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double first = GetKnotVector(dim)->GetKnot(0).get(), last = GetKnotVector(dim)->GetLastKnot().get();
+        param_coord[dim] = ParamCoord(point_handler[dim] == points[dim] - 1 ? last :
+                                      first + (last - first) / number * point_handler[dim]);
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
-      std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-      if (util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) > tolerance) {
+      std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions_rhs);
+      // Coordinates that only one of the splines has are zero for the other one.
+      evaluate_this.resize(std::max(dimensions.size(), dimensions_rhs.size()), 0.0);
+      evaluate_rhs.resize(evaluate_this.size(), 0.0);
+      if (!(util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) <= tolerance)) {
         return false;
       }
     }
-- 
2.43.0


From 82dcc8082e4d1eae1ec24c75eaf91a004166d1de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:06:43 +0000
Subject: [PATCH 10/35] fix: convert every decimal notation of a number
 correctly

StringToDouble scaled the digits by their position in the string, so that ".5", "+1.0", "5e-1", "1e+20" and
Fortran exponents ("1.0D+02") were rejected or converted to a wrong value.
---
 src/util/string_operations.h | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..4267ed4 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -16,8 +16,9 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_UTIL_STRING_OPERATIONS_H_
 
 #include <algorithm>
-#include <cmath>
+#include <locale>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -86,33 +87,18 @@ class StringOperations {
   }
 
   static double StringToDouble(std::string string) {
-    int sign = 1;
-    if (string[0] == '-') {
-      sign = -1;
-      string.erase(0, 1);
+    if (string.find_first_not_of("+-.0123456789EeDd") != std::string::npos) {
+      throw std::invalid_argument("The string " + string + " can't be converted to a number.");
     }
-    std::size_t found = string.find_first_of('.');
-    std::size_t exponent = string.find_first_of("Ee");
-    std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
+    std::replace_if(string.begin(), string.end(), [](char ch) { return ch == 'D' || ch == 'd'; }, 'E');
+    std::istringstream stream(string);
+    stream.imbue(std::locale::classic());
     double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
-    for (auto i = 0u; i <= end_of_number; ++i) {
-      if (i != found) {
-        result += std::stoi(string.substr(i, 1)) * factor;
-        factor /= 10;
-      }
-    }
-    if (exponent != std::string::npos) {
-      if (string[exponent + 1] == '-') {
-        factor = -1;
-        ++exponent;
-      } else if (string[exponent + 1] == '+') {
-        ++exponent;
-      }
-      int potency = std::stoi(string.substr(exponent + 1, string.length() - exponent));
-      result *= factor != -1 ? pow(10, potency) : 1 / pow(10, potency);
+    char remainder;
+    if (!(stream >> result) || stream >> remainder) {
+      throw std::invalid_argument("The string " + string + " can't be converted to a number.");
     }
-    return sign * result;
+    return result;
   }
 };
 }  // namespace util
-- 
2.43.0


From 854f09384fce1a04177be870393dcb807331e083 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:06:43 +0000
Subject: [PATCH 11/35] fix: compare only the end of the string in EndsWith

The first occurrence of the ending decided, so that "a.xml.xml" did not end with ".xml" and "xml" did. Blank lines
in the log file of the converters ended a section only due to the latter.
---
 src/io/executables/converter_log.cc | 6 ++++--
 src/util/string_operations.h        | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..69d343d 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -39,7 +39,8 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !util::StringOperations::trim(line).empty()
+          && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +50,8 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !util::StringOperations::trim(line).empty()
+          && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 4267ed4..bdd02c8 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -73,7 +73,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), end_of_string.length(), end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From 67023395b9d5004200eea503202cabc7b5161fe6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 12/35] fix: read only the control points of an IGES surface

Two values behind the last coordinate were read as well, beyond the end of the parameter data.
---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From 82cd73a34b0c4646014a07a301d550b69f40cc9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 13/35] fix: reject incomplete IGES files instead of accessing
 data behind their end

---
 src/io/iges_reader.cc | 49 +++++++++++++++++++++++++++++--------------
 src/io/iges_reader.h  |  2 ++
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index d05b984..fdc0770 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -32,6 +32,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
   std::vector<std::string> directoryEntrySection;
   std::vector<std::string> parameterDataSection;
   while (getline(newFile, line)) {
+    if (line.size() <= 72) {
+      continue;
+    }
     if (line[72] == 'D') {
       directoryEntrySection.push_back(line.substr(0, 72));
     }
@@ -40,6 +43,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
     }
   }
   std::vector<std::any> splines;
+  if (directoryEntrySection.size() % 2 != 0) {
+    throw std::runtime_error("The directory entry section of the IGES file is incomplete.");
+  }
   for (int i = 0; i < directoryEntrySection.size() * 0.5; ++i) {
     int entityType = std::stoi(trim(directoryEntrySection[i * 2].substr(5, 3)));
     if (entityType == 126) {
@@ -56,9 +62,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
 }
 
 std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData) {
-  auto upperSumIndex = static_cast<int>(parameterData[1]);
+  auto upperSumIndex = GetIndex(parameterData, 1);
   std::array<Degree, 1> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[2])};
+  degree[0] = Degree{GetIndex(parameterData, 2)};
   KnotVectors<1> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -73,15 +79,15 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   controlPointsStartEnd[1] = controlPointsStartEnd[0] + (3 * upperSumIndex) + 2;
   std::vector<ParamCoord> knots;
   for (int i = knotsStartEnd[0]; i <= knotsStartEnd[1]; ++i) {
-    knots.emplace_back(parameterData[i]);
+    knots.emplace_back(parameterData.at(i));
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
   for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
@@ -92,7 +98,7 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 1; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[5] == 1) {
+  if (parameterData.at(5) == 1) {
     auto spl = std::make_shared<spl::BSpline<1>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<1>>>(spl);
   }
@@ -102,11 +108,14 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
 
 std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData) {
   std::array<int, 2> upperSumIndex{};
-  upperSumIndex[0] = static_cast<int>(parameterData[1]);
-  upperSumIndex[1] = static_cast<int>(parameterData[2]);
+  upperSumIndex[0] = GetIndex(parameterData, 1);
+  upperSumIndex[1] = GetIndex(parameterData, 2);
   std::array<Degree, 2> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[3])};
-  degree[1] = Degree{static_cast<int>(parameterData[4])};
+  degree[0] = Degree{GetIndex(parameterData, 3)};
+  degree[1] = Degree{GetIndex(parameterData, 4)};
+  if ((1.0 + upperSumIndex[0]) * (1.0 + upperSumIndex[1]) > parameterData.size()) {
+    throw std::runtime_error("The parameter data of an entity in the IGES file are incomplete.");
+  }
   KnotVectors<2> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -123,19 +132,19 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
-    knots[0].push_back(ParamCoord{parameterData[i]});
+    knots[0].push_back(ParamCoord{parameterData.at(i)});
   }
   for (int i = knotsStartEnd[1][0]; i <= knotsStartEnd[1][1]; ++i) {
-    knots[1].push_back(ParamCoord{parameterData[i]});
+    knots[1].push_back(ParamCoord{parameterData.at(i)});
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots[0]);
   knot_vector[1] = std::make_shared<baf::KnotVector>(knots[1]);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
   for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
@@ -146,7 +155,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 2; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[7] == 1) {
+  if (parameterData.at(7) == 1) {
     auto spl = std::make_shared<spl::BSpline<2>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<2>>>(spl);
   }
@@ -154,6 +163,14 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   return std::make_any<std::shared_ptr<spl::NURBS<2>>>(spl);
 }
 
+int io::IGESReader::GetIndex(const std::vector<double> &parameterData, int position) {
+  double index = parameterData.at(position);
+  if (!(index >= 0 && index <= parameterData.size())) {
+    throw std::runtime_error("The parameter data of an entity in the IGES file are incomplete.");
+  }
+  return static_cast<int>(index);
+}
+
 std::array<int, 2> io::IGESReader::GetParameterSectionStartEndPointers(std::vector<std::string> directoryEntrySection,
                                                                        int entityToBeRead) {
   std::string parameterDataStartPointer = trim(directoryEntrySection[entityToBeRead * 2].substr(8, 8));
@@ -171,7 +188,7 @@ std::vector<double> io::IGESReader::ParameterSectionToVector(std::vector<std::st
   int last = ParameterSectionStartEndPointers[1] - 1;
   std::string temp;
   for (int i = first; i <= last; ++i) {
-    temp.append(parameterSection[i]);
+    temp.append(parameterSection.at(i));
   }
   return util::StringOperations::DelimitedStringToVector(temp);
 }
diff --git a/src/io/iges_reader.h b/src/io/iges_reader.h
index 05f62bc..e81a06d 100644
--- a/src/io/iges_reader.h
+++ b/src/io/iges_reader.h
@@ -33,6 +33,8 @@ class IGESReader : public Reader {
   std::any Create1DSpline(const std::vector<double> &parameterData);
   std::any Create2DSpline(const std::vector<double> &parameterData);
 
+  static int GetIndex(const std::vector<double> &parameterData, int position);
+
   std::array<int, 2> GetParameterSectionStartEndPointers(std::vector<std::string> directoryEntrySection,
                                                          int entityToBeRead);
 
-- 
2.43.0


From 2c106d5ecde87bc36d1c4dc7e25f90d3dad82b17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 14/35] fix: separate the entries at the line ends of an IRIT
 file

The last entry of a line and the first entry of the next line were read as one entry unless the line ended or started
with a blank.
---
 src/io/irit_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..c4cecb0 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -30,7 +30,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   std::string line;
   std::string file;
   while (getline(newFile, line)) {
-    file += line;
+    file += line + '\n';
   }
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
-- 
2.43.0


From 60aacde0469949685560c5a23411476b4ae4bc74 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:07:51 +0000
Subject: [PATCH 15/35] fix: reject incomplete IRIT files instead of accessing
 data behind their end

---
 src/io/irit_reader.cc      | 25 ++++++++++++++-----------
 src/io/irit_reader_utils.h | 10 +++++-----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index c4cecb0..1efe6fc 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -49,7 +49,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
 std::vector<int> io::IRITReader::GetSplinePositions(const std::vector<std::string> &entries) const {
   std::vector<int> spline_positions;
   for (auto i = 0u; i < entries.size(); i++) {
-    if (entries[i] == "BSPLINE") {
+    if (i > 0 && entries[i] == "BSPLINE") {
       spline_positions.push_back(i - 1);
     }
   }
@@ -103,11 +103,14 @@ std::any io::IRITReader::Get3DSpline(int start, const std::vector<std::string> &
 }
 
 int io::IRITReader::GetNumberOfControlPoints(int start, const std::vector<std::string> &entries) {
-  int total_number_of_points = 1;
+  double total_number_of_points = 1;
   for (int i = 0; i < GetDimension(entries[start]); i++) {
-    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<int>({entries[start + 2 + i]})[0];
+    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<double>({entries.at(start + 2 + i)})[0];
   }
-  return total_number_of_points;
+  if (!(total_number_of_points >= 0 && total_number_of_points <= entries.size())) {
+    throw std::runtime_error("The number of control points of a spline in the IRIT file is wrong.");
+  }
+  return static_cast<int>(total_number_of_points);
 }
 
 std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
@@ -119,12 +122,12 @@ std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
   start = GetPositionOfFirstControlPoint(start, entries);
   for (int i = 0; i < number_of_control_points; i++) {
     std::vector<double> coordinates;
-    while (!util::StringOperations::EndsWith(entries[start], "]")) {
+    while (!util::StringOperations::EndsWith(entries.at(start), "]")) {
       coordinates.push_back(
-          util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+          util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     }
     coordinates.push_back(
-        util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+        util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     if (rational) {
       coordinates.erase(coordinates.begin());
     }
@@ -141,8 +144,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
   if (rational) {
     start = GetPositionOfFirstControlPoint(start, entries);
     for (auto i = 0u; i < number_of_control_points; i++) {
-      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++]));
-      while (!util::StringOperations::EndsWith(entries[start++], "]")) {}
+      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++)));
+      while (!util::StringOperations::EndsWith(entries.at(start++), "]")) {}
     }
   }
   return weights;
@@ -150,8 +153,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
 
 int io::IRITReader::GetPositionOfFirstControlPoint(int start, const std::vector<std::string> &entries) const {
   ++start;
-  while (!util::StringOperations::StartsWith(entries[start], "[")
-      || util::StringOperations::StartsWith(entries[start], "[KV")) {
+  while (!util::StringOperations::StartsWith(entries.at(start), "[")
+      || util::StringOperations::StartsWith(entries.at(start), "[KV")) {
     ++start;
   }
   return start;
diff --git a/src/io/irit_reader_utils.h b/src/io/irit_reader_utils.h
index 65efa93..e64e15d 100644
--- a/src/io/irit_reader_utils.h
+++ b/src/io/irit_reader_utils.h
@@ -30,7 +30,7 @@ class IRITReaderUtils {
     std::array<Degree, DIM> degrees;
     for (int i = 0; i < DIM; i++) {
       degrees[i] =
-          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries[start + DIM + 2 + i]})[0] - 1);
+          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries.at(start + DIM + 2 + i)})[0] - 1);
     }
     return degrees;
   }
@@ -39,10 +39,10 @@ class IRITReaderUtils {
   static KnotVectors<DIM> GetKnotVectors(int start, const std::vector<std::string> &entries) {
     KnotVectors<DIM> knot_vectors;
     for (int i = 0; i < DIM; i++) {
-      while (!util::StringOperations::StartsWith(entries[start++], "[KV")) {}
+      while (!util::StringOperations::StartsWith(entries.at(start++), "[KV")) {}
       std::vector<ParamCoord> knots;
-      while (!util::StringOperations::StartsWith(entries[start], "[")) {
-        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])));
+      while (!util::StringOperations::StartsWith(entries.at(start), "[")) {
+        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))));
       }
       knot_vectors[i] = std::make_shared<baf::KnotVector>(knots);
     }
@@ -51,7 +51,7 @@ class IRITReaderUtils {
 
   template<int DIM>
   static bool IsRational(int start_of_spline, const std::vector<std::string> &entries) {
-    return util::StringOperations::StartsWith(entries[start_of_spline + 2 * DIM + 2], "P");
+    return util::StringOperations::StartsWith(entries.at(start_of_spline + 2 * DIM + 2), "P");
   }
 };
 }  // namespace io
-- 
2.43.0


From 1798a73411a47db82aec1254c33ddb76ae2cc42a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:07:51 +0000
Subject: [PATCH 16/35] fix: reject incomplete XML files instead of accessing
 data behind their end

---
 src/io/xml_reader.cc      | 2 +-
 src/io/xml_reader_utils.h | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index ede3477..15d2121 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -103,7 +103,7 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
   for (int i = 0; i < number_of_points; i++) {
     std::vector<double> coordinates;
     for (int j = start; j < start + dimension; j++) {
-      coordinates.push_back(vars[i * number_of_vars + j]);
+      coordinates.push_back(vars.at(i * number_of_vars + j));
     }
     points.emplace_back(coordinates);
   }
diff --git a/src/io/xml_reader_utils.h b/src/io/xml_reader_utils.h
index b1bb4dc..35ca697 100644
--- a/src/io/xml_reader_utils.h
+++ b/src/io/xml_reader_utils.h
@@ -52,8 +52,7 @@ class XMLReaderUtils {
   static std::array<Degree, DIM> StringVectorToDegreeArray(const std::vector<std::string> &string_vector) {
     std::array<Degree, DIM> converted;
     for (int i = 0; i < DIM; i++) {
-      auto a = string_vector[i];
-      converted[i] = Degree{std::stoi(string_vector[i])};
+      converted[i] = Degree{std::stoi(string_vector.at(i))};
     }
     return converted;
   }
-- 
2.43.0


From fd0e72cf8da0d4582e0dcb2be1745a15c3e589e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 17/35] fix: release the reader that converts a file

---
 src/io/io_converter.cc | 8 ++++----
 src/io/io_converter.h  | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..8c11999 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -54,15 +54,15 @@ io::IOConverter::file_format io::IOConverter::GetFileFormat(const char *filename
   return error;
 }
 
-io::Reader *io::IOConverter::GetReader() const {
+std::unique_ptr<io::Reader> io::IOConverter::GetReader() const {
   if (input_format_ == iges) {
-    return new io::IGESReader;
+    return std::make_unique<io::IGESReader>();
   }
   if (input_format_ == irit) {
-    return new io::IRITReader;
+    return std::make_unique<io::IRITReader>();
   }
   if (input_format_ == xml) {
-    return new io::XMLReader;
+    return std::make_unique<io::XMLReader>();
   }
   throw std::runtime_error(R"(Only files of format ".iges", ".itd" and ".xml" can be read.)");
 }
diff --git a/src/io/io_converter.h b/src/io/io_converter.h
index 88ee4a5..f329198 100644
--- a/src/io/io_converter.h
+++ b/src/io/io_converter.h
@@ -16,6 +16,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_IO_IO_CONVERTER_H_
 
 #include <any>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -44,7 +45,7 @@ class IOConverter {
  private:
   file_format GetFileFormat(const char *filename) const;
 
-  io::Reader *GetReader() const;
+  std::unique_ptr<io::Reader> GetReader() const;
   void GetWriter(const std::vector<std::any> &splines, const std::vector<int> &positions,
                  const std::vector<std::vector<int>> &scattering);
   void WriteFile(const std::vector<std::any> &splines, const std::vector<int> &positions, int max_dim,
-- 
2.43.0


From d95ff531cf0be671649337da4a2fead2c77d999e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 18/35] fix: forget the positions of a previous conversion when
 converting a file again

---
 src/io/io_converter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index 8c11999..80ed423 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -100,6 +100,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
-- 
2.43.0


From 362bfca3aad6664ef6a73ed0306e161412b83fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 19/35] fix: report files that cannot be written

A file that could not be opened or stored completely was silently missing or truncated.
---
 src/io/iges_writer.cc | 3 +++
 src/io/irit_writer.cc | 3 +++
 src/io/vtk_writer.cc  | 3 +++
 src/io/xml_writer.cc  | 8 +++++++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index f793fe2..6131e91 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -54,6 +54,9 @@ void io::IGESWriter::WriteFile(const std::vector<std::any> &splines, const char
     WriteFile(newFile, start, global, dataEntry, parameter, terminate);
   }
   newFile.close();
+  if (!newFile.good()) {
+    throw std::runtime_error("IGES file could not be written.");
+  }
 }
 
 std::vector<std::string> io::IGESWriter::GetStartSection() const {
diff --git a/src/io/irit_writer.cc b/src/io/irit_writer.cc
index c3cef8a..0bac7f1 100644
--- a/src/io/irit_writer.cc
+++ b/src/io/irit_writer.cc
@@ -35,6 +35,9 @@ void io::IRITWriter::WriteFile(const std::vector<std::any> &splines, const char
     newFile << "]";
     newFile.close();
   }
+  if (!newFile.good()) {
+    throw std::runtime_error("IRIT file could not be written.");
+  }
 }
 
 void io::IRITWriter::AddSpline(std::ofstream &file, const std::any &spline, int spline_number) const {
diff --git a/src/io/vtk_writer.cc b/src/io/vtk_writer.cc
index 71c3ec3..5f9e543 100644
--- a/src/io/vtk_writer.cc
+++ b/src/io/vtk_writer.cc
@@ -43,6 +43,9 @@ void io::VTKWriter::WriteFile(const std::vector<std::any> &splines,
     }
     newFile.close();
   }
+  if (!newFile.good()) {
+    throw std::runtime_error("VTK file could not be written.");
+  }
 }
 
 std::vector<int> io::VTKWriter::GetSplineDimensions(const std::vector<std::any> &splines) const {
diff --git a/src/io/xml_writer.cc b/src/io/xml_writer.cc
index 1dee429..e61f0cb 100644
--- a/src/io/xml_writer.cc
+++ b/src/io/xml_writer.cc
@@ -14,6 +14,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "xml_writer.h"
 
+#include <fstream>
 #include <string>
 
 #include "any_casts.h"
@@ -28,7 +29,12 @@ void io::XMLWriter::WriteFile(const std::vector<std::any> &splines, const char *
   for (const auto &spline : splines) {
     AddSpline(&spline_list, spline);
   }
-  doc.save_file(filename, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  std::ofstream newFile(filename);
+  doc.save(newFile, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  newFile.close();
+  if (!newFile.good()) {
+    throw std::runtime_error("XML file could not be written.");
+  }
 }
 
 void io::XMLWriter::AddSpline(pugi::xml_node *spline_list, const std::any &spline) const {
-- 
2.43.0


From db58084304125ac090d3b60e7d5536c6443f6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 20/35] fix: sample the end of the domain at the last knot when
 writing VTK files

The last parameter could exceed the last knot by rounding, so that writing the spline failed.
---
 src/io/vtk_writer_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..b89f792 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -56,7 +56,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        coords[j] = ParamCoord(point_handler[j] == scattering[j] ? knots[j + DIM] :
+                               knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From 6bc2d473870173606c4f4b2aae0162e222905e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 21/35] fix: reject negative degrees and control points without
 coordinates

---
 src/spl/parameter_space.h | 5 ++++-
 src/spl/physical_space.h  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index e0b6395..0aeaac1 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -209,7 +209,10 @@ class ParameterSpace {
  private:
   void ThrowIfKnotVectorDoesNotStartAndEndWith() {
     for (int i = 0; i < DIM; i++) {
-      if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) < 2 * degree_[i].get() + 2) {
+      if (degree_[i].get() < 0) {
+        throw std::runtime_error("The degree must not be negative.");
+      }
+      if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) / 2 - 1 < degree_[i].get()) {
         throw std::runtime_error("There have to be at least 2p + 2 knots.");
       }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index ce5f9d0..01e8ae8 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -40,6 +40,9 @@ class PhysicalSpace {
       throw std::runtime_error(
           "The given number of control points in each dimension doesn't fit the length of the control point vector.");
     }
+    if (dimension_ == 0) {
+      throw std::runtime_error("There have to be control points with at least one coordinate.");
+    }
     for (auto &&cp : control_points) {
       if (cp.GetDimension() != dimension_) {
         throw std::runtime_error("The dimension has to be the same for all control points.");
-- 
2.43.0


From 4d5afab767354e559539309e3a462ed6e671d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 22/35] fix: reject files with numbers that are out of range

---
 src/io/irit_reader_utils.h   |  7 +++++--
 src/io/xml_reader.cc         |  4 ++--
 src/util/string_operations.h | 10 +++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/io/irit_reader_utils.h b/src/io/irit_reader_utils.h
index e64e15d..494200a 100644
--- a/src/io/irit_reader_utils.h
+++ b/src/io/irit_reader_utils.h
@@ -29,8 +29,11 @@ class IRITReaderUtils {
   static std::array<Degree, DIM> GetDegrees(int start, const std::vector<std::string> &entries) {
     std::array<Degree, DIM> degrees;
     for (int i = 0; i < DIM; i++) {
-      degrees[i] =
-          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries.at(start + DIM + 2 + i)})[0] - 1);
+      int order = util::StringOperations::StringVectorToNumberVector<int>({entries.at(start + DIM + 2 + i)})[0];
+      if (order < 1) {
+        throw std::runtime_error("The order of a spline in the IRIT file is not positive.");
+      }
+      degrees[i] = Degree(order - 1);
     }
     return degrees;
   }
diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index 15d2121..0a7779b 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -102,8 +102,8 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
   std::vector<baf::ControlPoint> points;
   for (int i = 0; i < number_of_points; i++) {
     std::vector<double> coordinates;
-    for (int j = start; j < start + dimension; j++) {
-      coordinates.push_back(vars.at(i * number_of_vars + j));
+    for (int j = 0; j < dimension; j++) {
+      coordinates.push_back(vars.at(static_cast<size_t>(i) * number_of_vars + start + j));
     }
     points.emplace_back(coordinates);
   }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index bdd02c8..6b943eb 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -16,10 +16,12 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_UTIL_STRING_OPERATIONS_H_
 
 #include <algorithm>
+#include <limits>
 #include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 namespace util {
@@ -63,7 +65,13 @@ class StringOperations {
   static std::vector<T> StringVectorToNumberVector(const std::vector<std::string> &string_vector) {
     std::vector<T> converted;
     for (const std::string &string : string_vector) {
-      converted.emplace_back(StringToDouble(string));
+      double number = StringToDouble(string);
+      if constexpr (std::is_integral<T>::value) {
+        if (number < std::numeric_limits<T>::min() || number > std::numeric_limits<T>::max()) {
+          throw std::out_of_range("The number " + string + " is out of range.");
+        }
+      }
+      converted.emplace_back(number);
     }
     return converted;
   }
-- 
2.43.0


From bbe0c2139ca450f67e90e5aa8c79006d3d019998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:57 +0000
Subject: [PATCH 23/35] fix: reject knot vectors that are not in ascending
 order or span no interval

Evaluating such a spline accessed basis functions that do not exist.
---
 src/spl/parameter_space.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index 0aeaac1..996e22b 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -215,6 +215,10 @@ class ParameterSpace {
       if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) / 2 - 1 < degree_[i].get()) {
         throw std::runtime_error("There have to be at least 2p + 2 knots.");
       }
+      if (!std::is_sorted(knot_vector_[i]->begin(), knot_vector_[i]->end())
+          || !(knot_vector_[i]->GetKnot(0) < knot_vector_[i]->GetLastKnot())) {
+        throw std::runtime_error("The knots have to be in ascending order and span an interval.");
+      }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
         if (knot_vector_[i]->GetKnot(0).get() != knot_vector_[i]->GetKnot(j).get()) {
           throw std::runtime_error("The first knot must have multiplicity p+1.");
-- 
2.43.0


From c71c1312b368f9ca7bd7474263d3b7431a197683 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:31 +0000
Subject: [PATCH 24/35] fix: start the projection on a curve inside of its
 parameter domain

The midpoint of the first element was computed without the lower bound of
the element, so that the projection evaluated the curve outside of its
domain if the knot vector does not start with zero.
---
 src/spl/projection.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..0874bce 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -84,11 +84,10 @@ class Projection {
                                                         const std::vector<int> &dimensions) {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
-    std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()}};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate(paramCoords, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
-- 
2.43.0


From 0ea7b44a474c658b11d0ce8a0dca9eb6715aa3ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:31 +0000
Subject: [PATCH 25/35] fix: keep the projection on a surface inside of its
 parameter domain

The starting points ignored the first knots, and the parametric coordinates
of both directions were limited by the knot vector of the first direction.
---
 src/spl/projection.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 0874bce..77046b0 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_SPL_PROJECTION_H_
 #define SRC_SPL_PROJECTION_H_
 
+#include <algorithm>
 #include <vector>
 
 #include "b_spline.h"
@@ -114,8 +115,10 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(std::min(
+            first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(std::min(
+            first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -139,11 +142,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 39e47459e8cc782ea47c05cb6a0c115f2b3fa225 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:57 +0000
Subject: [PATCH 26/35] fix: project points on surfaces in the plane

The cross product of two tangents is only defined in three dimensions. For
points with two coordinates it read and wrote behind the end of the vectors.
---
 src/spl/projection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 77046b0..f1b7d7c 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -166,6 +166,8 @@ class Projection {
                                   const std::vector<double> &current_point,
                                   const std::vector<double> &derivative_dir1,
                                   const std::vector<double> &derivative_dir2) {
+    // The tangent plane of a surface in the plane is the plane itself.
+    if (projection_point.size() != 3) return projection_point;
     std::vector<double> normal_vector = util::VectorUtils<double>::CrossProduct(derivative_dir1, derivative_dir2);
     double length = util::VectorUtils<double>::ComputeTwoNorm(normal_vector);
     std::vector<double> normed_normal_vector = util::VectorUtils<double>::ScaleVector(normal_vector, 1 / length);
-- 
2.43.0


From c695845614b62ce1c573a6c056d18d95e2fc7d85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:55:18 +0000
Subject: [PATCH 27/35] fix: sweep along the whole parameter domain of the
 trajectory

The trajectory was evaluated at multiples of the step size instead of
equally spaced parametric coordinates from its first to its last knot, and
the knot vector of the swept surface always started with zero.
---
 src/baf/knot_vector.cc       | 2 +-
 src/spl/surface_generator.cc | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..73c1b2c 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..1cf2b01 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -16,6 +16,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "surface_generator.h"
 
+#include <algorithm>
+
 spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nurbs_T,
                                         std::shared_ptr<spl::NURBS<1>> const &nurbs_C) {
   this->parameter_space_ = JoinParameterSpaces(nurbs_T, nurbs_C);
@@ -54,6 +56,8 @@ std::shared_ptr<spl::WeightedPhysicalSpace<2>> spl::SurfaceGenerator::JoinPhysic
 spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nurbs_T,
                                         std::shared_ptr<spl::NURBS<1>> const &nurbs_C,
                                         int nbInter, std::vector<std::array<double, 3>> scaling) {
+  double first_knot = nurbs_T->GetKnotVector(0)->GetKnot(0).get();
+  double last_knot = nurbs_T->GetKnotVector(0)->GetLastKnot().get();
   double step_size = nurbs_T->GetKnotVectorRange(0) / (nbInter - 1);
   std::vector<ParamCoord> v_i;
   std::vector<double> dT_v;
@@ -72,7 +76,7 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    v_i.emplace_back(ParamCoord{i == nbInter - 1 ? last_knot : std::min(first_knot + i * step_size, last_knot)});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From b3287f3012806813ba0b1b418a23cca4c1da785b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:55:31 +0000
Subject: [PATCH 28/35] fix: orthonormal frame of swept surfaces along straight
 trajectories

Where the trajectory has no curvature, the normal was not orthogonal to the
tangent (the position was used in its place) or not a number (tangent in the
direction of the previous normal), and rounding errors of the derivatives
were taken for a curvature.
---
 src/spl/surface_generator.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 1cf2b01..3db8e19 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -151,14 +151,16 @@ double spl::SurfaceGenerator::ComputeNorm(std::array<double, 3> a) {
   return std::sqrt(norm);
 }
 
-std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T,
+std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double>,
                                                            std::vector<double> dT,
                                                            std::vector<double> ddT,
                                                            std::array<double, 3> previous,
                                                            int index) {
-  std::array<double, 3> crossProduct = CrossProduct(dT, std::move(ddT));
+  std::array<double, 3> crossProduct = CrossProduct(dT, ddT);
   double norm_cross = ComputeNorm(crossProduct);
-  if (norm_cross > 0.0) {
+  double norm_dT = ComputeNorm(dT);
+  // Rounding errors of the derivatives do not define a direction of curvature.
+  if (norm_cross > 1e-10 * norm_dT * std::max(norm_dT, ComputeNorm(ddT))) {
     for (int i = 0; i < 3; ++i) {
       crossProduct[i] /= norm_cross;
     }
@@ -169,13 +171,17 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
     }
     return crossProduct;
   }
-  double norm_dT = ComputeNorm(dT);
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
+  if (std::abs(product) > 1 - 1e-10) {
+    previous = {0.0, 0.0, 0.0};
+    previous[std::abs(dT[0]) < 0.5 ? 0 : 1] = 1.0;
+    product = DotProduct(previous, dT);
+  }
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From cc0b7e189f135cd004474e834eb4da433f2019ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:55:46 +0000
Subject: [PATCH 29/35] fix: reject negative positions when filtering a vector

---
 src/util/vector_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/vector_utils.h b/src/util/vector_utils.h
index 6ac5548..46b22c9 100644
--- a/src/util/vector_utils.h
+++ b/src/util/vector_utils.h
@@ -69,10 +69,10 @@ class VectorUtils {
   static std::vector<T> FilterVector(const std::vector<T> &input, const std::vector<int> &positions) {
     std::vector<T> output;
     for (const auto &pos : positions) {
-      if (pos < static_cast<int>(input.size())) {
+      if (pos >= 0 && pos < static_cast<int>(input.size())) {
         output.emplace_back(input[pos]);
       } else {
-        throw std::runtime_error("The vector index is too high to be filtered from the input vector.");
+        throw std::runtime_error("The vector index is out of range to be filtered from the input vector.");
       }
     }
     return output;
-- 
2.43.0


From 918ac6d78507212064aba41596ba9e66e2e421f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:55:46 +0000
Subject: [PATCH 30/35] fix: converter log without positions

The first position was read from an empty vector if the log file lists no
positions.
---
 src/io/executables/converter_log.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 69d343d..17d3740 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -68,7 +68,7 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
-  if (positions_[0] == -1) {
+  if (!positions_.empty() && positions_[0] == -1) {
     written_ = possible_positions;
   } else {
     for (const auto &pos : positions_) {
@@ -84,7 +84,7 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
 
 std::vector<std::vector<int>> io::ConverterLog::GetScattering() {
   std::vector<int> indices;
-  if (positions_[0] != -1) {
+  if (positions_.empty() || positions_[0] != -1) {
     for (int i = 0; i < static_cast<int>(positions_.size()); ++i) {
       if (std::find(written_.begin(), written_.end(), positions_[i]) != written_.end()) {
         indices.emplace_back(i);
-- 
2.43.0


From bd00135c7087d5764351827fef0f3d775307dd05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 31/35] fix: IGES global section: file name as string, dates as
 strings of fifteen characters

---
 src/io/iges_writer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index 6131e91..3f294d2 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -69,7 +69,8 @@ std::vector<std::string> io::IGESWriter::GetGlobalSection(const std::string &fil
                                                           const std::vector<std::any> &splines) const {
   std::string contents;
   AddToContents(&contents, {GetHollerithFormat(delimiter), GetHollerithFormat(endDelimiter),
-                            GetHollerithFormat("unknown"), filename, GetHollerithFormat("SplineLib"),
+                            GetHollerithFormat("unknown"), GetHollerithFormat(filename),
+                            GetHollerithFormat("SplineLib"),
                             GetHollerithFormat("pre_release"),
                             GetString(std::numeric_limits<int>::digits),
                             GetString(std::numeric_limits<float>::max_exponent),
@@ -78,9 +79,9 @@ std::vector<std::string> io::IGESWriter::GetGlobalSection(const std::string &fil
                             GetString(std::numeric_limits<double>::digits), GetHollerithFormat("unknown"),
                             GetString(1.0),
                             GetString(2), GetHollerithFormat("MM"), GetString(1), GetString(0.001),
-                            GetHollerithFormat(GetTime()), GetString(0.000001), GetString(GetHighestValue(splines)),
+                            GetTime(), GetString(0.000001), GetString(GetHighestValue(splines)),
                             GetHollerithFormat("unknown"), GetHollerithFormat("unknown"), GetString(11),
-                            GetString(0), GetHollerithFormat(GetTime())}, delimiter);
+                            GetString(0), GetTime()}, delimiter);
   contents += endDelimiter;
   return GetGlobalSectionLayout(&contents);
 }
@@ -305,7 +306,7 @@ std::string io::IGESWriter::GetTime() const {
   struct tm ptm = util::SystemOperations::GetTime();
   std::string date = GetString((ptm.tm_year + 1900) * 10000 + (ptm.tm_mon + 1) * 100 + ptm.tm_mday);
   std::string time = GetString(ptm.tm_hour * 10000 + ptm.tm_min * 100 + ptm.tm_sec);
-  return GetHollerithFormat(date + "." + time);
+  return GetHollerithFormat(date + "." + std::string(6 - time.size(), '0') + time);
 }
 
 double io::IGESWriter::GetHighestValue(std::vector<std::any> splines) const {
-- 
2.43.0


From d434a25265468a907ecaeeacd33b2e0c6cdc70eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 32/35] fix: IGES curves and surfaces are written with their
 parameter range

---
 src/io/iges_writer.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index 3f294d2..ef635bc 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -149,12 +149,10 @@ void io::IGESWriter::GetParameterData1D(std::string *contents,
   }
   for (int i = 0; i < spl->GetNumberOfControlPoints(); ++i) {
     for (int j = 0; j < 3; ++j) {
-      contents->append(GetString(Get3DControlPoint(spl, i, j)));
-      if (i != spl->GetNumberOfControlPoints() - 1 || j != 2) {
-        contents->append(delimiter);
-      }
+      contents->append(GetString(Get3DControlPoint(spl, i, j)) + delimiter);
     }
   }
+  contents->append(GetString(knots.GetKnot(0).get()) + delimiter + GetString(knots.GetLastKnot().get()));
 }
 
 void io::IGESWriter::GetParameterData2D(std::string *contents,
@@ -188,12 +186,11 @@ void io::IGESWriter::GetParameterData2D(std::string *contents,
   }
   for (int i = 0; i < spl->GetNumberOfControlPoints(); ++i) {
     for (int j = 0; j < 3; ++j) {
-      contents->append(GetString(Get3DControlPoint(spl, i, j)));
-      if (i != spl->GetNumberOfControlPoints() - 1 || j != 2) {
-        contents->append(delimiter);
-      }
+      contents->append(GetString(Get3DControlPoint(spl, i, j)) + delimiter);
     }
   }
+  contents->append(GetString(knots1.GetKnot(0).get()) + delimiter + GetString(knots1.GetLastKnot().get()) + delimiter
+                       + GetString(knots2.GetKnot(0).get()) + delimiter + GetString(knots2.GetLastKnot().get()));
 }
 
 template<int DIM>
-- 
2.43.0


From dbf57cbc2bd8c42713fdff26769dce033797e066 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 33/35] fix: numbers in IGES files are not broken over two
 lines

---
 src/io/iges_writer.cc | 26 ++++++++++++++++++++++----
 src/io/iges_writer.h  |  3 +++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index ef635bc..37b6e29 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -89,8 +89,8 @@ std::vector<std::string> io::IGESWriter::GetGlobalSection(const std::string &fil
 std::vector<std::string> io::IGESWriter::GetGlobalSectionLayout(const std::string *contents) const {
   int line = 0;
   std::vector<std::string> globalSection;
-  for (auto i = 0u; i <= (contents->size() - 1) / 72; ++i) {
-    globalSection.emplace_back(GetBlock(contents->substr(i * 72, 72), 72, false)
+  for (const auto &record : GetFreeFormatLines(*contents, 72)) {
+    globalSection.emplace_back(GetBlock(record, 72, false)
                                    + 'G' + GetBlock(GetString(++line), 7, true));
   }
   return globalSection;
@@ -115,14 +115,32 @@ std::vector<std::string> io::IGESWriter::GetParameterSectionLayout(const std::st
                                                                    int entityPosition,
                                                                    int *pLine) const {
   std::vector<std::string> parameterData;
-  for (auto i = 0u; i <= (contents->size() - 1) / 64; i++) {
-    parameterData.emplace_back(GetBlock(contents->substr(i * 64, 64), 64, false)
+  for (const auto &record : GetFreeFormatLines(*contents, 64)) {
+    parameterData.emplace_back(GetBlock(record, 64, false)
                                    + ' ' + GetBlock(GetString(entityPosition), 7, true)
                                    + 'P' + GetBlock(GetString(++(*pLine)), 7, true));
   }
   return parameterData;
 }
 
+std::vector<std::string> io::IGESWriter::GetFreeFormatLines(const std::string &contents, size_t width) const {
+  std::vector<std::string> lines(1);
+  for (size_t start = 0, length; start < contents.size(); start += length) {
+    size_t digits = contents.find_first_not_of("0123456789", start) - start;
+    bool isString = digits > 0 && contents[start + digits] == 'H';
+    length = isString ? digits + 2 + std::stoul(contents.substr(start, digits))
+                      : contents.find_first_of(",;", start) + 1 - start;
+    if (!isString && lines.back().size() + length > width) lines.emplace_back();
+    lines.back() += contents.substr(start, length);
+    while (lines.back().size() > width) {
+      std::string rest = lines.back().substr(width);
+      lines.back().resize(width);
+      lines.emplace_back(rest);
+    }
+  }
+  return lines;
+}
+
 void io::IGESWriter::GetParameterData1D(std::string *contents,
                                         const std::string &delimiter,
                                         const std::any &spline) const {
diff --git a/src/io/iges_writer.h b/src/io/iges_writer.h
index 8dacbe9..ce38214 100644
--- a/src/io/iges_writer.h
+++ b/src/io/iges_writer.h
@@ -46,6 +46,9 @@ class IGESWriter : public Writer {
                                             const std::any &spline, int entityPosition, int *pLine) const;
   std::vector<std::string> GetParameterSectionLayout(const std::string *contents, int entityPosition, int *pLine) const;
 
+  // Only strings may be continued on the next line, a number and its delimiter have to be on one line.
+  std::vector<std::string> GetFreeFormatLines(const std::string &contents, size_t width) const;
+
   void GetParameterData1D(std::string *contents, const std::string &delimiter, const std::any &spline) const;
   void GetParameterData2D(std::string *contents, const std::string &delimiter, const std::any &spline) const;
 
-- 
2.43.0


From 08d348cb2f77e0f1cc89dc91b5f48cf47db1d0c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:32:16 +0000
Subject: [PATCH 34/35] fix: expansion of splines with negative coordinates

---
 src/spl/physical_space.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 01e8ae8..ebcb62a 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_SPL_PHYSICAL_SPACE_H_
 #define SRC_SPL_PHYSICAL_SPACE_H_
 
+#include <cmath>
 #include <stdexcept>
 #include <vector>
 
@@ -145,7 +146,7 @@ class PhysicalSpace {
   double GetExpansion() const {
     double expansion = 0;
     for (auto &cp : control_points_) {
-      if (cp > expansion) expansion = cp;
+      if (std::abs(cp) > expansion) expansion = std::abs(cp);
     }
     return expansion;
   }
-- 
2.43.0


From 6ac6a92ac455b07c1efc69027dbb3facbf687e43 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:34:23 +0000
Subject: [PATCH 35/35] fix: IRIT and XML files may separate entries by tabs
 and end lines by CRLF

---
 src/io/irit_reader.cc        | 2 +-
 src/io/xml_reader.cc         | 6 +++---
 src/io/xml_reader_utils.h    | 5 +++--
 src/util/string_operations.h | 6 ++++++
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 1efe6fc..34164d4 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -32,7 +32,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   while (getline(newFile, line)) {
     file += line + '\n';
   }
-  std::vector<std::string> entries = util::StringOperations::split(file, ' ');
+  std::vector<std::string> entries = util::StringOperations::SplitAtWhitespace(file);
   std::vector<int> spline_positions = GetSplinePositions(entries);
   for (int &spline_position : spline_positions) {
     if (GetDimension(entries[spline_position]) == 1) {
diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index 0a7779b..adbebb9 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -94,7 +94,7 @@ std::any io::XMLReader::Get4DSpline(pugi::xml_node *spline, const std::vector<ba
 
 std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *spline) {
   std::vector<double> vars = util::StringOperations::StringVectorToNumberVector<double>(
-      util::StringOperations::split(spline->child("cntrlPntVars").first_child().value(), ' '));
+      util::StringOperations::SplitAtWhitespace(spline->child("cntrlPntVars").first_child().value()));
   int start = FindCoordinatePosition(spline->child("cntrlPntVarNames").first_child().value());
   int dimension = std::stoi(spline->attribute("spaceDim").value());
   int number_of_vars = std::stoi(spline->attribute("numOfCntrlPntVars").value());
@@ -112,11 +112,11 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
 
 std::vector<double> io::XMLReader::GetWeights(pugi::xml_node *spline) {
   return util::StringOperations::StringVectorToNumberVector<double>(
-      util::StringOperations::split(spline->child("wght").first_child().value(), ' '));
+      util::StringOperations::SplitAtWhitespace(spline->child("wght").first_child().value()));
 }
 
 int io::XMLReader::FindCoordinatePosition(const std::string &string) {
-  std::vector<std::string> vars = util::StringOperations::split(string, ' ');
+  std::vector<std::string> vars = util::StringOperations::SplitAtWhitespace(string);
   for (int i = 0; i < static_cast<int>(vars.size()); i++) {
     if (vars[i] == "x") {
       return i;
diff --git a/src/io/xml_reader_utils.h b/src/io/xml_reader_utils.h
index 35ca697..a1f225f 100644
--- a/src/io/xml_reader_utils.h
+++ b/src/io/xml_reader_utils.h
@@ -29,7 +29,8 @@ template<int DIM>
 class XMLReaderUtils {
  public:
   static std::array<Degree, DIM> GetDegrees(pugi::xml_node *spline) {
-    return StringVectorToDegreeArray(util::StringOperations::split(spline->child("deg").first_child().value(), ' '));
+    return StringVectorToDegreeArray(
+        util::StringOperations::SplitAtWhitespace(spline->child("deg").first_child().value()));
   }
 
   static KnotVectors<DIM> GetKnotVectors(pugi::xml_node *spline) {
@@ -44,7 +45,7 @@ class XMLReaderUtils {
       }
       knot_vector[i] = std::make_shared<baf::KnotVector>(
           baf::KnotVector(util::StringOperations::StringVectorToNumberVector<ParamCoord>(
-              util::StringOperations::split(child.first_child().value(), ' '))));
+              util::StringOperations::SplitAtWhitespace(child.first_child().value()))));
     }
     return knot_vector;
   }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 6b943eb..34d61ca 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -16,6 +16,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_UTIL_STRING_OPERATIONS_H_
 
 #include <algorithm>
+#include <iterator>
 #include <limits>
 #include <locale>
 #include <sstream>
@@ -41,6 +42,11 @@ class StringOperations {
     return splitted_string;
   }
 
+  static std::vector<std::string> SplitAtWhitespace(const std::string &string) {
+    std::istringstream ss_string(string);
+    return {std::istream_iterator<std::string>(ss_string), std::istream_iterator<std::string>()};
+  }
+
   static std::vector<double> DelimitedStringToVector(std::string str) {
     std::vector<double> vector;
     std::size_t found1;
-- 
2.43.0

