From 0a05f5644e53b0a3fc31f3b8a8b688b668cce059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 01/36] fix: Duration32 scaling and division never produce NaN
 for zero durations

Zero() * infinity and Zero() / 0 returned NaN although the documentation of
Duration32 promises that arithmetic never does.
---
 ink/types/duration.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..feb4c04 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -32,7 +32,12 @@ Duration32 operator*(Duration32 d, float scale) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
-  return Duration32(d.value_seconds_ * scale);
+  float product = d.value_seconds_ * scale;
+  if (std::isnan(product)) {
+    // Zero duration times infinite scale.
+    return scale >= 0 ? Duration32::Infinite() : -Duration32::Infinite();
+  }
+  return Duration32(product);
 }
 
 Duration32 operator/(Duration32 d, float divisor) {
@@ -45,7 +50,12 @@ Duration32 operator/(Duration32 d, float divisor) {
                ? Duration32::Infinite()
                : -Duration32::Infinite();
   }
-  return Duration32(d.value_seconds_ / divisor);
+  float quotient = d.value_seconds_ / divisor;
+  if (std::isnan(quotient)) {
+    // Zero duration divided by zero.
+    return Duration32::Infinite();
+  }
+  return Duration32(quotient);
 }
 
 float operator/(Duration32 a, Duration32 b) {
-- 
2.43.0


From a60d18764afbca18613882d999d27cd3882b9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 02/36] fix: appending a StrokeInputBatch to itself reads its
 own storage while growing it

---
 ink/strokes/input/stroke_input_batch.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..8fd0826 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -334,6 +334,12 @@ absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
     return absl::OkStatus();
   }
 
+  if (&inputs == this) {
+    // Append a (cheap, copy-on-write) copy instead, so that the data being read
+    // is not the vector that is being modified.
+    return Append(StrokeInputBatch(inputs));
+  }
+
   if (absl::Status status =
           ValidateConsecutiveInputs(Get(Size() - 1), inputs.Get(0));
       !status.ok()) {
-- 
2.43.0


From a915548c2f3c0480c416e4576a5c1c82a181788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 03/36] fix: re-model the last real input whenever predicted
 inputs are removed

If the predicted inputs of an update produced no modeled inputs (each within brush
epsilon of the previous one), a following update without inputs returned early and
left the last real input modeled as if prediction followed: the finished stroke lagged
behind its last input, depending on predictions that were discarded.
---
 ink/strokes/internal/stroke_input_modeler.cc | 12 ++++++++----
 ink/strokes/internal/stroke_input_modeler.h  |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..9d6622e 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -56,6 +56,7 @@ void StrokeInputModeler::StartStroke(const BrushFamily::InputModel& input_model,
   input_model_ = input_model;
   brush_epsilon_ = brush_epsilon;
   last_real_stroke_input_.reset();
+  last_update_had_predicted_inputs_ = false;
   state_.tool_type = StrokeInput::ToolType::kUnknown;
   state_.stroke_unit_length = std::nullopt;
   state_.complete_elapsed_time = Duration32::Zero();
@@ -176,12 +177,15 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
   };
 
   if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty() &&
-      state_.real_input_count == modeled_inputs_.size()) {
-    // We can return early, because there are no new inputs, and none of the
-    // modeled inputs came from previous `predicted_inputs`. This allows us to
-    // skip re-modeling the `last_real_stroke_input_`.
+      !last_update_had_predicted_inputs_) {
+    // We can return early, because there are no new inputs, and the previous
+    // update had no `predicted_inputs`. This allows us to skip re-modeling the
+    // `last_real_stroke_input_`. Note that it would not be enough for none of
+    // the modeled inputs to have come from prediction: prediction also affects
+    // how the `last_real_stroke_input_` was modeled.
     return;
   }
+  last_update_had_predicted_inputs_ = !predicted_inputs.IsEmpty();
 
   if (!last_real_stroke_input_.has_value()) {
     state_.tool_type = real_inputs.IsEmpty() ? predicted_inputs.GetToolType()
diff --git a/ink/strokes/internal/stroke_input_modeler.h b/ink/strokes/internal/stroke_input_modeler.h
index 1063679..49ba8dd 100644
--- a/ink/strokes/internal/stroke_input_modeler.h
+++ b/ink/strokes/internal/stroke_input_modeler.h
@@ -178,6 +178,9 @@ class StrokeInputModeler {
   stroke_model::StrokeModeler stroke_modeler_;
   std::vector<stroke_model::Result> result_buffer_;
   std::optional<StrokeInput> last_real_stroke_input_;
+  // Whether the most recent call to `ExtendStroke()` that modeled any inputs
+  // was given predicted inputs.
+  bool last_update_had_predicted_inputs_ = false;
   // All modeled inputs for a stroke.
   std::vector<ModeledStrokeInput> modeled_inputs_;
   bool stroke_modeler_has_input_ = false;
-- 
2.43.0


From d261302a64f08d20b2341016ebe27d2d09c861a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 04/36] fix: setting a stroke's inputs to its own inputs no
 longer clears them

---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From 28a663e811e7fbdc5125cc64413d06e6804cf0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 05/36] fix: report no traveled distance when a stroke has no
 modeled inputs left

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 9d6622e..d9e49b0 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -315,6 +315,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From e75915a97b7776bbe152091a1f8c98fb12c3e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 06/36] fix: keep brush behavior node values and target
 modifiers finite

---
 .../internal/brush_tip_modeler_helpers.cc       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..2eb361b 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -390,6 +390,9 @@ void ProcessBehaviorNodeImpl(const DampingNodeImplementation& node,
                                             elapsed_time_delta, damping_time);
       } break;
     }
+    // If the transition overflowed, snap the damped value to the input so that
+    // it stays finite.
+    if (!std::isfinite(damped_value)) damped_value = input;
   }
   context.stack.back() = damped_value;
 }
@@ -397,7 +400,13 @@ void ProcessBehaviorNodeImpl(const DampingNodeImplementation& node,
 void ProcessBehaviorNodeImpl(const EasingImplementation& node,
                              const BehaviorNodeContext& context) {
   ABSL_DCHECK(!context.stack.empty());
-  context.stack.back() = node.GetY(context.stack.back());
+  float* result = &context.stack.back();
+  *result = node.GetY(*result);
+  // If the response curve resulted in a non-finite value (e.g. overflow to
+  // infinity), treat the result as null.
+  if (!std::isfinite(*result)) {
+    *result = kNullBehaviorNodeValue;
+  }
 }
 
 void ProcessBehaviorNodeImpl(const BrushBehavior::BinaryOpNode& node,
@@ -465,8 +474,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the above resulted in a non-finite value (e.g. overflow to infinity),
+  // treat it as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From 0ace9fcdff2254079f1ec20e1ee1f4a5623d37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 07/36] fix: interpolating modeled inputs without orientation
 keeps orientation absent

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 2eb361b..5522534 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -657,8 +657,13 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
           .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
           .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          // `kNoOrientation` is a negative sentinel value that must not be
+          // normalized.
+          .orientation = a.orientation == StrokeInput::kNoOrientation ||
+                                 b.orientation == StrokeInput::kNoOrientation
+                             ? StrokeInput::kNoOrientation
+                             : geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From b0b3fc2c4c65e188d666fc3c9eb3d758b91a55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 08/36] fix: tip states with travel-relative position offsets
 depend on the next input

---
 ink/strokes/internal/brush_tip_modeler.cc | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..83c414e 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,30 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  switch (target) {
+    case BrushBehavior::Target::kPositionOffsetForwardInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetLateralInMultiplesOfBrushSize:
+      // These offsets are relative to the travel direction.
+      return true;
+    case BrushBehavior::Target::kWidthMultiplier:
+    case BrushBehavior::Target::kHeightMultiplier:
+    case BrushBehavior::Target::kSizeMultiplier:
+    case BrushBehavior::Target::kSlantOffsetInRadians:
+    case BrushBehavior::Target::kPinchOffset:
+    case BrushBehavior::Target::kRotationOffsetInRadians:
+    case BrushBehavior::Target::kCornerRoundingOffset:
+    case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetYInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kHueOffsetInRadians:
+    case BrushBehavior::Target::kSaturationMultiplier:
+    case BrushBehavior::Target::kLuminosity:
+    case BrushBehavior::Target::kOpacityMultiplier:
+      break;
+  }
+  return false;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +394,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From 2bb75fbd245089de6b2852b6fe74a8c1f4b34ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 09/36] fix: intersection tests of tiny segments and triangles
 must not multiply signs

The product of two small determinants underflows to zero, which was taken for
the point lying on the line: disjoint segments and triangles with coordinates
around 1e-13 were reported as intersecting.
---
 ink/geometry/internal/intersects_internal.cc |  7 ++++++-
 ink/geometry/triangle.cc                     | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..5af33ab 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -88,7 +88,12 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   float v2 = Vec::Determinant(vec_a, b.end - a.start);
   float v3 = Vec::Determinant(vec_b, a.start - b.start);
   float v4 = Vec::Determinant(vec_b, a.end - b.start);
-  return v1 * v2 <= 0 && v3 * v4 <= 0;
+  // Compare signs instead of multiplying, since the product of two small
+  // non-zero values may underflow to zero.
+  auto on_opposite_sides = [](float d1, float d2) {
+    return (d1 <= 0 && d2 >= 0) || (d1 >= 0 && d2 <= 0);
+  };
+  return on_opposite_sides(v1, v2) && on_opposite_sides(v3, v4);
 }
 bool IntersectsInternal(const Segment& a, const Triangle& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..6ce88cb 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -26,10 +26,23 @@
 
 namespace ink {
 
+namespace {
+
+// These compare signs instead of multiplying, since the product of two small
+// non-zero values may underflow to zero.
+bool HaveOppositeSigns(float a, float b) {
+  return (a < 0 && b > 0) || (a > 0 && b < 0);
+}
+bool AreOnSameSide(float a, float b) {
+  return (a >= 0 && b >= 0) || (a <= 0 && b <= 0);
+}
+
+}  // namespace
+
 bool Triangle::Contains(Point point) const {
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
-  if (d0 * d1 < 0) return false;
+  if (HaveOppositeSigns(d0, d1)) return false;
 
   if (d0 == 0 && d1 == 0) {
     // The test point is on the same line as two segments of the triangle, which
@@ -79,7 +92,7 @@ bool Triangle::Contains(Point point) const {
   }
 
   float d2 = Vec::Determinant(point - p2, p0 - p2);
-  return (d1 * d2 >= 0) && (d0 * d2 >= 0);
+  return AreOnSameSide(d1, d2) && AreOnSameSide(d0, d2);
 }
 
 Segment Triangle::GetEdge(int index) const {
-- 
2.43.0


From c7071a18fd72c82c936349183f4f42699b525d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 10/36] fix: queries on a PartitionedMesh with render groups
 but no meshes must not crash

VisitIntersectedTriangles, Coverage, CoverageIsGreaterThan and
InitializeSpatialIndex CHECK-failed on a PartitionedMesh that has data but no
meshes (e.g. WithEmptyGroups(), or the shape of a stroke without inputs).
---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 09fb1e26cf66c014fdb606f8146da57aec674fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 11/36] fix: coverage of a PartitionedMesh without area is
 zero, not NaN

---
 ink/geometry/partitioned_mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 55536a7..0379668 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -458,6 +458,9 @@ float ComputeCoverage(const QueryType& query,
                       const AffineTransform& query_to_target,
                       const PartitionedMesh& target,
                       float total_absolute_area) {
+  // If every triangle is degenerate, there is no area that could be covered.
+  if (total_absolute_area == 0) return 0;
+
   float covered_area = 0;
   target.VisitIntersectedTriangles(
       query,
-- 
2.43.0


From 91fc2b9f893c7f32d24a62b1d43de628fb62045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 12/36] fix: triangle indices of a PartitionedMesh must not
 wrap at 65536

TriangleIndexPair held the index in 16 bits, but a mesh of fewer than 2^16
vertices can have more triangles than that; the spatial index then never got
past them.
---
 ink/geometry/partitioned_mesh.cc | 2 +-
 ink/geometry/partitioned_mesh.h  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 0379668..2d6d1d9 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -587,7 +587,7 @@ const RTree& PartitionedMesh::Data::SpatialIndex() const {
   // in order of mesh index, then triangle index.
   //
   // We want to start at mesh_index = 0, triangle_index = 0, but since they're
-  // `uint16_t`s, we have to make a copy of the current index, then increment
+  // unsigned, we have to make a copy of the current index, then increment
   // the current value, then return the copy (analogous to the post-increment
   // operator).
   auto triangle_index_pair_generator =
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index a8ee5a0..8416b2d 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -77,8 +77,9 @@ class PartitionedMesh {
   struct TriangleIndexPair {
     // The index of the `Mesh` that the triangle belongs to.
     uint16_t mesh_index;
-    // The index of the triangle within the `Mesh`.
-    uint16_t triangle_index;
+    // The index of the triangle within the `Mesh`. Note that a `Mesh` may have
+    // more than 2^16 triangles, even though it can't have as many vertices.
+    uint32_t triangle_index;
   };
 
   // One render group for a `PartitionedMesh`, expressed using `MutableMesh`.
-- 
2.43.0


From 0021cfd76c593414b9880d85030565519371503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 13/36] fix: a mesh is not a point because one diagonal of its
 bounds collapses

CalculateCollapsedSegment took a shape to collapse to a point when the
transform mapped one particular diagonal of its bounds to a point.
---
 ink/geometry/internal/algorithms.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..c36e267 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -238,11 +238,19 @@ Segment CalculateCollapsedSegment(
     const AffineTransform& non_invertible_transform) {
   ABSL_DCHECK(!non_invertible_transform.Inverse().has_value());
 
-  // We first transform the diagonal of `query`'s bounds to find the line that
-  // `query` will lie on after transforming it.
+  // We first transform the diagonals of `query`'s bounds to find the line that
+  // `query` will lie on after transforming it. The transform may map one of the
+  // diagonals to a point even if it doesn't do so for the whole shape, so we
+  // use the longer of the two.
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  Segment other_transformed_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (other_transformed_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_transformed_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From d813d2132f1099e79b5bd2dfb0e6cf141093042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 14/36] fix: a quad under a non-invertible transform keeps the
 extent of both axes

AffineTransform::Apply(Quad) dropped the second axis when the transformed axes
are parallel, so that e.g. a rectangle flattened onto the y-axis became a point
and queries with it found nothing.
---
 ink/geometry/affine_transform.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/affine_transform.cc b/ink/geometry/affine_transform.cc
index 2b3e39f..81d9ec2 100644
--- a/ink/geometry/affine_transform.cc
+++ b/ink/geometry/affine_transform.cc
@@ -85,12 +85,21 @@ Quad AffineTransform::Apply(const Quad& q) const {
   float u_dot_v = Vec::DotProduct(u, v);
   float u_cross_v = Vec::Determinant(u, v);
 
+  if (u_cross_v == 0) {
+    // The transform collapses the quad to a segment (or a point), and both of
+    // the axes may contribute to its length.
+    float u_extent = q.Width() == 0 ? 0 : u_magnitude;
+    float v_extent = q.Height() == 0 ? 0 : v.Magnitude();
+    return Quad::FromCenterDimensionsAndRotation(
+        new_center, 2 * (u_extent + v_extent), 0,
+        u_extent >= v_extent ? u.Direction() : v.Direction());
+  }
+
   float new_width = q.Width() == 0 ? 0 : 2 * u_magnitude;
-  float new_height =
-      q.Height() == 0 || u_cross_v == 0 ? 0 : 2 * u_cross_v / u_magnitude;
+  float new_height = q.Height() == 0 ? 0 : 2 * u_cross_v / u_magnitude;
 
   Angle new_rotation = u.Direction();
-  float new_shear = u_cross_v == 0 ? 0 : u_dot_v / u_cross_v;
+  float new_shear = u_dot_v / u_cross_v;
 
   return Quad::FromCenterDimensionsRotationAndShear(
       new_center, new_width, new_height, new_rotation, new_shear);
-- 
2.43.0


From 9af0192f65e72412a882db04872a2a9d4d1d8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 15/36] fix: visiting an empty StaticRTree must not read a
 branch node that isn't there

---
 ink/geometry/internal/static_rtree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..ba21d58 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,8 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  // A tree without elements has no branch nodes.
+  if (branch_nodes_.empty()) return;
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From d8441bca67b2d80af9cba734515835d18ed14edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 16/36] fix: fit an aspect ratio around or inside a rectangle
 of zero height

ContainingRectWithAspectRatio and InteriorRectWithAspectRatio CHECK-failed
in AspectRatio() for such a rectangle, although only the given ratio is
documented to be restricted.
---
 ink/geometry/rect.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.cc b/ink/geometry/rect.cc
index d439064..114d715 100644
--- a/ink/geometry/rect.cc
+++ b/ink/geometry/rect.cc
@@ -53,7 +53,7 @@ Rect Rect::ContainingRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio > 0) << "Aspect ratio cannot be <= 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_height = Height();
     corrected_width = Height() * aspect_ratio;
   } else {
@@ -68,7 +68,7 @@ Rect Rect::InteriorRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio >= 0) << "Aspect ratio cannot be < 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_width = Width();
     corrected_height = Width() / aspect_ratio;
   } else {
-- 
2.43.0


From ba944da3eb27bd549549c00a98b052c6dff96169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 17/36] fix: setting a very large rect's width or height must
 not move it to infinity

SetWidth and SetHeight overflowed computing the center, which Center()
takes care not to.
---
 ink/geometry/rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.h b/ink/geometry/rect.h
index 33a1d8f..87e5150 100644
--- a/ink/geometry/rect.h
+++ b/ink/geometry/rect.h
@@ -249,7 +249,7 @@ inline float Rect::Width() const { return x_max_ - x_min_; }
 
 inline void Rect::SetWidth(float width) {
   ABSL_CHECK(width >= 0) << "Cannot set a width less than 0";
-  float x_center = (x_min_ + x_max_) / 2;
+  float x_center = 0.5f * x_min_ + 0.5f * x_max_;
   x_min_ = x_center - width / 2;
   x_max_ = x_center + width / 2;
 }
@@ -258,7 +258,7 @@ inline float Rect::Height() const { return y_max_ - y_min_; }
 
 inline void Rect::SetHeight(float height) {
   ABSL_CHECK(height >= 0) << "Cannot set a height less than 0";
-  float y_center = (y_min_ + y_max_) / 2;
+  float y_center = 0.5f * y_min_ + 0.5f * y_max_;
   y_min_ = y_center - height / 2;
   y_max_ = y_center + height / 2;
 }
-- 
2.43.0


From 160377bff3438ee5ca52a6b2369bcb39536806aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 18/36] fix: scaling a very large rect must not give NaN bounds

Width() and Height() can overflow to infinity for finite bounds;
SemiWidth() and SemiHeight() cannot.
---
 ink/geometry/rect.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/geometry/rect.h b/ink/geometry/rect.h
index 87e5150..4331add 100644
--- a/ink/geometry/rect.h
+++ b/ink/geometry/rect.h
@@ -156,8 +156,7 @@ class Rect {
   void Scale(float x_scale, float y_scale) {
     ABSL_CHECK(x_scale >= 0 && y_scale >= 0)
         << "Cannot scale a rectangle by a value less than 0";
-    Offset((-0.5f * (1 - x_scale) * Width()),
-           (-0.5f * (1 - y_scale) * Height()));
+    Offset(-(1 - x_scale) * SemiWidth(), -(1 - y_scale) * SemiHeight());
   }
 
   // Translates the Rect, moving its center by the given offset, and preserving
-- 
2.43.0


From ad79367a2da71558694653077eade89d68c58052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 19/36] fix: define Quad's default constructor

It was declared and documented but never defined, so using it did not link.
---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From 1b18e27840a26b7c4b8983d9756fee3cefcbe72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 20/36] fix: Quad::Join must not round the distance along the
 width to an integer

The unqualified abs() is the C function taking an int, so the joined quad
did not contain the point.
---
 ink/geometry/quad.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..b83eb69 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -84,7 +84,7 @@ void Quad::Join(Point point) {
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
   float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+      std::max(width_, .5f * width_ + std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From 865f8440eec1a11281736253c4a5f8f96707b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 21/36] fix: the unit vector of a subnormal vector must have
 length one

Halving the smallest subnormal gives zero, and dividing by its magnitude
then CHECK-failed; other subnormal vectors lost their direction.
---
 ink/geometry/vec.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..ff468ed 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,11 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
+  // e.g. x and y are both very large finite floats, and it loses precision (or
+  // even becomes zero) if they are both subnormal.  We can avoid this by
   // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  Vec scaled =
+      (std::max(std::abs(x), std::abs(y)) < 1.f ? 0x1p64f : 0.5f) * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From abda668345857d730c08bb9b6a16c66e4310495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 22/36] fix: ValidateBitmap must reject unknown color formats
 and color spaces

---
 ink/rendering/bitmap.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ink/rendering/bitmap.cc b/ink/rendering/bitmap.cc
index bfec32f..daed230 100644
--- a/ink/rendering/bitmap.cc
+++ b/ink/rendering/bitmap.cc
@@ -38,6 +38,25 @@ bool IsValidPixelFormat(Bitmap::PixelFormat format) {
   return false;
 }
 
+bool IsValidColorFormat(Color::Format format) {
+  switch (format) {
+    case Color::Format::kLinear:
+    case Color::Format::kGammaEncoded:
+    case Color::Format::kPremultipliedAlpha:
+      return true;
+  }
+  return false;
+}
+
+bool IsValidColorSpace(ColorSpace color_space) {
+  switch (color_space) {
+    case ColorSpace::kSrgb:
+    case ColorSpace::kDisplayP3:
+      return true;
+  }
+  return false;
+}
+
 }  // namespace
 
 absl::Status ValidateBitmap(const Bitmap& bitmap) {
@@ -54,6 +73,16 @@ absl::Status ValidateBitmap(const Bitmap& bitmap) {
         absl::StrCat("`Bitmap::pixel_format` holds non-enumerator value ",
                      static_cast<int>(bitmap.pixel_format())));
   }
+  if (!IsValidColorFormat(bitmap.color_format())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_format` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_format())));
+  }
+  if (!IsValidColorSpace(bitmap.color_space())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_space` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_space())));
+  }
   size_t expected_data_size = static_cast<size_t>(bitmap.width()) *
                               static_cast<size_t>(bitmap.height()) *
                               PixelFormatBytesPerPixel(bitmap.pixel_format());
-- 
2.43.0


From 55847146a2e5f07cfaf09f0fdc4fa7d69014db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 23/36] fix: piecewise-linear easing must not overflow or miss
 its points for large y-positions

---
 ink/strokes/internal/easing_implementation.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/easing_implementation.cc b/ink/strokes/internal/easing_implementation.cc
index bffd9a0..b9f18c8 100644
--- a/ink/strokes/internal/easing_implementation.cc
+++ b/ink/strokes/internal/easing_implementation.cc
@@ -250,7 +250,10 @@ float EasingImplementation::Linear::GetY(float x) const {
     return x < next.x ? prev.y : next.y;
   }
   float t = (x - prev.x) / (next.x - prev.x);
-  return geometry_internal::Lerp(prev.y, next.y, t);
+  if (t < 0 || t > 1) return geometry_internal::Lerp(prev.y, next.y, t);
+  // When interpolating, `prev.y + t * (next.y - prev.y)` could overflow, or
+  // miss `next.y`, for y-positions of large magnitude.
+  return (1 - t) * prev.y + t * next.y;
 }
 
 float EasingImplementation::Steps::GetY(float x) const {
-- 
2.43.0


From 8504a1332994228973370e1df687ffe60331c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 24/36] fix: keep packed values within their bits when the
 scale is subnormal

The default packing scale is the attribute's range over the largest packed value.
For a range so small that the quotient is subnormal it may be rounded down, even to
zero, so that the packed maximum overflows its bits or is NaN. Round it up then.
---
 ink/geometry/internal/mesh_packing.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..cc44d79 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -876,7 +877,15 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
     // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    float scale = range > 0 ? range / max_values[i] : 1;
+
+    // If the range is so small that the scale is subnormal, then the division
+    // above may have rounded it down so far (possibly to zero) that the maximum
+    // would no longer fit in the available bits, so we round it up instead.
+    if (std::round(range / scale) > max_values[i]) {
+      scale = std::nextafter(scale, std::numeric_limits<float>::infinity());
+    }
+    coding_params.components[i].scale = scale;
   }
 
   return coding_params;
-- 
2.43.0


From 718d2c4bc47ffca934de12ce9397891f6fe2566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 25/36] fix: ScaledToGamut yields NaN for infinite channels

---
 ink/color/color.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..1e979b9 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -168,7 +168,9 @@ Color Color::ScaledToGamut() const {
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
   if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
-      copy.rgba_[i] = copy.rgba_[i] / max_val;
+      // Dividing infinity by infinity would give NaN, rather than the maximum.
+      copy.rgba_[i] =
+          copy.rgba_[i] == max_val ? 1.0f : copy.rgba_[i] / max_val;
     }
   }
 
-- 
2.43.0


From 0d5e6c0c619872928b7dd05304796835df568549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 26/36] fix: ConvexHull loses the farthest of points directly
 above the lowest one

---
 ink/geometry/internal/convex_hull_helper.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..2145fe4 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -127,8 +127,14 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
               Vec rhs_vec{GetX(rhs) - GetX(start_point),
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
-              return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+              if (det != 0) return det > 0;
+              // Vectors with the same angle and the same x-coordinate are
+              // vertical, and need to be compared by y-coordinate, which can't
+              // be negative.
+              float lhs_abs_x = std::abs(lhs_vec.x);
+              float rhs_abs_x = std::abs(rhs_vec.x);
+              return lhs_abs_x < rhs_abs_x ||
+                     (lhs_abs_x == rhs_abs_x && lhs_vec.y < rhs_vec.y);
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From 998a8a02d2f8dde28f6b27d55cf065132c4e5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 27/36] fix: ConvexHull drops the extreme points of more than
 500 points

---
 ink/geometry/internal/convex_hull_helper.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 2145fe4..70bfad5 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -68,7 +68,8 @@ PruneUsingAkiToussaint(
   }
 
   // Points that are inside of the quadrilateral formed by the extrema will not
-  // be in the convex hull, and can be eliminated.
+  // be in the convex hull, and can be eliminated. The extrema themselves must be
+  // kept, since `Triangle::Contains` includes the boundary.
   Triangle upper_triangle{Point{GetX(min_x_point), GetY(min_x_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)},
                           Point{GetX(max_y_point), GetY(max_y_point)}};
@@ -81,8 +82,12 @@ PruneUsingAkiToussaint(
   pruned_points.reserve(points.size());
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
-    if (!upper_triangle.Contains(test_point) &&
-        !lower_triangle.Contains(test_point))
+    bool is_extremum = test_point == upper_triangle.p0 ||
+                       test_point == upper_triangle.p1 ||
+                       test_point == upper_triangle.p2 ||
+                       test_point == lower_triangle.p1;
+    if (is_extremum || (!upper_triangle.Contains(test_point) &&
+                        !lower_triangle.Contains(test_point)))
       pruned_points.push_back(p);
   }
 
-- 
2.43.0


From 68f7c8a5fe0284d8a7c9b85dad94e4a539ffc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 28/36] fix: polyline processing crashes when an endpoint is
 near a segment of zero length

---
 ink/geometry/internal/polyline_processing.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..dd52b58 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -20,7 +20,6 @@
 #include <utility>
 #include <vector>
 
-#include "absl/log/absl_check.h"
 #include "absl/types/span.h"
 #include "ink/geometry/distance.h"
 #include "ink/geometry/internal/algorithms.h"
@@ -282,9 +281,10 @@ void FindBestEndpointConnections(
             current_segment.index > 1) {
           std::optional<float> connection_projection =
               current_segment.segment.Project(first_point);
-          ABSL_CHECK(connection_projection.has_value());
+          // There is no projection onto a segment of zero length, but all of
+          // its points are the same.
           float clamped_projection =
-              std::clamp(*connection_projection, 0.0f, 1.0f);
+              std::clamp(connection_projection.value_or(0.0f), 0.0f, 1.0f);
 
           if (EndpointIsConnectable(polyline, current_segment.index,
                                     clamped_projection, distance, false)) {
@@ -321,9 +321,10 @@ void FindBestEndpointConnections(
                 static_cast<int>(polyline.segments.size()) - 2) {
           std::optional<float> connection_projection =
               current_segment.segment.Project(last_point);
-          ABSL_CHECK(connection_projection.has_value());
+          // There is no projection onto a segment of zero length, but all of
+          // its points are the same.
           float clamped_projection =
-              std::clamp(*connection_projection, 0.0f, 1.0f);
+              std::clamp(connection_projection.value_or(0.0f), 0.0f, 1.0f);
 
           if (EndpointIsConnectable(polyline, current_segment.index,
                                     clamped_projection, distance, true)) {
-- 
2.43.0


From 3e5a48ef9aae0750d1087170ad6afeff9972a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 29/36] fix: polyline processing crashes for fewer than two
 points

---
 ink/geometry/internal/polyline_processing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index dd52b58..0085b5e 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -397,6 +397,11 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
+  // Without any segments, there is nothing to trim or connect.
+  if (points.size() < 2) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+
   PolylineData polyline = CreateNewPolylineData(points);
 
   polyline.min_walk_distance = min_walk_distance;
-- 
2.43.0


From 01b2c3a2b507c3290150491a07757129c63a55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 30/36] fix: collinear left tangents add a full circle to a
 brush tip cap

AppendCircularTurnExtrusionPoints() without tangent intersections normalizes
the left arc into [-2pi, 0), so tangents that were just snapped together give
a whole extra circle instead of no arc, which damages the outline of the cap.
---
 ink/strokes/internal/circular_extrusion_helpers.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/circular_extrusion_helpers.cc b/ink/strokes/internal/circular_extrusion_helpers.cc
index f6f4c38..97ff76f 100644
--- a/ink/strokes/internal/circular_extrusion_helpers.cc
+++ b/ink/strokes/internal/circular_extrusion_helpers.cc
@@ -122,11 +122,15 @@ void AppendCircularTurnExtrusionPoints(
   auto add_left_arc = [&]() {
     if (left_points == nullptr) return;
 
-    // "Normalize" the left arc angle to be in [-2π, 0) radians so that the arc
+    // "Normalize" the left arc angle to be in (-2π, 0] radians so that the arc
     // is traversed on the "left" side of the circle given the travel
     // directions.  Note that we have ordered the angles above such that
     // `incoming_angles->left` is the smallest value.
-    Angle arc_angle = outgoing_angles->left - incoming_angles->left - kFullTurn;
+    // Collinear tangents need no arc at all, rather than a full circle.
+    Angle arc_angle = outgoing_angles->left == incoming_angles->left
+                          ? Angle()
+                          : outgoing_angles->left - incoming_angles->left -
+                                kFullTurn;
     middle.AppendArcToPolyline(incoming_angles->left, arc_angle,
                                max_chord_height, *left_points);
   };
-- 
2.43.0


From ce20125d4e99450a4d902c40fd50792a71117d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 31/36] fix: end of a stroke loses the front of an elongated
 brush tip

When a tip with two perimeter circles travels along its own axis, both
tangents end at the rear circle of the last tip shape, and the end cap was
built from that circle only. Go around the whole shape when other circles lie
past the one where the tangents end.
---
 ink/strokes/internal/brush_tip_shape.cc | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..ee17fa6 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -682,6 +682,20 @@ void MoveNewRightPointsOutOfLeft(Vec forward, Point shape_center,
   }
 }
 
+// Returns true if no other perimeter circle of `shape` is farther along
+// `forward` than the one with the given `index`.
+bool IsFarthestForwardCircle(const BrushTipShape& shape, int index,
+                             Vec forward) {
+  absl::Span<const Circle> circles = shape.PerimeterCircles();
+  for (const Circle& circle : circles) {
+    if (Vec::DotProduct(forward, circle.Center() - circles[index].Center()) >
+        0) {
+      return false;
+    }
+  }
+  return true;
+}
+
 }  // namespace
 
 void BrushTipShape::AppendStartcapExtrusionPoints(
@@ -718,11 +732,19 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
     float max_chord_height, ExtrusionPoints& extrusion_points) {
   TangentCircleIndices tangent_indices =
       GetTangentCircleIndices(second_to_last, last);
+  Vec forward = GetForwardDirectionWithFallback(second_to_last, last);
 
-  absl::InlinedVector<Circle, 5> circles;
+  absl::InlinedVector<Circle, 7> circles;
   circles.push_back(second_to_last.circles_[tangent_indices.left.first]);
   int last_index = tangent_indices.left.second;
   circles.push_back(last.circles_[last_index]);
+  if (last_index == tangent_indices.right.second &&
+      !IsFarthestForwardCircle(last, last_index, forward)) {
+    // Both tangents end at the same circle, but there are other circles past it
+    // in the direction of travel, so the cap goes all the way around `last`.
+    last_index = last.GetNextPerimeterIndexCw(last_index);
+    circles.push_back(last.circles_[last_index]);
+  }
   while (last_index != tangent_indices.right.second) {
     last_index = last.GetNextPerimeterIndexCw(last_index);
     circles.push_back(last.circles_[last_index]);
@@ -737,8 +759,6 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
                                AddCircularTangentIntersections::kNo,
                                extrusion_points.left);
 
-  Vec forward = GetForwardDirectionWithFallback(second_to_last, last);
-
   int64_t boundary_index =
       static_cast<int64_t>(extrusion_points.left.size()) - 1;
   while (boundary_index >= size_before_append &&
-- 
2.43.0


From 084467a12d329b64c79015a49d2bc9d9988044d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 32/36] fix: internally tangent round brush tips crash the
 extruder

Circle::Contains() and Circle::GetTangentAngles() rounded differently, so two
circles could neither contain one another nor have tangents, which fails a
CHECK when they are joined.
---
 ink/geometry/internal/circle.h          | 4 +++-
 ink/strokes/internal/brush_tip_shape.cc | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ink/geometry/internal/circle.h b/ink/geometry/internal/circle.h
index f7087c9..699bc2e 100644
--- a/ink/geometry/internal/circle.h
+++ b/ink/geometry/internal/circle.h
@@ -141,7 +141,9 @@ inline Angle Circle::GuaranteedRightTangentAngle(const Circle& other) const {
 }
 
 inline bool Circle::Contains(const Circle& other) const {
-  return (other.center_ - center_).Magnitude() + other.radius_ <= radius_;
+  // This must agree exactly with `GetTangentAngles`, which has no result when
+  // one of the circles contains the other.
+  return radius_ - other.radius_ >= (other.center_ - center_).Magnitude();
 }
 
 }  // namespace ink::geometry_internal
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index ee17fa6..52638f9 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -885,10 +885,6 @@ bool ShapeIsOutsideOfCorner(const BrushTipShape& shape,
 }  // namespace
 
 bool BrushTipShape::Contains(const BrushTipShape& other_shape) const {
-  // First do a rough bounds check to see if we can exit early without calling
-  // `Vec::Magnitude()` or any trig functions.
-  if (!this->Bounds().Contains(other_shape.Bounds())) return false;
-
   if (circles_.Size() == 1) {
     const Circle& circle = circles_[0];
     for (const Circle& c : other_shape.circles_.Values()) {
@@ -897,6 +893,10 @@ bool BrushTipShape::Contains(const BrushTipShape& other_shape) const {
     return true;
   }
 
+  // Otherwise, do a rough bounds check to see if we can exit early without
+  // calling any trig functions.
+  if (!this->Bounds().Contains(other_shape.Bounds())) return false;
+
   // With more than one perimeter circle, we iterate over each rounded corner in
   // CCW order and check if the `other_shape` is exterior to it. This is only
   // guaranteed to work because the `BrushTipShape` is always convex.
-- 
2.43.0


From 34d11a2f586bd2b0e8091eb61d3dff630027f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 33/36] fix: fitting a ratio of zero inside a very tall rect
 must not crash

---
 ink/geometry/rect.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/rect.cc b/ink/geometry/rect.cc
index 114d715..93a1b47 100644
--- a/ink/geometry/rect.cc
+++ b/ink/geometry/rect.cc
@@ -73,7 +73,9 @@ Rect Rect::InteriorRectWithAspectRatio(float aspect_ratio) const {
     corrected_height = Width() / aspect_ratio;
   } else {
     corrected_height = Height();
-    corrected_width = Height() * aspect_ratio;
+    // If the `Rect` is so tall that `Height()` overflows, then multiplying it by
+    // a ratio of zero would give NaN.
+    corrected_width = aspect_ratio == 0 ? 0 : Height() * aspect_ratio;
   }
   return Rect::FromCenterAndDimensions(Center(), corrected_width,
                                        corrected_height);
-- 
2.43.0


From 903eb6611cce5b0ad0947533bcd0ec79c799fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 34/36] fix: free the texture layer that fails validation

nativeCreateTextureLayer threw and returned without deleting it.
---
 ink/brush/internal/jni/brush_paint_jni.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..53d4f5f 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -124,7 +124,7 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
 
   if (!status.ok()) {
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
+    delete texture_layer;
     return -1;
   }
   return reinterpret_cast<jlong>(texture_layer);
-- 
2.43.0


From 0f556ffb377f1771f721d1af88c6a21d003d3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 35/36] fix: interpolating inputs of the same time must keep
 that time

Converting to milliseconds and back could give a later time than that of either
input, after which no more particles were emitted up to the later one.
---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 5522534..b7ba200 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -653,8 +653,8 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
               geometry_internal::Lerp(a.acceleration, b.acceleration, t),
           .traveled_distance = geometry_internal::Lerp(a.traveled_distance,
                                                        b.traveled_distance, t),
-          .elapsed_time = Duration32::Millis(geometry_internal::Lerp(
-              a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
+          .elapsed_time =
+              a.elapsed_time + (b.elapsed_time - a.elapsed_time) * t,
           .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
           .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
           // `kNoOrientation` is a negative sentinel value that must not be
-- 
2.43.0


From 579b61fc776632dc301d52969961d5c449006145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 36/36] fix: an outline without triangles must not make the
 whole stroke shape empty

---
 ink/geometry/partitioned_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 2d6d1d9..5f9af7b 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -160,6 +160,8 @@ absl::StatusOr<PartitionedMesh> PartitionedMesh::FromMutableMeshGroups(
             outline_index_pairs.push_back(it->second);
           }
         }
+        // None of the outline's vertices may belong to a triangle.
+        if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();
       }
     }
 
-- 
2.43.0

