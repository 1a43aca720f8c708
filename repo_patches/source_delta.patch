From 8249688b367b7229a5ab8890c7d30a2640a1d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 01/15] fix: score-first matching weighs the objects, not their
 positions in the subsets

---
 src/waymo_open_dataset/metrics/matcher.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..fa33a29 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        if (MatchingWeight(pd_idx, gt_idx) > best_gt_match_weight) {
+          best_gt_match_weight = MatchingWeight(pd_idx, gt_idx);
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 7496e618febefd365f83fb13525cd9991a6772de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 02/15] fix: score-first matching discards what its outputs
 held before

---
 src/waymo_open_dataset/metrics/matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index fa33a29..0586b21 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -256,8 +256,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From 34763d09f60225a2ef1f9909373e3611f03236af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 03/15] fix: score cutoffs are estimated from every prediction
 of every frame

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From bd579e4a12d84cda1f7e1148239993da6f9f77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 04/15] fix: merged tracking measurements keep the details of
 their frames

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 6bbf4d1..ccb8a1b 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -105,6 +105,8 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
   m.set_score_cutoff(m1.score_cutoff());
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   return m;
 }
 
-- 
2.43.0


From 8ec4aac1a4cbeab8eadcbaae1d5ec676ef5ba7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 05/15] fix: the match predicates reject the index one past the
 end

---
 src/waymo_open_dataset/metrics/metrics_utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/metrics_utils.cc b/src/waymo_open_dataset/metrics/metrics_utils.cc
index 4cf91ae..7cdd678 100644
--- a/src/waymo_open_dataset/metrics/metrics_utils.cc
+++ b/src/waymo_open_dataset/metrics/metrics_utils.cc
@@ -62,13 +62,13 @@ inline T NormalizeAngle(T rad) {
 
 bool IsTP(const std::vector<int>& pd_matches, int i) {
   CHECK_GE(i, 0);
-  CHECK_LE(i, pd_matches.size());
+  CHECK_LT(i, pd_matches.size());
   return pd_matches[i] >= 0;
 }
 
 bool IsFP(const Matcher& matcher, const std::vector<int>& pd_matches, int i) {
   CHECK_GE(i, 0);
-  CHECK_LE(i, pd_matches.size());
+  CHECK_LT(i, pd_matches.size());
   return pd_matches[i] < 0 &&
          !matcher.predictions()[matcher.prediction_subset()[i]]
               .overlap_with_nlz();
@@ -77,7 +77,7 @@ bool IsFP(const Matcher& matcher, const std::vector<int>& pd_matches, int i) {
 bool IsDetectionFN(const Matcher& matcher, const std::vector<int>& gt_matches,
                    int i, Label::DifficultyLevel level) {
   CHECK_GE(i, 0);
-  CHECK_LE(i, gt_matches.size());
+  CHECK_LT(i, gt_matches.size());
   if (gt_matches[i] >= 0) return false;
 
   const Object& object =
@@ -89,7 +89,7 @@ bool IsDetectionFN(const Matcher& matcher, const std::vector<int>& gt_matches,
 bool IsTrackingFN(const Matcher& matcher, const std::vector<int>& gt_matches,
                   int i, Label::DifficultyLevel level) {
   CHECK_GE(i, 0);
-  CHECK_LE(i, gt_matches.size());
+  CHECK_LT(i, gt_matches.size());
   if (gt_matches[i] >= 0) return false;
 
   const Object& object =
-- 
2.43.0


From f20dfc066a5bc0163d29c64ce15803bd451dbaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 06/15] fix: merged segmentation counts keep their 64 bits

---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..687f032 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    int64_t num_intersection = num_intersections[i];
+    int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From 9ca4655ca2f640079de95a7b2543715ba28e793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 07/15] fix: a measurement step has to lie within the predicted
 trajectory

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..cef3f18 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -82,7 +82,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From 67bc65109433074878e2475633bed23c9e2faf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 08/15] fix: a config without a prediction rate is an error,
 not a division by zero

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index cef3f18..32eecb3 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,9 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0) {
+    return InvalidArgumentError("prediction_steps_per_second must be positive");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
-- 
2.43.0


From ee6edb3047495f3c768875bf4480005bfcb7a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 09/15] fix: the speed scale needs a track that reaches the
 current step

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 32eecb3..f15b513 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -407,7 +407,7 @@ Status ComputeMinAverageDisplacement(
 // track's initial speed.
 Status SpeedScaleFactor(const MotionMetricsConfig& config, const Track& track,
                         double* result) {
-  if (track.states_size() < config.track_history_samples()) {
+  if (track.states_size() <= config.track_history_samples()) {
     return InvalidArgumentError("Internal Error : Track length is invalid.");
   }
 
-- 
2.43.0


From a3e3d7d96521bc310e3a6b252aa3da3fe6c92728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 10/15] fix: objects of interest are the ids of the required
 tracks

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..858c273 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -377,7 +377,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
           scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+              scenario->tracks(track_index).id());
         }
       }
     }
-- 
2.43.0


From 8bad094390bbcba1f678a7b5f5fc15139c25a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 11/15] fix: compressing a range image leaves the caller's
 array alone

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..30b1bf5 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,7 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = range_image.copy()
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From 6a70716eb35d141ce10af0eefc0177132b25fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 12/15] fix: the distance to a lane segment is measured from
 the projection

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..cdedfe9 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,7 +264,7 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
-- 
2.43.0


From 8b8f7402f2f899ad90d8e2235efbb32439631c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 13/15] fix: the panoptic divisor exceeds every instance id it
 encodes

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..0b61dd7 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -325,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From 29727c2edc591ba7ea9e20aeeed38c04eb5219f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 14/15] fix: the LET functions keep a copy of the config they
 were made from

---
 src/waymo_open_dataset/metrics/iou.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..7519524 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -285,7 +285,7 @@ double ComputeLongitudinalAffinity(
 ComputeLongitudinalAffinityFunc GetComputeLongitudinalAffinityFunc(
     const Config::LongitudinalErrorTolerantConfig& let_metric_config) {
   ComputeLongitudinalAffinityFunc let_compute_longitudinal_affinity_func =
-      [&let_metric_config](const Label::Box& prediction_box,
+      [let_metric_config](const Label::Box& prediction_box,
                            const Label::Box& ground_truth_box) {
         return ComputeLongitudinalAffinity(prediction_box, ground_truth_box,
                                            let_metric_config);
@@ -386,7 +386,7 @@ ComputeIoUFunc GetComputeLetIoUFunc(
     Config::LongitudinalErrorTolerantConfig::AlignType align_type,
     Label::Box::Type box_type) {
   ComputeIoUFunc compute_let_iou_func =
-      [&sensor_location, align_type, box_type](
+      [sensor_location, align_type, box_type](
           const Label::Box& prediction_box,
           const Label::Box& ground_truth_box) {
         return ComputeLetIoU(prediction_box, ground_truth_box, sensor_location,
-- 
2.43.0


From a1e8dd4fc6366b29f73654df9fe9df7c2a286db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 15/15] fix: map features without points convert to no samples

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..68776e4 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -166,6 +166,8 @@ Vec3d InterpolatePoint(const MapPoint& left_point, const MapPoint& right_point,
 std::vector<Vec3d> ComputeDirectionVectors(const std::vector<Vec3d>& points) {
   // Compute normalized direction vectors for each point.
   std::vector<Vec3d> result(points.size());
+  if (points.empty()) return result;
+
   for (int i = 0; i < points.size() - 1; ++i) {
     result[i] = (points[i + 1] - points[i]).Normalized();
   }
@@ -794,6 +796,8 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) return;
+
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0

