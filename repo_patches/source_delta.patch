From 051bdd73a35d6a61df0b15aa520f793bef10f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 01/34] fix: match every estimation and every ground truth at
 most once

An estimation was paired with one ground truth per round, so N estimations
gave up to N*N results, several estimations took the same ground truth, and
the estimations without any pair were dropped instead of reported as FP.
---
 src/result/object.rs | 57 +++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..79ea428 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -252,46 +252,43 @@ pub fn get_perception_results(
         let mut took_indices = Vec::new();
         let num_estimated_objects = estimated_objects.len();
         for _ in 0..num_estimated_objects {
-            if score_table
+            // the best pair of the objects that are not taken yet
+            let best_pair = score_table
                 .iter()
-                .all(|row| row.iter().all(|col| col.is_none()))
-            {
-                break;
-            }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
-                        }
-                        None => (a_idx, a),
-                    },
-                );
+                .enumerate()
+                .flat_map(|(est_idx, row_table)| {
+                    row_table
+                        .iter()
+                        .enumerate()
+                        .filter_map(move |(gt_idx, score)| {
+                            score.map(|score| (est_idx, gt_idx, score))
+                        })
+                })
+                .min_by(|(_, _, a), (_, _, b)| a.total_cmp(b));
 
-                if gt_idx == usize::MAX {
-                    continue;
-                }
+            let (est_idx, gt_idx) = match best_pair {
+                Some((est_idx, gt_idx, _)) => (est_idx, gt_idx),
+                None => break,
+            };
 
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            // both of the estimation and the ground truth must not be taken any more
+            score_table[est_idx].fill(None);
+            score_table
+                .iter_mut()
+                .for_each(|row_table| row_table[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 38304b03d017384ce27ff420ecf2135d3fd02275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 02/34] fix: rank results by confidence to calculate AP

The precision recall curve was built in the order in which the results
happened to be added, so AP depended on it and not on the confidence.
---
 src/metrics/detection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..ebe307b 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -211,7 +211,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // AP is calculated in descending order of the confidence
+            let mut sorted_results: Vec<&PerceptionResult> = self.results.iter().collect();
+            sorted_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            sorted_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From ebb9c77b95b7118f91caf3e7077443f986856f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 03/34] fix: interpolate precision from the highest recall down
 to zero

The precision envelope was accumulated in the wrong direction and the area
between zero and the smallest recall was left out, e.g. AP of perfect
detection was 0.0.
---
 src/metrics/detection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index ebe307b..71a7ad0 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -154,12 +154,16 @@ impl<'a> Ap<'a> {
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            for i in (0..recall_list.len() - 1).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+
+            // append the minimum recall
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
-- 
2.43.0


From deb5c4a8d4a7f8c85dee41865a71140217b14f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 04/34] fix: do not panic if there are GTs of a label but no
 results of it

AP is 0.0 in this case.
---
 src/metrics/detection.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index 71a7ad0..b903bb9 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -151,6 +151,9 @@ impl<'a> Ap<'a> {
     ) -> (Vec<f64>, Vec<f64>) {
         if self.results.is_empty() && *self.num_ground_truth == 0 {
             (Vec::new(), Vec::new())
+        } else if precision_list.is_empty() {
+            // there are GTs but nothing is estimated
+            (vec![0.0], vec![0.0])
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-- 
2.43.0


From 24ceeadff0e87f7739d61db3bc5c6c10cc258373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 05/34] fix: count GTs once even if a label is listed twice in
 the targets

Some names are converted into the same label, e.g. car and
vehicle.construction. The results of such label were counted once but its GTs
were counted twice.
---
 src/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..8922a42 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +136,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From d7d2ddb667231d86e388bc6f4a764dfce3e8e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 06/34] fix: rotate positions in the direction of the
 quaternion

A row vector was multiplied by the rotation matrix from the left, which is
the inverse rotation, so rotate() and rotate_inv() were swapped and boxes were
moved to a wrong place when they are transformed into the ego coordinates.
---
 src/utils/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9848d05 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,8 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    // a row vector is rotated with the transposed matrix
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 99b98941b4765a588092dc0a8e48712a04d867d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 07/34] fix: rotate the footprint in the direction of the
 orientation

The corners, row vectors, were multiplied by the rotation matrix itself and
turned to the opposite side of the heading.
---
 src/object/object3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
-- 
2.43.0


From 0d818b1d5772f28031f5fac0e8db7eb4aba2ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 08/34] fix: rotate quaternion with the Hamilton product

Quaternions were multiplied element by element, which is not even a unit
quaternion, so the orientation of GTs was broken after the transformation
into the ego coordinates.
---
 src/utils/math.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9848d05..9cbe524 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -193,11 +193,15 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    let [w1, x1, y1, z1] = q1;
+    let [w2, x2, y2, z2] = q2;
+    // Hamilton product of q2 * q1
+    [
+        w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1,
+        w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1,
+        w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1,
+        w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From bfb98a71cba77a6238dee19c37e55be3d988986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 09/34] fix: calculate roll and yaw in the full range

atan() folds angles into [-PI/2, PI/2], so objects heading to the opposite
directions had the same heading, and APH of headings on both sides of PI/2
was zero.
---
 src/utils/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9cbe524..04faad1 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,13 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
     let pitch = -0.5 * PI
         + 2.0
             * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
                 .sqrt()
                 .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From b943e6434ed4be714db1cd66c409334cccc7abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 10/34] fix: do not return NaN pitch if the object is upright

The rounding error of the sine of pitch could be out of [-1, 1].
---
 src/utils/math.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 04faad1..fafa10b 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -53,11 +53,9 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
     let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
-    let pitch = -0.5 * PI
-        + 2.0
-            * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
-                .sqrt()
-                .atan();
+    // NOTE: it can be out of the range because of the rounding error
+    let sin_pitch = (2.0 * (q0 * q2 - q1 * q3)).clamp(-1.0, 1.0);
+    let pitch = -0.5 * PI + 2.0 * ((1.0 + sin_pitch) / (1.0 - sin_pitch)).sqrt().atan();
     let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
-- 
2.43.0


From c16a4a829b00319910b61860b38ecce2fa829bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 11/34] fix: calculate height of the overlap for IoU3D

The height of the union of two boxes was used as the height of their
intersection, so IoU3D could be greater than 1.0 or negative.
---
 src/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..b51ffce 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -216,7 +216,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
@@ -226,7 +226,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-- 
2.43.0


From 25b1eba054048fcace9a2a749875f02120993fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 12/34] fix: load and save timestamps in microseconds without
 loss

Timestamps were converted into nanoseconds in f64, which has 256 ns steps
there, so a timestamp in microseconds could be loaded as the previous one.
They were saved in seconds although they are loaded in microseconds.
---
 src/dataset/nuscenes/schema.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..7393255 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -572,15 +572,16 @@ mod opt_string_serde {
 }
 
 mod timestamp_serde {
-    use chrono::NaiveDateTime;
+    use chrono::{NaiveDateTime, Timelike};
     use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &NaiveDateTime, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        let nanos = value.timestamp_subsec_nanos() % 1_000; // less than 1 us
+        let timestamp_us = value.timestamp_micros() as f64 + nanos as f64 / 1_000.0; // in us
+        serializer.serialize_f64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
@@ -588,10 +589,10 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
+        let micros = timestamp_us.floor();
+        let nanos = ((timestamp_us - micros) * 1_000.0) as u32; // less than 1 us
+        let datetime = NaiveDateTime::from_timestamp_micros(micros as i64)
+            .and_then(|value| value.with_nanosecond(value.nanosecond() + nanos));
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From b98e276e3325fd426505945135ebd627f40090e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 13/34] fix: make map_iter() and visibility_iter() iterable

Both iterate over the references of keys, for which Iterator was not
implemented.
---
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From bca7d0bef2254a124da0a78431fc61fb4c6254e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 14/34] fix: skip logs that do not exist when iterating over
 logs of a map

Maps are allowed to refer to logs that the dataset does not contain, which is
only warned in loading, but log_iter() of such a map panicked.
---
 src/dataset/nuscenes/iter_impl/log.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/log.rs b/src/dataset/nuscenes/iter_impl/log.rs
index 68479ca..95fde6d 100644
--- a/src/dataset/nuscenes/iter_impl/log.rs
+++ b/src/dataset/nuscenes/iter_impl/log.rs
@@ -22,8 +22,10 @@ where
     type Item = WithDataset<'a, Log>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // NOTE: maps may refer to logs that the dataset does not contain
+        let dataset = self.dataset;
         self.tokens_iter
-            .next()
-            .map(|token| self.refer(&self.dataset.log_map[token]))
+            .find_map(|token| dataset.log_map.get(token))
+            .map(|log| self.refer(log))
     }
 }
-- 
2.43.0


From 0c4ab1d775c4fa5b866cc7df0947672c2c22b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 15/34] fix: load samples that have no annotation or no sample
 data

A frame in which nothing is annotated is valid, but the whole dataset was
rejected with an internal error.
---
 src/dataset/nuscenes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..4744635 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -534,10 +534,10 @@ impl NuScenes {
             .map(|(sample_token, sample)| {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 761a257e9136da604d17bb2f9229e261b17efb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 16/34] fix: load pointclouds placed under LIDAR_TOP or
 LIDAR_CONCAT

They are the names of the directories in NuScenes format.
---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..a0d0757 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -40,7 +40,7 @@ impl<'a> WithDataset<'a, SampleData> {
         let data = match self.inner.fileformat {
             FileFormat::Bin => {
                 match dirname {
-                    "lidar" => {
+                    name if name.to_lowercase().starts_with("lidar") => {
                         let bytes = self.load_raw()?;
                         let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
-- 
2.43.0


From 4e4f792f85ef97d3b013f54c5711dded135cacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 17/34] fix: load each point into each row of the pointcloud

Points in the file are placed in row-major order, but they were used as the
column-major storage of the matrix as they were.
---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index a0d0757..e0679a3 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,7 +6,6 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
 use safe_transmute::guard::SingleManyGuard;
 use std::{
     fs::File,
@@ -47,11 +46,10 @@ impl<'a> WithDataset<'a, SampleData> {
                         if values.len() % 5 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
-                        let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        // NOTE: points are placed in row-major order in the file
+                        let matrix = PointCloudMatrix::from_row_slice(values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 03d19b62e01a78cfe358f809a4085bfdc483ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 18/34] fix: do not duplicate GTs if several lidars have the
 same timestamp

---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index d1ad518..a8c7168 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -113,6 +113,8 @@ fn sample_to_frame(
                 uuid: Some(nusc_box.instance.to_string()),
             });
         });
+        // NOTE: the other lidars at the same time have the same annotations
+        break;
     }
 
     let ret = FrameGroundTruth {
-- 
2.43.0


From 898cf02a68d53268c4eeb157e0bfbfa56ba62d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 19/34] fix: load the dataset in the same order every time

The order of GTs in a frame and of the records that have the same timestamp
depended on the random state of hash maps, so results could differ from run
to run.
---
 src/dataset/nuscenes.rs        | 10 ++++++----
 src/dataset/nuscenes/schema.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 4744635..fcc49df 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -496,6 +496,7 @@ impl NuScenes {
         // keep track of relations from samples to sample annotations
         let mut sample_to_annotation_groups = sample_annotation_map
             .iter()
+            .sorted_by_key(|(token, _)| *token)
             .map(|(sample_annotation_token, sample_annotation)| {
                 (
                     sample_annotation.sample_token.clone(),
@@ -507,6 +508,7 @@ impl NuScenes {
         // keep track of relations from samples to sample data
         let mut sample_to_sample_data_groups = sample_data_map
             .iter()
+            .sorted_by_key(|(token, _)| *token)
             .map(|(sample_data_token, sample_data)| {
                 (sample_data.sample_token.clone(), sample_data_token.clone())
             })
@@ -549,7 +551,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -563,7 +565,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -577,7 +579,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -607,7 +609,7 @@ impl NuScenes {
                     Ok((scene_token, timestamp))
                 })
                 .collect::<NuScenesResult<Vec<_>>>()?;
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 7393255..0a44a67 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -12,7 +12,7 @@ pub const SHORT_TOKEN_LENGTH: usize = 16;
 
 pub type CameraIntrinsic = Option<[[f64; 3]; 3]>;
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct LongToken([u8; LONG_TOKEN_LENGTH]);
 
 impl Display for LongToken {
-- 
2.43.0


From 4d7678d42d4d5edbc9fd742ae011a3d132513712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 20/34] fix: compare timestamps without truncation to look up
 the current frame

Timestamps were truncated into milliseconds, so a frame that is not the
nearest one could be returned, and a frame within the threshold could be
ignored.
---
 src/dataset.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index a8c7168..83a59a6 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -6,7 +6,7 @@ use crate::{
     evaluation_task::EvaluationTask, frame_id::FrameID, label::LabelConverter,
     object::object3d::DynamicObject,
 };
-use chrono::naive::NaiveDateTime;
+use chrono::{naive::NaiveDateTime, Duration};
 use indicatif::{ProgressBar, ProgressIterator};
 use std::path::PathBuf;
 use std::{
@@ -134,12 +134,10 @@ pub fn get_current_frame(
 ) -> Option<FrameGroundTruth> {
     const TIME_THRESHOLD: i64 = 75; // [ms]
 
-    // TODO: update timestamp computation
-    let target_time = timestamp.timestamp_millis();
     let (min_index, min_diff_time) = frame_ground_truths.iter().enumerate().fold(
-        (usize::MAX, i64::MAX),
+        (usize::MAX, Duration::max_value()),
         |(a_idx, a), (b_idx, b)| {
-            let diff = (b.timestamp.timestamp_millis() - target_time).abs();
+            let diff = b.timestamp.signed_duration_since(*timestamp).abs();
             if diff < a {
                 (b_idx, diff)
             } else {
@@ -148,13 +146,13 @@ pub fn get_current_frame(
         },
     );
 
-    match min_diff_time < TIME_THRESHOLD {
+    match min_diff_time < Duration::milliseconds(TIME_THRESHOLD) {
         true => Some(frame_ground_truths[min_index].to_owned()),
         false => {
             log::warn!(
                 "Could not find corresponding FrameGroundTruth for timestamp: {}, because {} [ms] > {} [ms]",
                 timestamp,
-                min_diff_time,
+                min_diff_time.num_milliseconds(),
                 TIME_THRESHOLD
             );
             None
-- 
2.43.0


From 55ae0111819d98a6a48a11b5bfc24f342916d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 21/34] fix: report every GT that is not detected as FN even if
 it equals another

GTs are equal if their poses and labels are the same, so all of them were
regarded as detected if only one of them was.
---
 src/result/frame.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 2a9fa30..e7aaa06 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -122,30 +122,27 @@ fn extract_fn_objects(
     tp_results: &[PerceptionResult],
 ) -> Vec<DynamicObject> {
     let mut fn_objects = Vec::new();
+    let mut tp_results: Vec<&PerceptionResult> = tp_results.iter().collect();
 
     ground_truths.iter().for_each(|gt| {
-        if is_fn_object(gt, tp_results) {
-            fn_objects.push(gt.clone());
+        match find_tp_result(gt, &tp_results) {
+            // one TP result is only for one GT, there can be the others that are equal to it
+            Some(index) => {
+                tp_results.remove(index);
+            }
+            None => fn_objects.push(gt.clone()),
         }
     });
 
     fn_objects
 }
 
-/// Check whether the input ground truth is contained in the input list of TP results.
+/// Returns the index of the TP result that the input ground truth is matched, if it exists.
 ///
 /// * `ground_truth`: GT object.
 /// * `tp_results`  : List of TP results.
-fn is_fn_object(ground_truth: &DynamicObject, tp_results: &[PerceptionResult]) -> bool {
-    for tp in tp_results {
-        match &tp.ground_truth_object {
-            Some(gt) => {
-                if gt == ground_truth {
-                    return false;
-                }
-            }
-            None => (),
-        }
-    }
-    true
+fn find_tp_result(ground_truth: &DynamicObject, tp_results: &[&PerceptionResult]) -> Option<usize> {
+    tp_results
+        .iter()
+        .position(|tp| tp.ground_truth_object.as_ref() == Some(ground_truth))
 }
-- 
2.43.0


From 88a3244751fc75a69007d00551df33dd3ef271cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 22/34] fix: return an error for a scenario with unknown names
 or no dataset

An unknown evaluation_task or frame_id, or an empty list of Datasets made
loading of the scenario panic instead of returning ConfigError.
---
 src/config.rs        |  5 ++++-
 src/config/schema.rs | 10 ++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..ba1531f 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -80,7 +80,10 @@ impl PerceptionEvaluationConfig {
         // TODO
         let mut dataset_path = PathBuf::new();
         let mut version = String::new();
-        for (key, value) in &datasets[0] {
+        let dataset = datasets
+            .first()
+            .ok_or_else(|| ConfigError::KeyError("Datasets".to_string()))?;
+        for (key, value) in dataset {
             dataset_path.set_file_name(key);
             version = value.version.clone();
         }
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..e861e86 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,14 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str).map_err(D::Error::custom)
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +128,6 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str).map_err(D::Error::custom)
     }
 }
-- 
2.43.0


From a8948ecc55c9951c56820998c61cf754a0eccf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 23/34] fix: allow to load scenarios more than once in a
 process

The logger can be set only once, so the second scenario made the process
panic. Now the log is switched to the directory of the latest one. An error of
the log directory is returned instead of panic, too.
---
 src/config.rs       |  5 ++++-
 src/utils/logger.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ba1531f..60f27df 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -111,7 +111,10 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug).map_err(|err| {
+            err.downcast::<IoError>()
+                .map_or(ConfigError::InternalError, |err| ConfigError::IoError(*err))
+        })?;
 
         let config = Self {
             version,
diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..617e395 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,12 +3,17 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::Mutex;
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
+/// Handle of the logger that has already been initialized.
+static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
+
 /// Configure logger instance.
 /// The log output will be saved in `log_dir/output.log`.
 ///
@@ -44,7 +49,12 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    // NOTE: the logger can be initialized only once in a process
+    let mut handle = HANDLE.lock().unwrap_or_else(|err| err.into_inner());
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From 85000cc567ab4877508535e8588f16613207815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 24/34] fix: make instance_iter() iterable

It iterated over Instance, for which Iterator is not implemented: instances are
kept as InstanceInternal.
---
 src/dataset/nuscenes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index fcc49df..0106299 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -663,7 +663,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
-- 
2.43.0


From 74ef7ef337fb7b28a21b28a3e123d2a435ba966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 25/34] fix: tell GTs of different instances apart to report FN

Two GTs with the same position, orientation and label are equal even if they
have a different uuid or size, so that the detected one was reported as FN
instead of the other.
---
 src/result/frame.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index e7aaa06..8c7b0ba 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -142,7 +142,10 @@ fn extract_fn_objects(
 /// * `ground_truth`: GT object.
 /// * `tp_results`  : List of TP results.
 fn find_tp_result(ground_truth: &DynamicObject, tp_results: &[&PerceptionResult]) -> Option<usize> {
-    tp_results
-        .iter()
-        .position(|tp| tp.ground_truth_object.as_ref() == Some(ground_truth))
+    tp_results.iter().position(|tp| {
+        // NOTE: objects are equal even if their state or uuid differs
+        tp.ground_truth_object.as_ref().map_or(false, |gt| {
+            gt == ground_truth && gt.state() == ground_truth.state() && gt.uuid == ground_truth.uuid
+        })
+    })
 }
-- 
2.43.0


From 0cee52d4bc6ead61cbb2828b6e3456f8951c9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 26/34] fix: calculate the intersection of boxes without panic

The boolean operation of geo panics for some pairs of almost parallel
boxes ("segment not found in active-vec-set"). Both boxes are convex, so
cut one by the edges of the other instead.
---
 src/matching.rs | 74 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index b51ffce..975bd7e 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use crate::utils::point::{distance_points_bev, get_point_left_right};
 
 use super::object::object3d::DynamicObject;
-use geo::{polygon, Area, BooleanOps, Coord, Polygon};
+use geo::{Area, Coord, Line, LineString, Polygon};
 use thiserror::Error as ThisError;
 
 pub type MatchingResult<T> = Result<T, MatchingError>;
@@ -175,35 +175,59 @@ fn get_intersection_area(
 ) -> f64 {
     let get_polygon = |object: &DynamicObject| -> Polygon<f64> {
         let footprint = object.footprint();
-        let poly = polygon![
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-            Coord {
-                x: footprint[1][0],
-                y: footprint[1][1]
-            },
-            Coord {
-                x: footprint[2][0],
-                y: footprint[2][1]
-            },
-            Coord {
-                x: footprint[3][0],
-                y: footprint[3][1]
-            },
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-        ];
-        poly
+        let corners: Vec<Coord<f64>> = footprint
+            .iter()
+            .map(|corner| Coord {
+                x: corner[0],
+                y: corner[1],
+            })
+            .collect();
+        Polygon::new(LineString::from(corners), vec![])
     };
 
     let est_polygon = get_polygon(estimated_object);
     let gt_polygon = get_polygon(ground_truth_object);
 
-    est_polygon.intersection(&gt_polygon).unsigned_area()
+    // NOTE: both polygons are convex, their intersection is what remains of the one after it is
+    // cut along every edge of the other
+    let gt_direction = gt_polygon.signed_area();
+    if gt_direction == 0.0 {
+        return 0.0;
+    }
+    let intersection = gt_polygon
+        .exterior()
+        .lines()
+        .fold(est_polygon, |polygon, edge| {
+            cut_polygon(&polygon, &edge, gt_direction)
+        });
+
+    intersection.unsigned_area()
+}
+
+/// Returns the part of the input convex polygon, that is on the left of the edge if the direction is positive,
+/// otherwise on the right of it.
+///
+/// * `polygon`     : Convex polygon.
+/// * `edge`        : Line to cut the polygon.
+/// * `direction`   : Positive or negative value.
+fn cut_polygon(polygon: &Polygon<f64>, edge: &Line<f64>, direction: f64) -> Polygon<f64> {
+    let side = |point: &Coord<f64>| -> f64 {
+        let cross_product =
+            edge.dx() * (point.y - edge.start.y) - edge.dy() * (point.x - edge.start.x);
+        cross_product * direction.signum()
+    };
+
+    let mut corners: Vec<Coord<f64>> = Vec::new();
+    polygon.exterior().lines().for_each(|line| {
+        let (start, end) = (side(&line.start), side(&line.end));
+        if 0.0 <= start {
+            corners.push(line.start);
+        }
+        if (start < 0.0 && 0.0 < end) || (end < 0.0 && 0.0 < start) {
+            corners.push(line.start + line.delta() * (start / (start - end)));
+        }
+    });
+    Polygon::new(LineString::from(corners), vec![])
 }
 
 fn get_intersection_height(
-- 
2.43.0


From 9f21696299dcc9f473cf729d8cbc926cd88fa2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 27/34] fix: log everything at level Trace

---
 src/utils/logger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 617e395..44058ce 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -42,7 +42,7 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         Level::Info => LevelFilter::Info,
         Level::Warn => LevelFilter::Warn,
         Level::Error => LevelFilter::Error,
-        _ => LevelFilter::Info,
+        Level::Trace => LevelFilter::Trace,
     };
 
     let config: Config = Config::builder()
-- 
2.43.0


From 8ca46e7cb24dae4a8e9beb8a1f5f3508d5ba6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 28/34] fix: reject point clouds that end within a value

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index e0679a3..5ab30fb 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,7 +6,7 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use safe_transmute::guard::SingleManyGuard;
+use safe_transmute::guard::PedanticGuard;
 use std::{
     fs::File,
     io::{prelude::*, BufReader, Result as IoResult},
@@ -41,7 +41,7 @@ impl<'a> WithDataset<'a, SampleData> {
                 match dirname {
                     name if name.to_lowercase().starts_with("lidar") => {
                         let bytes = self.load_raw()?;
-                        let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
+                        let values = safe_transmute::transmute_many::<f32, PedanticGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
                         if values.len() % 5 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
-- 
2.43.0


From bde75a843a43a22344a0995731159ebe18235ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 29/34] fix: write whole timestamps exactly

---
 src/dataset/nuscenes/schema.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 0a44a67..36b0926 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -580,6 +580,10 @@ mod timestamp_serde {
         S: Serializer,
     {
         let nanos = value.timestamp_subsec_nanos() % 1_000; // less than 1 us
+        if nanos == 0 {
+            // NOTE: reading an integer is exact
+            return serializer.serialize_i64(value.timestamp_micros());
+        }
         let timestamp_us = value.timestamp_micros() as f64 + nanos as f64 / 1_000.0; // in us
         serializer.serialize_f64(timestamp_us)
     }
-- 
2.43.0


From 953d01692b3c5f2542df4432cac7a396cb575f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 30/34] fix: do not panic if a value of an object is NaN

---
 src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 975bd7e..9be2d03 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -75,7 +75,7 @@ impl MatchingMethod for PlaneDistanceMatching {
         let sort_func = |p1: &[f64; 3], p2: &[f64; 3]| -> Ordering {
             let d1 = p1[0].hypot(p1[1]);
             let d2 = p2[0].hypot(p2[1]);
-            d1.partial_cmp(&d2).unwrap()
+            d1.total_cmp(&d2)
         };
 
         let mut est_footprint = estimated_object.footprint();
@@ -240,7 +240,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap()
     };
 
@@ -250,13 +250,13 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap()
     };
 
     [0.0, max_z - min_z]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap()
 }
 
-- 
2.43.0


From 6b643f51a5583e5aa22458eef8ed99eecd52c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 31/34] fix: tell GTs apart by all of their values to report FN

---
 src/result/frame.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 8c7b0ba..bf0572b 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -143,9 +143,36 @@ fn extract_fn_objects(
 /// * `tp_results`  : List of TP results.
 fn find_tp_result(ground_truth: &DynamicObject, tp_results: &[&PerceptionResult]) -> Option<usize> {
     tp_results.iter().position(|tp| {
-        // NOTE: objects are equal even if their state or uuid differs
-        tp.ground_truth_object.as_ref().map_or(false, |gt| {
-            gt == ground_truth && gt.state() == ground_truth.state() && gt.uuid == ground_truth.uuid
-        })
+        tp.ground_truth_object
+            .as_ref()
+            .map_or(false, |gt| is_same_object(gt, ground_truth))
     })
 }
+
+/// Returns whether all values of both objects are the same, where NaN is the same as NaN.
+///
+/// NOTE: `DynamicObject`s are equal even if their state or uuid differs.
+///
+/// * `object`  : Object.
+/// * `other`   : Another object.
+fn is_same_object(object: &DynamicObject, other: &DynamicObject) -> bool {
+    let is_same = |a: &[f64], b: &[f64]| {
+        a.iter()
+            .zip(b.iter())
+            .all(|(a, b)| a == b || (a.is_nan() && b.is_nan()))
+    };
+
+    object.timestamp == other.timestamp
+        && object.frame_id == other.frame_id
+        && is_same(&object.position, &other.position)
+        && is_same(&object.orientation, &other.orientation)
+        && is_same(&object.size, &other.size)
+        && match (&object.velocity, &other.velocity) {
+            (Some(a), Some(b)) => is_same(a, b),
+            (a, b) => a.is_none() && b.is_none(),
+        }
+        && is_same(&[object.confidence], &[other.confidence])
+        && object.label == other.label
+        && object.pointcloud_num == other.pointcloud_num
+        && object.uuid == other.uuid
+}
-- 
2.43.0


From b6b0071597c77bb966ee0fa3ba323689b9e7baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 32/34] fix: print scores in the same order every time

---
 src/metrics/detection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index b903bb9..22da47d 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -1,7 +1,7 @@
 use super::tp_metrics::{TPMetrics, TPMetricsAP, TPMetricsAPH};
 use crate::{label::Label, matching::MatchingMode, result::object::PerceptionResult};
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{Display, Formatter, Result as FormatResult},
 };
 
@@ -11,7 +11,7 @@ pub(crate) struct DetectionMetricsScore {
     pub(crate) target_labels: Vec<Label>,
     pub(crate) matching_mode: MatchingMode,
     pub(crate) thresholds: Vec<f64>,
-    pub(crate) scores: HashMap<String, Vec<f64>>,
+    pub(crate) scores: BTreeMap<String, Vec<f64>>,
 }
 
 impl DetectionMetricsScore {
@@ -29,7 +29,7 @@ impl DetectionMetricsScore {
         matching_mode: &MatchingMode,
         matching_thresholds: &Vec<f64>,
     ) -> Self {
-        let mut scores = HashMap::new();
+        let mut scores = BTreeMap::new();
         let num_targets = target_labels.len();
         let mut ap_list = vec![0.0; num_targets];
         let mut aph_list = vec![0.0; num_targets];
-- 
2.43.0


From be256732da6c7cb650033efa3e4d97957faef7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 33/34] fix: reject a dataset entry that does not name exactly
 one dataset

---
 src/config.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 60f27df..f23bedd 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -79,14 +79,16 @@ impl PerceptionEvaluationConfig {
 
         // TODO
         let mut dataset_path = PathBuf::new();
-        let mut version = String::new();
         let dataset = datasets
             .first()
             .ok_or_else(|| ConfigError::KeyError("Datasets".to_string()))?;
-        for (key, value) in dataset {
-            dataset_path.set_file_name(key);
-            version = value.version.clone();
-        }
+        // NOTE: an entry names one dataset
+        let (key, value) = dataset
+            .iter()
+            .exactly_one()
+            .map_err(|_| ConfigError::KeyError("Datasets".to_string()))?;
+        dataset_path.set_file_name(key);
+        let version = value.version.clone();
 
         let params = scenario.evaluation.config.params;
         let target_labels = params.target_labels.iter().map(|s| s as &str).collect_vec();
-- 
2.43.0


From 858d5ef39ad06435a3568c3a787aac2f7e0bcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 34/34] fix: reject datasets whose chains and records do not
 correspond

---
 src/dataset/nuscenes.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 0106299..0266fdb 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -221,6 +221,7 @@ impl NuScenes {
         }
 
         // check instance integrity
+        let mut num_linked_annotations = 0;
         for (instance_token, instance) in instance_map.iter() {
             if !sample_annotation_map.contains_key(&instance.first_annotation_token) {
                 let msg = format!(
@@ -268,6 +269,13 @@ impl NuScenes {
                     );
                     return Err(NuScenesError::CorruptedDataset(msg));
                 }
+                if &annotation.instance_token != instance_token {
+                    let msg = format!(
+                        "the sample annotation with token {} does not belong to the instance with token {}",
+                        annotation_token, instance_token
+                    );
+                    return Err(NuScenesError::CorruptedDataset(msg));
+                }
                 count += 1;
 
                 prev_annotation_token = Some(annotation_token);
@@ -291,6 +299,12 @@ impl NuScenes {
                     }
                 };
             }
+            num_linked_annotations += count;
+        }
+
+        if num_linked_annotations != sample_annotation_map.len() {
+            let msg = "some sample annotations are not linked from their instance".to_string();
+            return Err(NuScenesError::CorruptedDataset(msg));
         }
 
         // check map integrity
@@ -305,6 +319,7 @@ impl NuScenes {
         }
 
         // check scene integrity
+        let mut num_linked_samples = 0;
         for (scene_token, scene) in scene_map.iter() {
             if !log_map.contains_key(&scene.log_token) {
                 let msg = format!("the token {} does not refer to any log", scene.log_token);
@@ -348,6 +363,13 @@ impl NuScenes {
                     );
                     return Err(NuScenesError::CorruptedDataset(msg));
                 }
+                if &sample.scene_token != scene_token {
+                    let msg = format!(
+                        "the sample with token {} does not belong to the scene with token {}",
+                        sample_token, scene_token
+                    );
+                    return Err(NuScenesError::CorruptedDataset(msg));
+                }
                 prev_sample_token = Some(sample_token);
                 count += 1;
 
@@ -372,6 +394,12 @@ impl NuScenes {
                     }
                 };
             }
+            num_linked_samples += count;
+        }
+
+        if num_linked_samples != sample_map.len() {
+            let msg = "some samples are not linked from their scene".to_string();
+            return Err(NuScenesError::CorruptedDataset(msg));
         }
 
         // check sample integrity
-- 
2.43.0

