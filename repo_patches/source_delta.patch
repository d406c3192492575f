From 3f0d064c54bd6e65bb2fb553e1235ef2bb24b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 01/69] fix: refuse to remove a rig instance that still has
 shots

The shots kept a dangling pointer to the removed instance; any later use of
their pose, a deep copy or a removal read freed memory.
---
 opensfm/src/map/src/map.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..3bf8951 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -432,7 +432,12 @@ void Map::RemoveRigInstance(const map::RigInstanceId& instance_id) {
   if (it_exist == rig_instances_.end()) {
     throw std::runtime_error("Rig instance does not exists.");
   } else {
-    rig_instances_.erase(instance_id);
+    if (it_exist->second.NumberOfShots() > 0) {
+      // Shots keep a pointer to their instance
+      throw std::runtime_error("Rig instance " + instance_id +
+                               " still has shots.");
+    }
+    rig_instances_.erase(it_exist);
   }
 }
 
-- 
2.43.0


From 2f29b5a496bdb5a7f5455b70280a4f7bd6c330b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 02/69] fix: no phantom candidates at the origin in
 distance-based pair selection

The k-d tree was sized for candidates and references together, so the rows
beyond the candidates stayed at (0, 0, 0) and took neighbour slots.
---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0


From 2b6b431ea0a90fd840701213f0d32a2d491265d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 03/69] fix: images without GPS no longer break OPK-based
 representative points

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 33dfc1c..ce4a6f7 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -144,7 +144,7 @@ def get_representative_points(
         altitude = find_best_altitude(origin, directions)
         logger.info(f"Altitude for orientation based matching {altitude}")
         directions_scaled = {k: v / DEFAULT_Z * altitude for k, v in directions.items()}
-        points = {k: origin[k] + directions_scaled[k] for k in images}
+        points = {k: origin[k] + directions_scaled[k] for k in origin}
     else:
         points = origin
 
-- 
2.43.0


From 7e770bfdf94086713f9a04971992184baaeba895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 04/69] fix: default altitude when parallel viewing directions
 leave it undefined

With identical directions (e.g. a single image or exact nadir views) the
bounding box does not depend on the altitude, the fitted polynomial is
constant and the NaN altitude made the k-d tree refuse the points.
---
 opensfm/pairs_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index ce4a6f7..281f7bd 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -97,9 +97,9 @@ def find_best_altitude(
 
     coeffs = np.polyfit(samples_x, samples_y, 2)
     extrema = -coeffs[1] / (2 * coeffs[0])
-    if extrema < 0:
+    if not math.isfinite(extrema) or extrema < 0:
         logger.info(
-            f"Altitude is negative ({extrema}) : viewing directions are probably divergent. Using default altitude of {DEFAULT_Z}"
+            f"Altitude is negative or undefined ({extrema}) : viewing directions are probably divergent or parallel. Using default altitude of {DEFAULT_Z}"
         )
         extrema = DEFAULT_Z
     return extrema
-- 
2.43.0


From 72d8276430d92c6cffbcab6decb84fa4866a969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 05/69] fix: swap match columns when matches are saved under
 the second image

Files of an image hold (feature of the image, feature of the other one);
pairs whose first image is not a reference were stored the wrong way round.
---
 opensfm/matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..3863037 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,7 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            matches_per_im1[im2][im1] = np.array([(f2, f1) for f1, f2 in m], dtype=int)
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From 992c2f965c3a0019d89fea129edd4b692d9e3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 06/69] fix: do not swap the channels of the image being
 written

---
 opensfm/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..c48d433 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1328,6 +1328,7 @@ def imwrite_from_fileobject(
 ) -> None:
     """Write an image to a file object"""
     if len(image.shape) == 3:
+        image = image.copy()  # do not swap the channels of the caller's array
         image[:, :, :3] = image[:, :, [2, 1, 0]]  # Turn RGB to BGR (or RGBA to BGRA)
     _, im_buffer = cv2.imencode(ext, image)
     fwb.write(im_buffer)
-- 
2.43.0


From 12f6a19361ec3988a8626202d6e22653af8698b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 07/69] fix: create a subset without opening it before it has
 images

---
 opensfm/dataset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..6365d14 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -663,7 +663,6 @@ class DataSet(DataSetBase):
         folders = ["images", "segmentations", "masks"]
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
-        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
 
         files = []
         for method in [
@@ -672,11 +671,10 @@ class DataSet(DataSetBase):
             "_camera_models_overrides_file",
             "_exif_overrides_file",
         ]:
+            # The subset has no images yet, so it can't be opened as a dataset
+            src = getattr(self, method)()
             files.append(
-                (
-                    getattr(self, method)(),
-                    getattr(subset_dataset, method)(),
-                )
+                (src, os.path.join(subset_dataset_path, os.path.basename(src)))
             )
         for image in images_subset:
             files.append(
-- 
2.43.0


From 1251e5e62d5c6fd13d75e0c9edb700a5c840b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 08/69] fix: dataset subsets of a relative path have dangling
 links

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index c48d433..df38fc7 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1459,7 +1459,8 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def symlink(cls, src_path: str, dst_path: str, **kwargs: Any) -> None:
-        os.symlink(src_path, dst_path, **kwargs)
+        # The target of a relative link is relative to the link, not to us
+        os.symlink(os.path.abspath(src_path), dst_path, **kwargs)
 
     @classmethod
     def open_wb(cls, path: str) -> BinaryIO:
-- 
2.43.0


From 24a9d3fc2712cdf557f1514200c84227adcbe19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 09/69] fix: Map::DeepCopy dropped landmark colours and errors,
 shot meshes and rig cameras and instances without shots

---
 opensfm/src/map/src/map.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 3bf8951..5453238 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -13,6 +13,7 @@ namespace {
 void AssignShot(map::Shot& to, const map::Shot& from) {
   to.merge_cc = from.merge_cc;
   to.scale = from.scale;
+  to.mesh = from.mesh;
   to.SetShotMeasurements(from.GetShotMeasurements());
   to.SetCovariance(from.GetCovariance());
 }
@@ -27,6 +28,14 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
     map_copy->CreateCamera(camera);
   }
 
+  for (const auto& [rig_camera_id, rig_camera] : map.GetRigCameras()) {
+    map_copy->CreateRigCamera(rig_camera);
+  }
+
+  for (const auto& [instance_id, instance] : map.GetRigInstances()) {
+    map_copy->CreateRigInstance(instance_id).SetPose(instance.GetPose());
+  }
+
   const auto& shots = map.GetShots();
   for (const auto& [shot_id, shot] : shots) {
     if (map_copy->HasShot(shot_id)) {
@@ -44,7 +53,10 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
+    landmark_copy.SetReprojectionErrors(landmark.GetReprojectionErrors());
   }
 
   if (copy_observations) {
-- 
2.43.0


From bb5e8b3e28d34237af5fc4ef855da582c2796ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 10/69] fix: setting the rotation of a Pose left its inverse
 translation (and origin) stale

---
 opensfm/actions/export_geocoords.py | 3 ++-
 opensfm/src/geometry/pose.h         | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..94d0347 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -130,8 +130,9 @@ def _transform_reconstruction(
 
     for shot in reconstruction.shots.values():
         R = shot.pose.get_rotation_matrix()
+        origin = shot.pose.get_origin()
         shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+        shot.pose.set_origin(np.dot(A, origin) + b)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..ab116fc 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -86,6 +86,7 @@ class Pose {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
     cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_.block<3, 1>(0, 3) = world_to_cam_.inverse().block<3, 1>(0, 3);
     UpdateMinRotations();
   }
 
@@ -97,6 +98,7 @@ class Pose {
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
     cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_.block<3, 1>(0, 3) = world_to_cam_.inverse().block<3, 1>(0, 3);
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From 8de09dc9438bb27314e931c511e3a1c6e2614c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 11/69] fix: bearing of the principal point of a dual camera
 was NaN

---
 opensfm/src/geometry/camera_projections_functions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..e0195ae 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,11 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    T s{1.0};  // limit as theta -> 0
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From 4191bdca14864aa86e877c320ce09779e6b13498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 12/69] fix: setting a camera's distortion overwrote its focal
 length, aspect ratio and principal point

---
 opensfm/src/geometry/python/pybind.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/python/pybind.cc b/opensfm/src/geometry/python/pybind.cc
index 1cc4999..1b0e564 100644
--- a/opensfm/src/geometry/python/pybind.cc
+++ b/opensfm/src/geometry/python/pybind.cc
@@ -173,10 +173,17 @@ PYBIND11_MODULE(pygeometry, m) {
             int count = 0;
             for (int i = 0; i < types.size(); ++i) {
               const int type_int = static_cast<int>(types[i]);
-              if (type_int >=
+              const bool is_radial_or_tangential =
+                  type_int >=
                       static_cast<int>(geometry::Camera::Parameters::K1) &&
                   type_int <=
-                      static_cast<int>(geometry::Camera::Parameters::S3)) {
+                      static_cast<int>(geometry::Camera::Parameters::P2);
+              const bool is_thin_prism =
+                  type_int >=
+                      static_cast<int>(geometry::Camera::Parameters::S0) &&
+                  type_int <=
+                      static_cast<int>(geometry::Camera::Parameters::S3);
+              if (is_radial_or_tangential || is_thin_prism) {
                 p.SetParameterValue(types[i], distortion(count++));
               }
             }
-- 
2.43.0


From 92a405208dca65fa60b531087119e36b516360d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 13/69] fix: combining masks lost pixels whose mask value
 shares no bit with the other mask

---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..d694f59 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return ((mask1 != 0) & (mask2 != 0)).astype(np.uint8)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From 79255767abdfffc7bc32da46e3ea3761c1d7572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 14/69] fix: two image readers could both see themselves as the
 last and block on a second end mark

---
 opensfm/features_processing.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index bca17cb..b8516c1 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -4,7 +4,6 @@ import logging
 import math
 import queue
 import sys
-import threading
 from timeit import default_timer as timer
 from typing import Any, cast, Dict, List, Optional, Tuple, Union
 
@@ -155,18 +154,11 @@ class Counter:
     """
 
     def __init__(self) -> None:
-        self.number_of_read = 0
-        self.counter: itertools.count[int] = itertools.count()
-        self.read_lock = threading.Lock()
+        self.counter: itertools.count[int] = itertools.count(1)
 
-    def increment(self) -> None:
-        next(self.counter)
-
-    def value(self) -> int:
-        with self.read_lock:
-            value = next(self.counter) - self.number_of_read
-            self.number_of_read += 1
-        return value
+    def increment(self) -> int:
+        """Count one more and return the new count, in one atomic step."""
+        return next(self.counter)
 
 
 def process(args: Tuple[str, Union[ProducerArgs, ConsumerArgs]]) -> None:
@@ -199,8 +191,7 @@ def read_images(
         args = (image, image_array, segmentation_array, instances_array, data, force)
 
         queue.put(args, block=True, timeout=full_queue_timeout)
-        counter.increment()
-        if counter.value() == expected:
+        if counter.increment() == expected:
             logger.info("Finished reading images")
             queue.put(None)
 
-- 
2.43.0


From 5f49d4806aadf1222c97529b872552ca8d5e2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 15/69] fix: with little memory, features extraction blocked on
 a queue of one or used an unbounded queue

---
 opensfm/features_processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index b8516c1..96cbd8a 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -62,7 +62,7 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         # 50% for the queue / 50% for parallel processing
         expected_mb = mem_available / 2
         expected_images = min(
-            max_queue_size, int(expected_mb / average_image_size(data))
+            max_queue_size, int(expected_mb / max(average_image_size(data), 1e-6))
         )
         processing_size = average_processing_size(data)
         logger.info(
@@ -75,7 +75,8 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         f"Expecting to queue at most {expected_images} images while parallel processing of {processes} images."
     )
 
-    process_queue: ProcessQueue = queue.Queue(expected_images)
+    # an image and the end mark must fit, and 0 would mean an unbounded queue
+    process_queue: ProcessQueue = queue.Queue(max(2, expected_images))
     arguments: List[Tuple[str, Union[ProducerArgs, ConsumerArgs]]] = []
 
     if processes == 1:
-- 
2.43.0


From fc87abe718bfd4fb81b27d93eaaf840b2421ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 16/69] fix: features extraction of no images divided by zero

---
 opensfm/features_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 96cbd8a..0e6538d 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -46,6 +46,9 @@ ConsumerArgs = ProcessQueue
 
 def run_features_processing(data: DataSetBase, images: List[str], force: bool) -> None:
     """Main entry point for running features extraction on a list of images."""
+    if not images:
+        return
+
     default_queue_size = 10
     max_queue_size = 200
 
-- 
2.43.0


From 412d389dce652240865626ba6aab8012d3689195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 17/69] fix: an image without features broke the computation of
 words

---
 opensfm/bow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/bow.py b/opensfm/bow.py
index 9bcaecf..f22c8e3 100644
--- a/opensfm/bow.py
+++ b/opensfm/bow.py
@@ -21,6 +21,8 @@ class BagOfWords:
     def map_to_words(
         self, descriptors: NDArray, k: int, matcher_type: str = "FLANN"
     ) -> NDArray:
+        if len(descriptors) == 0:
+            return np.zeros((0, k), dtype=np.int32)
         if matcher_type == "FLANN":
             params = {"checks": 200}
             idx, dist = self.index.knnSearch(descriptors, k, params=params)
-- 
2.43.0


From 655e75d9c6136146f41c44caacd2692e0f72a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 18/69] fix: an exception in parallel_map left OpenCV without
 threads

---
 opensfm/context.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/opensfm/context.py b/opensfm/context.py
index 4cf7558..b88a15c 100644
--- a/opensfm/context.py
+++ b/opensfm/context.py
@@ -52,18 +52,21 @@ def parallel_map(
     threads_used = cv2.getNumThreads()
     cv2.setNumThreads(0)
 
-    num_proc = min(num_proc, len(args))
-    if num_proc <= 1:
-        res = list(map(func, args))
-    else:
-        with parallel_backend("threading", n_jobs=num_proc):
-            batch_size = max(1, int(len(args) / (num_proc * 2)))
-            batch_size = (
-                min(batch_size, max_batch_size) if max_batch_size else batch_size
-            )
-            res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
-
-    cv2.setNumThreads(threads_used)
+    try:
+        num_proc = min(num_proc, len(args))
+        if num_proc <= 1:
+            res = list(map(func, args))
+        else:
+            with parallel_backend("threading", n_jobs=num_proc):
+                batch_size = max(1, int(len(args) / (num_proc * 2)))
+                batch_size = (
+                    min(batch_size, max_batch_size) if max_batch_size else batch_size
+                )
+                res = Parallel(batch_size=batch_size)(
+                    delayed(func)(arg) for arg in args
+                )
+    finally:
+        cv2.setNumThreads(threads_used)
     return res
 
 
-- 
2.43.0


From 6a433a8890b145039a6a6e7e6008264b13c960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 19/69] fix: time zone offsets with minutes east of Greenwich,
 or as named by exifread 3, gave a wrong capture time

---
 opensfm/exif.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..bc3c20b 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -428,11 +428,23 @@ class EXIF:
                 )
 
         time_strings = [
-            ("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
-            ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
-            ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010"),
+            (
+                "EXIF DateTimeOriginal",
+                "EXIF SubSecTimeOriginal",
+                ("EXIF OffsetTimeOriginal", "EXIF Tag 0x9011"),
+            ),
+            (
+                "EXIF DateTimeDigitized",
+                "EXIF SubSecTimeDigitized",
+                ("EXIF OffsetTimeDigitized", "EXIF Tag 0x9012"),
+            ),
+            (
+                "Image DateTime",
+                "Image SubSecTime",
+                ("EXIF OffsetTime", "EXIF Tag 0x9010", "Image Tag 0x9010"),
+            ),
         ]
-        for datetime_tag, subsec_tag, offset_tag in time_strings:
+        for datetime_tag, subsec_tag, offset_tags in time_strings:
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
@@ -451,12 +463,14 @@ class EXIF:
                     )
                     continue
                 # Test for OffsetTimeOriginal | OffsetTimeDigitized | OffsetTime
-                if offset_tag in self.tags:
+                offset_tag = next((tag for tag in offset_tags if tag in self.tags), None)
+                if offset_tag is not None:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        offset = datetime.timedelta(
+                            hours=int(offset_time[1:3]), minutes=int(offset_time[4:6])
                         )
+                        d += offset if offset_time[0:1] == "-" else -offset
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From 09ef0cc18495cae735ccc9e39b6422b0b5fafc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 20/69] fix: OPK angles from yaw, pitch, roll were not in the
 local frame and depended on the longitude

---
 opensfm/exif.py | 33 ++-------------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index bc3c20b..ada070c 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -579,36 +578,8 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
-
-                znp = np.array([0, 0, -1]).T
-                ynp = np.cross(znp, xnp)
-
-                cen = np.array([xnp, ynp, znp]).T
+                # North, east and down in the local frame of OPK (east, north, up)
+                cen = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
                 # OPK rotation matrix
                 ceb = cen.dot(cnb).dot(cbb)
-- 
2.43.0


From c3dd030daae04b5d4449f15a233a3f3a326f0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 21/69] fix: projection type of one image stuck to the
 hard-coded calibration of its camera model

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index ada070c..7283534 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -722,7 +722,7 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        calib = dict(calib, projection_type=pt)
     return calib
 
 
-- 
2.43.0


From 158fde5942ee30228740e55d62ad05318405608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 22/69] fix: GPS latitude without longitude, and unsigned DJI
 coordinates

---
 opensfm/exif.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 7283534..bb04844 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -322,11 +322,7 @@ class EXIF:
     def extract_dji_lon_lat(self) -> Tuple[float, float]:
         lon = self.xmp[0]["@drone-dji:Longitude"]
         lat = self.xmp[0]["@drone-dji:Latitude"]
-        lon_number = float(lon[1:])
-        lat_number = float(lat[1:])
-        lon_number = lon_number if lon[0] == "+" else -lon_number
-        lat_number = lat_number if lat[0] == "+" else -lat_number
-        return lon_number, lat_number
+        return float(lon), float(lat)
 
     def extract_dji_altitude(self) -> float:
         return float(self.xmp[0]["@drone-dji:AbsoluteAltitude"])
@@ -347,7 +343,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From 719e9d538afdf177f8e9f331ab19a1a41602ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 23/69] fix: cameras with a hard-coded focal crashed for
 projection types with two focals

---
 opensfm/exif.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index bb04844..8ccbc0d 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -711,6 +711,13 @@ def calibration_from_metadata(
             or focal_xy_calibration(metadata)
             or default_calibration(data)
         )
+        if "focal_x" not in calib:
+            calib = {
+                **default_calibration(data),
+                **calib,
+                "focal_x": calib["focal"],
+                "focal_y": calib["focal"],
+            }
     else:
         calib = (
             hard_coded_calibration(metadata)
-- 
2.43.0


From c1650aa0d3e3b91a6fdbcdbfe138539229b503fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 24/69] fix: observations of a ground control point without
 altitude became separate points

---
 opensfm/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index df38fc7..dafcad4 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -894,7 +894,7 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From ceaee9511d1adc8dd8d5c0b55776e2594b6b2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 25/69] fix: ground control points in projections with
 northing-easting axis order were misread

---
 opensfm/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index dafcad4..a94e79b 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -911,7 +911,7 @@ def _read_gcp_list_lines(
             else:
                 has_altitude = True
             if projection is not None:
-                lat, lon = projection.transform(easting, northing)
+                lon, lat = projection.transform(easting, northing)
             else:
                 lon, lat = easting, northing
 
@@ -961,13 +961,15 @@ def _parse_projection(line: str) -> Optional[pyproj.Transformer]:
         return None
     elif line.upper().startswith("WGS84 UTM"):
         return pyproj.Transformer.from_proj(
-            pyproj.CRS(_parse_utm_projection_string(line)), crs_4326
+            pyproj.CRS(_parse_utm_projection_string(line)), crs_4326, always_xy=True
         )
     elif "+proj" in line:
-        return pyproj.Transformer.from_proj(pyproj.CRS(line), crs_4326)
+        return pyproj.Transformer.from_proj(
+            pyproj.CRS(line), crs_4326, always_xy=True
+        )
     elif line.upper().startswith("EPSG:"):
         return pyproj.Transformer.from_proj(
-            pyproj.CRS.from_epsg(int(line.split(":")[1])), crs_4326
+            pyproj.CRS.from_epsg(int(line.split(":")[1])), crs_4326, always_xy=True
         )
     else:
         raise ValueError("Un-supported geo system definition: {}".format(line))
-- 
2.43.0


From d4ccef9e510793b4123151035c8e0edbf595e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 26/69] fix: export of a dense point cloud in geographic
 coordinates failed

---
 opensfm/actions/export_geocoords.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 94d0347..96d2362 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -146,17 +146,13 @@ def _transform_dense_point_cloud(
     input_path = udata.point_cloud_file()
     with io.open_rt(input_path) as fin:
         with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
-                    fout.write(line)
-                else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
-                    fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
-                        )
-                    )
+            for line in fin:
+                fout.write(line)
+                if line.strip() == "end_header":
+                    break
+            for line in fin:
+                words = line.split()
+                x, y, z = np.dot(A, [float(w) for w in words[0:3]]) + b
+                nx, ny, nz = np.dot(A, [float(w) for w in words[3:6]])
+                row = [x, y, z, nx, ny, nz, *words[6:]]
+                fout.write(" ".join(map(str, row)) + "\n")
-- 
2.43.0


From e58e2684d91fd64374614be0ea008ad72c5673bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 27/69] fix: export of a reconstruction with rigs in geographic
 coordinates failed

---
 opensfm/actions/export_geocoords.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 96d2362..31d5276 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -128,11 +128,11 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        origin = shot.pose.get_origin()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, origin) + b)
+    for rig_instance in reconstruction.rig_instances.values():
+        R = rig_instance.pose.get_rotation_matrix()
+        origin = rig_instance.pose.get_origin()
+        rig_instance.pose.set_rotation_matrix(np.dot(R, A1))
+        rig_instance.pose.set_origin(np.dot(A, origin) + b)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From cf53bfdf883e8b1caf20ea78326556012fcefad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 28/69] fix: exporting several kinds of geographic coordinates
 at once wrote them all to the first file

---
 opensfm/actions/export_geocoords.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 31d5276..b30757b 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -44,26 +44,28 @@ def run_dataset(
     t = _get_transformation(reference, projection)
 
     if transformation:
-        output = output or "geocoords_transformation.txt"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "geocoords_transformation.txt"
+        )
         _write_transformation(t, output_path)
 
     if image_positions:
         reconstructions = data.load_reconstruction()
-        output = output or "image_geocoords.tsv"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(data.data_path, output or "image_geocoords.tsv")
         _transform_image_positions(reconstructions, t, output_path)
 
     if reconstruction:
         reconstructions = data.load_reconstruction()
         for r in reconstructions:
             _transform_reconstruction(r, t)
-        output = output or "reconstruction.geocoords.json"
-        data.save_reconstruction(reconstructions, output)
+        data.save_reconstruction(
+            reconstructions, output or "reconstruction.geocoords.json"
+        )
 
     if dense:
-        output = output or "undistorted/depthmaps/merged.geocoords.ply"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "undistorted/depthmaps/merged.geocoords.ply"
+        )
         udata = data.undistorted_dataset()
         _transform_dense_point_cloud(udata, t, output_path)
 
-- 
2.43.0


From 4ebe7319a83ba18c89dd8215f2e6bc220f66742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 29/69] fix: camera positions in the reconstruction exported in
 geographic coordinates were off by kilometres

---
 opensfm/actions/export_geocoords.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index b30757b..7b56aaf 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -133,7 +133,9 @@ def _transform_reconstruction(
     for rig_instance in reconstruction.rig_instances.values():
         R = rig_instance.pose.get_rotation_matrix()
         origin = rig_instance.pose.get_origin()
-        rig_instance.pose.set_rotation_matrix(np.dot(R, A1))
+        # The transformation also scales and shears: keep the closest rotation
+        U, _, Vt = np.linalg.svd(np.dot(R, A1))
+        rig_instance.pose.set_rotation_matrix(np.dot(U, Vt))
         rig_instance.pose.set_origin(np.dot(A, origin) + b)
 
     for point in reconstruction.points.values():
-- 
2.43.0


From 0dad209747fa9b40b37c4935cea21af76a1f635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 30/69] fix: keep the latitude-longitude order of ground
 control point projections

---
 opensfm/io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index a94e79b..805eac0 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -911,7 +911,11 @@ def _read_gcp_list_lines(
             else:
                 has_altitude = True
             if projection is not None:
-                lon, lat = projection.transform(easting, northing)
+                source_axes = [a.direction for a in projection.source_crs.axis_info[:2]]
+                if source_axes == ["north", "east"]:
+                    lat, lon = projection.transform(northing, easting)
+                else:
+                    lat, lon = projection.transform(easting, northing)
             else:
                 lon, lat = easting, northing
 
@@ -961,15 +965,13 @@ def _parse_projection(line: str) -> Optional[pyproj.Transformer]:
         return None
     elif line.upper().startswith("WGS84 UTM"):
         return pyproj.Transformer.from_proj(
-            pyproj.CRS(_parse_utm_projection_string(line)), crs_4326, always_xy=True
+            pyproj.CRS(_parse_utm_projection_string(line)), crs_4326
         )
     elif "+proj" in line:
-        return pyproj.Transformer.from_proj(
-            pyproj.CRS(line), crs_4326, always_xy=True
-        )
+        return pyproj.Transformer.from_proj(pyproj.CRS(line), crs_4326)
     elif line.upper().startswith("EPSG:"):
         return pyproj.Transformer.from_proj(
-            pyproj.CRS.from_epsg(int(line.split(":")[1])), crs_4326, always_xy=True
+            pyproj.CRS.from_epsg(int(line.split(":")[1])), crs_4326
         )
     else:
         raise ValueError("Un-supported geo system definition: {}".format(line))
-- 
2.43.0


From d095577909b795c20be99b6cfd7fa31d535f0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 31/69] fix: GPS bias compensation without control points left
 the reconstruction in an arbitrary frame

---
 opensfm/align.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opensfm/align.py b/opensfm/align.py
index 72c5c89..feaba55 100644
--- a/opensfm/align.py
+++ b/opensfm/align.py
@@ -312,9 +312,12 @@ def set_gps_bias(
     """Compute and set the bias transform of the GPS coordinate system wrt. to the GCP one."""
 
     # Compute similarity ('gps_bias') that brings the reconstruction on the GCPs ONLY
-    gps_bias = compute_reconstruction_similarity(
-        reconstruction, gcp, config, False, use_scale
-    )
+    constraints, _ = alignment_constraints(config, reconstruction, gcp, False)
+    gps_bias = None
+    if constraints:
+        gps_bias = compute_reconstruction_similarity(
+            reconstruction, gcp, config, False, use_scale
+        )
     if not gps_bias:
         logger.warning("Cannot align on GCPs only, GPS bias won't be compensated.")
         return None
-- 
2.43.0


From e19dc667f4fdefe150d3332ff121f47eccc0c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 32/69] fix: upright orientation of cameras at one position was
 lost to rounding

---
 opensfm/multiview.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index aa2c6b1..ab6e380 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -152,7 +152,9 @@ def fit_plane(
     # (x 1) p = 0
     # (v 0) p = 0
     points = np.array(points)
-    s = 1.0 / max(1e-8, points.std())  # Normalize the scale to improve conditioning.
+    # Normalize the scale to improve conditioning, unless all points are the same.
+    std = points.std()
+    s = 1.0 / std if std > 1e-8 else 1.0
     x = homogeneous(s * points)
     if vectors is not None and len(vectors) > 0:
         v = homogeneous_vec(s * np.array(vectors))
-- 
2.43.0


From 02a7a6c1b0b28aae359da15f7dece2e82fbb5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 33/69] fix: plane fit of a degenerate set returned complex
 eigenvectors with the wrong sign

---
 opensfm/multiview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index ab6e380..4fc0ffc 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -161,7 +161,7 @@ def fit_plane(
         A = np.vstack((x, v))
     else:
         A = x
-    evalues, evectors = np.linalg.eig(A.T.dot(A))
+    evalues, evectors = np.linalg.eigh(A.T.dot(A))
     smallest_evalue_idx = min(enumerate(evalues), key=lambda x: x[1])[0]
     p = evectors[:, smallest_evalue_idx]
 
-- 
2.43.0


From e5f4a7a2f0839ebf0f3f2d27effb207c5a73418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 34/69] fix: undistorted tracks kept the distorted coordinates
 of the observations

---
 opensfm/undistort.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 91384b3..6130d90 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -417,6 +417,11 @@ def add_subshot_tracks(
         add_pano_subshot_tracks(tracks_manager, utracks_manager, shot, subshot)
     else:
         for track_id, obs in tracks_manager.get_shot_observations(shot.id).items():
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            bearing = shot.camera.pixel_bearing(obs.point)
+            if bearing[2] <= 0:
+                continue
+            obs.point = subshot.camera.project(bearing)
             utracks_manager.add_observation(subshot.id, track_id, obs)
 
 
-- 
2.43.0


From beb8a280d1c3ef5bf3242caa46b9a0e6dcbb2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 35/69] fix: let robust triangulation draw every pair of
 observations

The index of the pair was drawn from all but the last one.
---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..ffbece5 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -953,7 +953,7 @@ class TrackTriangulator:
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
         for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
-- 
2.43.0


From ebc093ea9775ec6d392455ba09ed8d7de65d7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 36/69] fix: use every component of a reprojection error in
 remove_outliers

The errors in spherical images are differences of bearings and have three
components, the last of which was ignored.
---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index ffbece5..5b5240a 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1270,7 +1270,7 @@ def remove_outliers(
         for shot_id, error in reconstruction.points[
             point_id
         ].reprojection_errors.items():
-            error_sqr = error[0] ** 2 + error[1] ** 2
+            error_sqr = float(np.sum(np.square(error)))
             if error_sqr > threshold_sqr:
                 outliers.append((point_id, shot_id))
 
-- 
2.43.0


From 39cfeefd6266d83c040a93a1e9436b2b06df2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 37/69] fix: refine DLT-triangulated points with world bearings

point_refinement needs the bearings in the world frame, triangulate_dlt passed
the ones in the frames of the cameras and moved good points away.
---
 opensfm/reconstruction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 5b5240a..3802626 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1082,6 +1082,7 @@ class TrackTriangulator:
     ) -> None:
         """Triangulate track using DLT and add point to reconstruction."""
         Rts, bs, os, ids = [], [], [], []
+        world_bs = []
         for shot_id, obs in self.tracks_handler.get_observations(track).items():
             shot = self.reconstruction.shots[shot_id]
             os.append(self._shot_origin(shot))
@@ -1089,6 +1090,7 @@ class TrackTriangulator:
             # pyrefly: ignore [bad-argument-type]
             b = shot.camera.pixel_bearing(np.array(obs.point))
             bs.append(b)
+            world_bs.append(self._shot_rotation_inverse(shot).dot(b))
             ids.append(shot_id)
 
         if len(Rts) >= 2:
@@ -1106,7 +1108,7 @@ class TrackTriangulator:
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     np.array(os),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                    np.array(bs),
+                    np.array(world_bs),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     X,
                     iterations,
-- 
2.43.0


From 0f6252a79a8a8c57df6208ec69974c22a7ed5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 38/69] fix: robust estimation never returned when inliers were
 fewer than a sample

Drawing distinct random samples loops for ever when there are fewer elements
than asked for: with less data than a minimal sample, or when a better MSAC or
LMedS score comes with fewer inliers.
---
 opensfm/src/robust/robust_estimator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index a68ea5e..018b473 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -42,6 +42,9 @@ ScoreInfo<typename MODEL::Type> Estimate(
   RandomSamplesGenerator<std::mt19937> random_generator;
 
   ScoreInfo<typename MODEL::Type> best_score;
+  if (samples.size() < size_t(MODEL::MINIMAL_SAMPLES)) {
+    return best_score;
+  }
   bool should_stop = false;
   std::vector<typename MODEL::Data> inliers_samples;  // Used to gather inliers
   for (int i = 0; i < params.iterations && !should_stop; ++i) {
@@ -72,6 +75,12 @@ ScoreInfo<typename MODEL::Type> Estimate(
       // Run local optimization (inner non-minimal RANSAC on inliers)
       if (best_found && params.use_local_optimization) {
         for (int k = 0; k < params.local_optimization_iterations; ++k) {
+          // A better score can come with fewer inliers (MSAC, LMedS)
+          if (best_score.inliers_indices.size() <
+              size_t(MODEL::MINIMAL_SAMPLES)) {
+            break;
+          }
+
           // Gather inliers and use them for getting random sample
           inliers_samples.clear();
           inliers_samples.reserve(best_score.inliers_indices.size());
-- 
2.43.0


From c1725a7754cc505016709755d57298468fb52dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 39/69] fix: compare the scores of essential matrix
 decompositions as reals

The best score was kept in an int, so a worse decomposition could replace it.
---
 opensfm/src/geometry/relative_pose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index f5d2736..217c32c 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -33,7 +33,7 @@ Eigen::Matrix<double, 3, 4> RelativePoseFromEssential(
   Eigen::Matrix<double, 2, 3> centers;
   centers.row(0) = Eigen::Vector3d::Zero();
 
-  auto best_decomposition = std::make_pair(0, Eigen::Matrix<double, 3, 4>());
+  auto best_decomposition = std::make_pair(0., Eigen::Matrix<double, 3, 4>());
   for (int i = 0; i < 2; ++i) {
     Eigen::Vector3d translation;
     if (i == 0) {
-- 
2.43.0


From 3ee550d467518e811ce56d871c45a965a8dc4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 40/69] fix: take the plane-based motion with the most inliers

np.argmax of a map object is always 0.
---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 3802626..69fe537 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -327,7 +327,7 @@ def two_view_reconstruction_plane_based(
         motion_inliers.append(inliers)
 
     # pyre-fixme[6]: For 1st argument expected `Union[_SupportsArray[dtype[typing.Any...
-    best = np.argmax(map(len, motion_inliers))
+    best = np.argmax([len(inliers) for inliers in motion_inliers])
     R, t, n, d = motions[best]
     inliers = motion_inliers[best]
     return cv2.Rodrigues(R)[0].ravel(), t, inliers
-- 
2.43.0


From cfa2484a0e1e6cc249b8e2d811a84ef6a68f3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 41/69] fix: rotation between point sets in a plane

Negating the whole matrix when the determinant is negative gives a wrong
rotation; three points (or points in a plane) hit this half of the time.
---
 opensfm/src/geometry/transform.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/geometry/transform.h b/opensfm/src/geometry/transform.h
index a2c4662..d3d1b1c 100644
--- a/opensfm/src/geometry/transform.h
+++ b/opensfm/src/geometry/transform.h
@@ -30,13 +30,14 @@ Eigen::Matrix3d RotationBetweenPoints(IT begin, IT end) {
 
   Eigen::JacobiSVD<Eigen::Matrix3d> svd(
       M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  const Eigen::Matrix3d& U = svd.matrixU();
+  Eigen::Matrix3d U = svd.matrixU();
   const Eigen::Matrix3d& V = svd.matrixV();
-  Eigen::Matrix3d rotation = U * V.transpose();
-  if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+  // Points can be (almost) in a plane : the direction of least variance is the
+  // one to be flipped for getting a rotation
+  if ((U * V.transpose()).determinant() < 0.) {
+    U.col(2) *= -1.0;
   }
-  return rotation;
+  return U * V.transpose();
 }
 
 template <class IT>
-- 
2.43.0


From 84087cc5372d2d1da68294f1319963d87b4b9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 42/69] fix: alignment constraints of skipped GCPs were
 uninitialised memory

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index e66ba8c..9d572af 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -861,6 +861,9 @@ void BAHelpers::AlignmentConstraints(
       }
     }
   }
+  // Some GCPs might have been skipped
+  Xp.conservativeResize(idx, Eigen::NoChange);
+  X.conservativeResize(idx, Eigen::NoChange);
 }
 
 std::string BAHelpers::DetectAlignmentConstraints(
-- 
2.43.0


From cece3bd84845a8bd6c33167492845911b288c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 43/69] fix: local bundle used an uninitialised accuracy for
 GPS positions without one

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 9d572af..71104d7 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -192,7 +192,8 @@ py::tuple BAHelpers::BundleLocal(
       if (is_interior) {
         const auto& measurements = shot.GetShotMeasurements();
         if (config["bundle_use_gps"].cast<bool>() &&
-            measurements.gps_position_.HasValue()) {
+            measurements.gps_position_.HasValue() &&
+            measurements.gps_accuracy_.HasValue()) {
           average_position += measurements.gps_position_.Value();
           average_std += measurements.gps_accuracy_.Value();
           ++gps_count;
-- 
2.43.0


From db0418497e2f34084b48ade7982ecadd6e151dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 44/69] fix: bundle_shot_poses averaged the GPS positions of a
 rig wrongly

The running sum was divided at each shot of the instance.
---
 opensfm/src/sfm/src/ba_helpers.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 71104d7..1698cc3 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -501,18 +501,18 @@ py::dict BAHelpers::BundleShotPoses(
       } else {
         fix_instance = true;
       }
+    }
 
-      ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
-                        shot_rig_cameras, fix_instance);
+    ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
+                      shot_rig_cameras, fix_instance);
 
-      // only add averaged rig position constraints to moving instances
-      if (!fix_instance && gps_count > 0) {
-        average_position /= gps_count;
-        average_std /= gps_count;
-        ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
-                                       Vec3d::Constant(average_std),
-                                       gps_scale_group);
-      }
+    // only add averaged rig position constraints to moving instances
+    if (!fix_instance && gps_count > 0) {
+      average_position /= gps_count;
+      average_std /= gps_count;
+      ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
+                                     Vec3d::Constant(average_std),
+                                     gps_scale_group);
     }
   }
 
-- 
2.43.0


From c20a616facdff7e04d5e2dfe2ed5834e4f51edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 45/69] fix: local bundle failed with GCPs observed outside of
 the neighborhood

---
 opensfm/src/bundle/bundle_adjuster.h      | 1 +
 opensfm/src/bundle/src/bundle_adjuster.cc | 4 ++++
 opensfm/src/sfm/src/ba_helpers.cc         | 5 +++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/bundle/bundle_adjuster.h b/opensfm/src/bundle/bundle_adjuster.h
index 9fd40bc..1f5cbd0 100644
--- a/opensfm/src/bundle/bundle_adjuster.h
+++ b/opensfm/src/bundle/bundle_adjuster.h
@@ -288,6 +288,7 @@ class BundleAdjuster {
   Reconstruction GetReconstruction(const std::string& reconstruction_id) const;
   Point GetPoint(const std::string& id) const;
   bool HasPoint(const std::string& id) const;
+  bool HasShot(const std::string& id) const;
   RigCamera GetRigCamera(const std::string& rig_camera_id) const;
   RigInstance GetRigInstance(const std::string& instance_id) const;
   std::map<std::string, RigCamera> GetRigCameras() const;
diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..5b05469 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1240,6 +1240,10 @@ bool BundleAdjuster::HasPoint(const std::string& id) const {
   return points_.find(id) != points_.end();
 }
 
+bool BundleAdjuster::HasShot(const std::string& id) const {
+  return shots_.find(id) != shots_.end();
+}
+
 Reconstruction BundleAdjuster::GetReconstruction(
     const std::string& reconstruction_id) const {
   const auto it = reconstructions_.find(reconstruction_id);
diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 1698cc3..e606fb0 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -364,7 +364,7 @@ size_t BAHelpers::AddGCPToBundle(
       ++total_terms;
     }
     for (const auto& obs : point.observations_) {
-      total_terms += (shots.count(obs.shot_id_) > 0);
+      total_terms += ba.HasShot(obs.shot_id_);
     }
   }
 
@@ -395,7 +395,8 @@ size_t BAHelpers::AddGCPToBundle(
     // Now iterate through the observations
     for (const auto& obs : point.observations_) {
       const auto& shot_id = obs.shot_id_;
-      if (shots.count(shot_id) > 0) {
+      // Local bundle only has the shots of the neighborhood
+      if (ba.HasShot(shot_id)) {
         constexpr double scale{0.001};
         ba.AddPointProjectionObservation(shot_id, point_id, obs.projection_,
                                          scale / global_weight);
-- 
2.43.0


From 8a20e24e76340d24a3e1112f9f20bd324790aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 46/69] fix: give the fourth radial distortion its configured
 prior in bundle adjustment

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 5b05469..736df75 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From b9876bd727655957a26eb6b7ba6c9485bb8dd4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 47/69] fix: relative poses of rig cameras were wrong when
 instances have different headings

---
 opensfm/rig.py | 75 ++++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 42 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..9433967 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -212,52 +212,43 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
-    centered_pose_instances = []
+    if not pose_instances:
+        return {}
+
+    # Put all poses instances into the frame of a same RigCamera
+    reference_id = pose_instances[0][0][1]
+    poses_per_camera: Dict[str, List[pygeometry.Pose]] = {}
     for instance in pose_instances:
-        origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
-        for shot, _ in instance:
-            rotation_center += shot.pose.rotation
-            origin_center += shot.pose.get_origin()
-        origin_center /= len(instance)
-        rotation_center /= len(instance)
-
-        centered_pose_instance = []
+        references = [shot for shot, camera_id in instance if camera_id == reference_id]
+        if not references:
+            continue
         for shot, rig_camera_id in instance:
-            instance_pose = pygeometry.Pose(rotation_center)
-            instance_pose.set_origin(origin_center)
-            instance_pose_camera = shot.pose.relative_to(instance_pose)
-            centered_pose_instance.append(
-                (
-                    instance_pose_camera,
-                    rig_camera_id,
-                    shot.camera.id,
-                )
+            poses_per_camera.setdefault(rig_camera_id, []).append(
+                shot.pose.relative_to(references[0].pose)
             )
-        centered_pose_instances.append(centered_pose_instance)
-
-    # Average canonical poses per RigCamera ID
-    average_origin, average_rotation, count_poses, camera_ids = {}, {}, {}, {}
-    for centered_pose_instance in centered_pose_instances:
-        for pose, rig_camera_id, camera_id in centered_pose_instance:
-            if rig_camera_id not in average_origin:
-                average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
-                count_poses[rig_camera_id] = 0
-            average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
-            camera_ids[rig_camera_id] = camera_id
-            count_poses[rig_camera_id] += 1
-
-    # Construct final RigCamera results
+
+    # Average poses per RigCamera ID
+    average_poses: Dict[str, pygeometry.Pose] = {}
+    for rig_camera_id, poses in poses_per_camera.items():
+        u, _, vt = np.linalg.svd(sum(pose.get_rotation_matrix() for pose in poses))
+        rotation = u.dot(np.diag([1.0, 1.0, np.linalg.det(u.dot(vt))])).dot(vt)
+        average_pose = pygeometry.Pose()
+        average_pose.set_rotation_matrix(rotation)
+        average_pose.set_origin(np.mean([p.get_origin() for p in poses], axis=0))
+        average_poses[rig_camera_id] = average_pose
+
+    # Construct final RigCamera results, in the frame taken as the mean of their R|t
+    center = pygeometry.Pose(
+        np.mean([pose.rotation for pose in average_poses.values()], axis=0)
+    )
+    center.set_origin(
+        np.mean([pose.get_origin() for pose in average_poses.values()], axis=0)
+    )
     rig_cameras: Dict[str, pymap.RigCamera] = {}
-    for rig_camera_id, count in count_poses.items():
-        o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
-        pose = pygeometry.Pose(r)
-        pose.set_origin(o)
-        rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
+    for rig_camera_id, pose in average_poses.items():
+        rig_cameras[rig_camera_id] = pymap.RigCamera(
+            pose.relative_to(center), rig_camera_id
+        )
     return rig_cameras
 
 
-- 
2.43.0


From f2ff730fead8f2ff6c220b3ea176f604af539cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 48/69] fix: the last rig instance was never proposed for
 calibration

---
 opensfm/rig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 9433967..c086614 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -195,7 +195,7 @@ def propose_subset_dataset_from_instances(
             random_index = random.randint(0, len(instances_sorted) - 1)
             instances_calibrate = instances_sorted[
                 max([0, random_index - int(subset_size / 2)]) : min(
-                    [random_index + int(subset_size / 2), len(instances_sorted) - 1]
+                    [random_index + int(subset_size / 2), len(instances_sorted)]
                 )
             ]
 
-- 
2.43.0


From f961ef08166db8db5dae966ec53fb3eb65fefe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 49/69] fix: splitting into submodels failed when a group of
 images had no GPS

---
 opensfm/actions/create_submodels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 001cc5f..9db6c55 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -56,7 +56,10 @@ def _create_image_list(data: DataSet, meta_data: MetaDataSet) -> None:
 def _read_image_groups(meta_data: MetaDataSet) -> None:
     image_cluster = {}
     cluster_images = defaultdict(list)
+    images_with_gps = {image for image, _, _ in meta_data.images_with_gps()}
     for image, cluster in meta_data.load_image_groups():
+        if image not in images_with_gps:
+            continue
         image_cluster[image] = cluster
         cluster_images[cluster].append(image)
     K = len(cluster_images)
-- 
2.43.0


From 7a2ad89c76d755e7565acf4b90a2295e66466c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 50/69] fix: splitting into submodels failed with a single
 image

---
 opensfm/large/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/large/tools.py b/opensfm/large/tools.py
index 5dc3f2b..d342a7d 100644
--- a/opensfm/large/tools.py
+++ b/opensfm/large/tools.py
@@ -39,6 +39,8 @@ def kmeans(
 ) -> Tuple[NDArray, NDArray]:
     criteria = (cv2.TERM_CRITERIA_MAX_ITER, max_iter, 1.0)
     flags = cv2.KMEANS_PP_CENTERS
+    # one sample per row, also when there is a single one
+    samples = samples.reshape((len(samples), 1, -1))
 
     if context.OPENCV3:
         return cv2.kmeans(samples, nclusters, None, criteria, attempts, flags)
-- 
2.43.0


From f83444960dad57e2374c212bf31ac160477591ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 51/69] fix: the bundler export of the undistorted
 reconstruction always failed

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..bbe173b 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -28,7 +28,7 @@ def run_dataset(
     if undistorted:
         reconstructions = udata.load_undistorted_reconstruction()
         track_manager = udata.load_undistorted_tracks_manager()
-        images = reconstructions[0].shots.keys()
+        images = list(reconstructions[0].shots.keys())
     else:
         reconstructions = data.load_reconstruction()
         track_manager = data.load_tracks_manager()
-- 
2.43.0


From ae3b163d45b48d03f1db3539aa203000bd821602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 52/69] fix: bundler and visualsfm exports failed with brown
 cameras

---
 opensfm/actions/export_bundler.py   | 2 +-
 opensfm/actions/export_visualsfm.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index bbe173b..23cc815 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -76,7 +76,7 @@ def export_bundler(
                 if shot.camera.projection_type == "brown":
                     # Will approximate Brown model, not optimal
                     # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
+                    focal_normalized = camera.focal
                 else:
                     focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..e9f70d8 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -56,7 +56,9 @@ def export(
         i += 1
         if shot.camera.projection_type == "brown":
             # Will approximate Brown model, not optimal
-            focal_normalized = (shot.camera.focal_x + shot.camera.focal_y) / 2.0
+            focal_normalized = (
+                shot.camera.focal * (1.0 + shot.camera.aspect_ratio) / 2.0
+            )
         else:
             focal_normalized = shot.camera.focal
 
-- 
2.43.0


From 04a1c7a12b7ca678c05f2686879fab730372a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 53/69] fix: visualsfm measurements were stretched when images
 are not square

---
 opensfm/actions/export_visualsfm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index e9f70d8..47d848d 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -101,8 +101,9 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    height, width = shot_size_cache[shot_key]
+                    x = 0.5 * width + v[0] * max(width, height)
+                    y = 0.5 * height + v[1] * max(width, height)
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From a63999e224f416b5b646ce0148a88d4e3ad84c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 54/69] fix: colmap principal point of fisheye_opencv cameras
 was not in pixels

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..db7adb9 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From f82bcd6d9b8db18068a68c72ec361af009136f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 55/69] fix: colmap orientation of images with identity
 rotation was NaN

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index db7adb9..ddd6edb 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -667,6 +667,8 @@ def export_points_reconstruction(
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
     angle = np.linalg.norm(angle_axis)
+    if angle == 0:
+        return [1.0, 0.0, 0.0, 0.0]
 
     x = angle_axis[0] / angle
     y = angle_axis[1] / angle
-- 
2.43.0


From cbc16aa5724f8d9003416f0d7c78e6f384fef7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 56/69] fix: colmap binary export failed with image names that
 are not ASCII

---
 opensfm/actions/export_colmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index ddd6edb..97151cf 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -558,8 +558,7 @@ def export_images_reconstruction(
                 fout_bin.write(pack("<I", colmap_shot_id))
                 fout_bin.write(pack("<7d", *(list(q) + list(t))))
                 fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
+                fout_bin.write(shot_id.encode("utf-8"))
                 fout_bin.write(pack("<c", b"\x00"))
             format_line = "%d %f %f %f %f %f %f %f %d %s\n"
             format_tuple = [
-- 
2.43.0


From ae42f649123499dbcacf3a59485a819702a77570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 57/69] fix: colmap points referred to features that images did
 not list

---
 opensfm/actions/export_colmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 97151cf..eacc232 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -587,10 +587,10 @@ def export_images_reconstruction(
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
+                # points refer to features by index: list them all
+                x, y = features_map[shot_id][feature_id]
+                format_line += "%f %f %d "
+                points_tuple += [x, y, colmap_point_id]
             format_line += "\n"
 
             if binary:
@@ -598,7 +598,7 @@ def export_images_reconstruction(
                 for i in range(0, len(points_tuple), 3):
                     x, y, colmap_point_id = points_tuple[i : i + 3]
                     fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
+                    fout_bin.write(pack("<q", colmap_point_id))
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + points_tuple))
-- 
2.43.0


From ae67d240cb101a9bb5b539255641e06d04bf7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 58/69] fix: colmap images referred to the points of another
 reconstruction

---
 opensfm/actions/export_colmap.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index eacc232..5fdc11d 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -531,7 +531,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_map: Dict[Tuple[int, str], int],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -546,7 +546,7 @@ def export_images_reconstruction(
     else:
         fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
 
-    for reconstruction in reconstructions:
+    for index, reconstruction in enumerate(reconstructions):
         for shot_id, shot in reconstruction.shots.items():
             colmap_camera_id = camera_map[shot.camera.id]
             colmap_shot_id = images_map[shot_id]
@@ -584,8 +584,8 @@ def export_images_reconstruction(
                 colmap_point_id = -1
                 if feature_id in point_per_feat:
                     point_id = point_per_feat[feature_id]
-                    if point_id in points_map:
-                        colmap_point_id = points_map[point_id]
+                    if (index, point_id) in points_map:
+                        colmap_point_id = points_map[(index, point_id)]
 
                 # points refer to features by index: list them all
                 x, y = features_map[shot_id][feature_id]
@@ -606,7 +606,7 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> Dict[Tuple[int, str], int]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
@@ -622,7 +622,7 @@ def export_points_reconstruction(
         fout_txt = data.io_handler.open_wt(os.path.join(path, "points3D.txt"))
 
     i = 0
-    for reconstruction in reconstructions:
+    for index, reconstruction in enumerate(reconstructions):
         for point in reconstruction.points.values():
             c = point.coordinates
             cl = point.color
@@ -659,7 +659,7 @@ def export_points_reconstruction(
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + track_tuple))
-            points_map[point.id] = i
+            points_map[(index, point.id)] = i
             i += 1
     return points_map
 
-- 
2.43.0


From b21c962b03424dfeb7604f063ce535fcf1e676ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 59/69] fix: openmvs masks of images without a mask were the
 working directory

---
 opensfm/actions/export_openmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..d858a3d 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -57,7 +57,7 @@ def export(
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(os.path.abspath(mask_path)) if mask_path else "",
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From 860117004716deadfaf79242e010fd257b9bfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 60/69] fix: the image list given to the pmvs export was
 ignored

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..af07535 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    images = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(images)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From 9c93f1629c3f95498e8c6143431a26c837cd39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 61/69] fix: a shot without depthmap crashed the cleaning or
 got the points of its neighbor

---
 opensfm/dense.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..ba55d5c 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -180,6 +180,9 @@ def clean_depthmap(
     if data.clean_depthmap_exists(shot.id):
         logger.info("Using precomputed clean depthmap {}".format(shot.id))
         return
+    if not data.raw_depthmap_exists(shot.id):
+        logger.warning("No raw depthmap to clean for image {}".format(shot.id))
+        return
     logger.info("Cleaning depthmap for image {}".format(shot.id))
 
     dc = pydense.DepthmapCleaner()
@@ -226,6 +229,9 @@ def prune_depthmap(
     if data.pruned_depthmap_exists(shot.id):
         logger.info("Using precomputed pruned depthmap {}".format(shot.id))
         return
+    if not data.clean_depthmap_exists(shot.id):
+        logger.warning("No clean depthmap to prune for image {}".format(shot.id))
+        return
     logger.info("Pruning depthmap for image {}".format(shot.id))
 
     dp = pydense.DepthmapPruner()
-- 
2.43.0


From 968de00a8d5df6c4e5d02ac79026301117a107a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:29 +0000
Subject: [PATCH 62/69] fix: compute the expected position of annotated control
 points in the frame of the reconstruction

---
 annotation_gui_gcp/run_ba.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..f3db0cf 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -94,7 +94,11 @@ def gcp_geopositional_error(
     coords_reconstruction = triangulate_gcps(gcps, reconstruction)
     out = {}
     for ix, gcp in enumerate(gcps):
-        expected = reconstruction.reference.to_lla(*gcp.lla_vec) if gcp.lla else None
+        expected = (
+            np.array(reconstruction.reference.to_topocentric(*gcp.lla_vec))
+            if gcp.lla
+            else None
+        )
         triangulated = (
             coords_reconstruction[ix] if coords_reconstruction[ix] is not None else None
         )
-- 
2.43.0


From e2f2138c054796da1a7f4564e367d502dd466180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:29 +0000
Subject: [PATCH 63/69] fix: load control points without measurement time, as
 documented, in the annotation tool

---
 annotation_gui_gcp/lib/gcp_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index efd9603..f72aad2 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -70,7 +70,7 @@ class GeodeticMeasurement:
     longitude: float
     latitude: float
     horizontal_std: float  # Standard deviation (m), horizontal.
-    measured_at: int  # Unix time
+    measured_at: int | None  # Unix time
     altitude: float | None = None
     vertical_std: float | None = None  # Standard deviation (m), vertical.
 
@@ -79,8 +79,9 @@ class GeodeticMeasurement:
             "latitude": self.latitude,
             "longitude": self.longitude,
             "horizontal_std": self.horizontal_std,
-            "measured_at": self.measured_at,
         }
+        if self.measured_at is not None:
+            d["measured_at"] = self.measured_at
         if self.altitude is not None:
             d["altitude"] = self.altitude
         if self.vertical_std is not None:
@@ -93,7 +94,7 @@ class GeodeticMeasurement:
             longitude=d["longitude"],
             latitude=d["latitude"],
             horizontal_std=d["horizontal_std"],
-            measured_at=d["measured_at"],
+            measured_at=d.get("measured_at"),
             altitude=d.get("altitude"),
             vertical_std=d.get("vertical_std"),
         )
@@ -209,7 +210,7 @@ class GroundControlPointManager:
                 point.geodetic_measurement = GeodeticMeasurement(
                     longitude=geo["longitude"],
                     latitude=geo["latitude"],
-                    measured_at=geo["measured_at"],
+                    measured_at=geo.get("measured_at"),
                     altitude=geo.get("altitude"),
                     horizontal_std=geo.get("horizontal_std", 100),
                     vertical_std=geo.get("vertical_std"),
-- 
2.43.0


From b1993dbf4bf44b00bf3cce0a01cceadc6bb913c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:19 +0000
Subject: [PATCH 64/69] fix: the area of a reconstruction included the origin

---
 opensfm/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index c2695d2..f46e9d9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -326,7 +326,7 @@ def processing_statistics(
         stats["date"] = "unknown"
 
     default_max = 1e30
-    min_x, min_y, max_x, max_y = default_max, default_max, 0, 0
+    min_x, min_y, max_x, max_y = default_max, default_max, -default_max, -default_max
     for rec in reconstructions:
         for shot in rec.shots.values():
             o = shot.pose.get_origin()
-- 
2.43.0


From 943d9e39803d3c09bcca1ae8b1d6fcf49af8347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:19 +0000
Subject: [PATCH 65/69] fix: statistics of several cameras kept the heatmap of
 the last one, and failed with several reconstructions

---
 opensfm/stats.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index f46e9d9..abc0cde 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -833,7 +833,7 @@ def save_heatmap(
             all_projections[shot.camera.id] += shots_projections
 
     for camera_id, projections in all_projections.items():
-        buckets_x, buckets_y = _heatmap_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _heatmap_buckets(all_cameras[camera_id])
         camera_heatmap = np.zeros((buckets_y, buckets_x))
         for x, y in projections:
             k_low_x, k_low_y = -min(x - splatting, 0), -min(y - splatting, 0)
@@ -876,16 +876,16 @@ def save_heatmap(
             fontsize="x-small",
         )
 
-    with io_handler.open_wb(
-        os.path.join(
-            output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
-        )
-    ) as fwb:
-        plt.savefig(
-            fwb,
-            dpi=300,
-            bbox_inches="tight",
-        )
+        with io_handler.open_wb(
+            os.path.join(
+                output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
+            )
+        ) as fwb:
+            plt.savefig(
+                fwb,
+                dpi=300,
+                bbox_inches="tight",
+            )
 
 
 def save_residual_grids(
@@ -896,11 +896,13 @@ def save_residual_grids(
     io_handler: io.IoFilesystemBase,
 ) -> None:
     all_errors = {}
+    all_cameras = {}
 
     scaling = 4
     for rec in reconstructions:
-        for camera_id in rec.cameras:
-            all_errors[camera_id] = []
+        for camera in rec.cameras.values():
+            all_errors[camera.id] = []
+            all_cameras[camera.id] = camera
 
     for i in range(len(reconstructions)):
         valid_observations = _get_valid_observations(reconstructions, tracks_manager)(i)
@@ -941,14 +943,14 @@ def save_residual_grids(
     for camera_id, errors in all_errors.items():
         if not errors:
             continue
-        buckets_x, buckets_y = _grid_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _grid_buckets(all_cameras[camera_id])
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
         camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
         camera_array_res = np.divide(camera_array_res, camera_array_count)
-        camera = rec.get_camera(camera_id)
+        camera = all_cameras[camera_id]
         w, h = camera.width, camera.height
         normalizer = max(w, h)
 
-- 
2.43.0


From 438c6e188a0695f4af79b8f844a6cdf4fac1da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:05 +0000
Subject: [PATCH 66/69] fix: extending a reconstruction failed when an image
 had no tracks

---
 opensfm/actions/extend_reconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index d2ba4c0..d64a5b4 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -14,7 +14,8 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
     tracks_manager = data.load_tracks_manager()
     rec_base.add_correspondences_from_tracks_manager(tracks_manager)
 
-    images = data.images()
+    # images without tracks can not be added
+    images = tracks_manager.get_shot_ids()
     remaining_images = set(images) - set(rec_base.shots)
     gcp = data.load_ground_control_points()
     report = {}
-- 
2.43.0


From b688dfd47efdee4c79c397eda375880dad257f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 67/69] fix: positions interpolated on a GPS track across the
 180th meridian were on the other side of the Earth

---
 opensfm/geotag_from_gpx.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index b68fd1d..07fd21f 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -119,6 +119,14 @@ def compute_bearing(
     return bearing
 
 
+def lerp_lon(alpha: float, a: float, b: float) -> float:
+    """Interpolate longitudes along the shortest arc between them"""
+    if abs(b - a) > 180.0:
+        b += math.copysign(360.0, a - b)
+    lon = (1 - alpha) * a + alpha * b
+    return lon - math.copysign(360.0, lon) if abs(lon) > 180.0 else lon
+
+
 def interpolate_lat_lon(
     points: list[tuple[datetime.datetime, float, float, float]],
     t: datetime.datetime,
@@ -150,7 +158,7 @@ def interpolate_lat_lon(
 
     # simple linear interpolation
     lat = (before[1] * dt_after + after[1] * dt_before) / (dt_before + dt_after)
-    lon = (before[2] * dt_after + after[2] * dt_before) / (dt_before + dt_after)
+    lon = lerp_lon(dt_before / (dt_before + dt_after), before[2], after[2])
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
@@ -189,7 +197,7 @@ def gpx_lerp(
     dt = alpha * (b[0] - a[0]).total_seconds()
     t = a[0] + datetime.timedelta(seconds=dt)
     lat = (1 - alpha) * a[1] + alpha * b[1]
-    lon = (1 - alpha) * a[2] + alpha * b[2]
+    lon = lerp_lon(alpha, a[2], b[2])
     alt = (1 - alpha) * a[3] + alpha * b[3]
     return t, lat, lon, alt
 
-- 
2.43.0


From 9cbf8d33f94c1767219e271b4773a4f94a7650e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 68/69] fix: sampling or interpolating a GPS track failed when
 points have no elevation

---
 opensfm/geotag_from_gpx.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index 07fd21f..9c7fea4 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -162,7 +162,7 @@ def interpolate_lat_lon(
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
-    if before[3] is not None:
+    if before[3] is not None and after[3] is not None:
         ele = (before[3] * dt_after + after[3] * dt_before) / (dt_before + dt_after)
     else:
         ele = None
@@ -192,13 +192,15 @@ def gpx_lerp(
     alpha: float,
     a: tuple[datetime.datetime, float, float, float],
     b: tuple[datetime.datetime, float, float, float],
-) -> tuple[datetime.datetime, float, float, float]:
+) -> tuple[datetime.datetime, float, float, float | None]:
     """Interpolate gpx point as (1 - alpha) * a + alpha * b"""
     dt = alpha * (b[0] - a[0]).total_seconds()
     t = a[0] + datetime.timedelta(seconds=dt)
     lat = (1 - alpha) * a[1] + alpha * b[1]
     lon = lerp_lon(alpha, a[2], b[2])
-    alt = (1 - alpha) * a[3] + alpha * b[3]
+    alt = None
+    if a[3] is not None and b[3] is not None:
+        alt = (1 - alpha) * a[3] + alpha * b[3]
     return t, lat, lon, alt
 
 
-- 
2.43.0


From d1772fc42dc033b322f8548018f0ad0cd55e85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 69/69] fix: update_geotag failed with a given reconstruction
 file

---
 bin/update_geotag | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/update_geotag b/bin/update_geotag
index c2ade67..cf0253f 100755
--- a/bin/update_geotag
+++ b/bin/update_geotag
@@ -46,7 +46,7 @@ if args.reconstruction_file is None:
     reconstructions = data.load_reconstruction()
 else:
     with open(args.reconstruction_file) as f:
-        reconstructions = io.json_loads(f.read())
+        reconstructions = io.reconstructions_from_json(io.json_loads(f.read()))
 
 for reconstruction in reconstructions:
     # write updated gps/compass to the image file
-- 
2.43.0

