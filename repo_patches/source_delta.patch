From 7948a67ee76efe0694d477673a6e6c17b8fc5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 01/29] fix: read the quaternion_averaging configuration key
 under its documented name

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..dbf1912 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From 16c701886ca101ccedb7965bc41cae7bc734be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 02/29] fix: save the cameras of every camera group, not only
 of the first one

---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dbf1912..4642f69 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From eb50f62541a6e7f76beab0ae3dbee67882a24d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 03/29] fix: hand-eye fallback uses the poses of both camera
 groups

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..b35cad3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -680,7 +680,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From 8ed33682507724af78f7a09fbb80e1bc08939765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 04/29] fix: register each object observation once after
 merging objects

---
 McCalib/src/McCalib.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4642f69..c5568cb 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1849,13 +1849,9 @@ void Calibration::mergeAllObjectObs() {
 
   object_observations_.clear();
 
-  // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  // Reinitialize all object obserations
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From bfd7e8f316bab87a9d956e6fc118242cd57df533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 05/29] fix: compose camera and camera-group chains from the
 reference outwards

---
 McCalib/src/McCalib.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c5568cb..73b0fea 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1128,8 +1128,7 @@ void Calibration::initCameraGroup() {
           std::pair<int, int> cam_pair_idx =
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
@@ -1564,8 +1563,7 @@ void Calibration::mergeCameraGroup() {
               std::make_pair(current_group, next_group);
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From e00f1766302325cb57eea3aa65e0bf8434b767a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 06/29] fix: discard group-pair poses indexed by ids of groups
 that were merged

---
 McCalib/src/McCalib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 73b0fea..bffba8a 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1481,7 +1481,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
@@ -1604,6 +1604,11 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+
+  // The pair poses were indexed by the ids of the groups which have just been
+  // replaced
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From 344ca4d9e590b6686c68b8dae3ef89e7f357a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 07/29] fix: save object poses with respect to the reference
 camera as documented

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index bffba8a..9fafb0d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -465,7 +465,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From 2278b437e60e5175d54f1ac48a24041f3c246109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 08/29] fix: list only the frames of its own camera group in
 the reprojection error file

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 9fafb0d..dd2c271 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2250,7 +2250,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2258,6 +2257,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From 18e4591a347d12bf68b83d04dfd1ae22a93a5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 09/29] fix: compare shortest paths with full-precision edge
 weights

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..43e426d 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From a42be5485442ed0308ffccc0adc24c62aede61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 10/29] fix: return an empty path between vertices which are
 not connected

---
 McCalib/src/Graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 43e426d..d35a61e 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -127,6 +127,13 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
 
   boost::dijkstra_shortest_paths(graph_, idx_to_vertex_[v1], distance_map);
 
+  // a vertex without predecessor other than the source is not reachable
+  if (v1 != v2 && p_map[idx_to_vertex_[v2]] == idx_to_vertex_[v2]) {
+    LOG_ERROR << "Vertices with names {" << v1 << "," << v2
+              << "} are not connected";
+    return vert_in_path;
+  }
+
   vert_in_path = Graph::getPath(p_map, idx_to_vertex_[v1], idx_to_vertex_[v2]);
 
   return vert_in_path;
-- 
2.43.0


From 14eb3bd182ba31a15f0bac815d7f1cee40f60f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 11/29] fix: an edge from a new vertex to itself creates a
 single vertex

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index d35a61e..9b95c2c 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1;
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From 0455d179ba24aa1d14bca0d746f1cc5268c9947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 12/29] fix: count the kernel entries of the corner refinement
 from zero

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 19d915b3d26d452df9fa925c88fd488d40e93d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 13/29] fix: give intrinsics, poses and image sizes a
 determined initial value

---
 McCalib/include/BoardObs.hpp    | 2 +-
 McCalib/include/Camera.hpp      | 4 ++--
 McCalib/include/Object3DObs.hpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/McCalib/include/BoardObs.hpp b/McCalib/include/BoardObs.hpp
index d62818a..3c2b406 100644
--- a/McCalib/include/BoardObs.hpp
+++ b/McCalib/include/BoardObs.hpp
@@ -30,7 +30,7 @@ public:
   int board_id_;
 
   // Pose
-  std::array<double, 6> pose_;
+  std::array<double, 6> pose_{};
 
   // points
   std::vector<cv::Point2f> pts_2d_;
diff --git a/McCalib/include/Camera.hpp b/McCalib/include/Camera.hpp
index dba3284..b32743e 100644
--- a/McCalib/include/Camera.hpp
+++ b/McCalib/include/Camera.hpp
@@ -43,11 +43,11 @@ public:
   // intrinsics
   // fx,fy,u0,v0,r1,r2,t1,t2,r3 (perspective)
   // fx,fy,u0,v0,k1,k2,k3,k4 (Kannala)
-  std::array<double, 9> intrinsics_;
+  std::array<double, 9> intrinsics_{};
 
   int cam_idx_ = 0; // camera index
   int distortion_model_ = 0;
-  int im_cols_, im_rows_;
+  int im_cols_ = 0, im_rows_ = 0;
 
   // Functions
   Camera() = delete;
diff --git a/McCalib/include/Object3DObs.hpp b/McCalib/include/Object3DObs.hpp
index 7742a4c..8db423a 100644
--- a/McCalib/include/Object3DObs.hpp
+++ b/McCalib/include/Object3DObs.hpp
@@ -37,10 +37,10 @@ public:
   std::vector<int> board_id_;
 
   // Pose
-  std::array<double, 6> pose_;
+  std::array<double, 6> pose_{};
 
   // Pose of the object expressed in camera group referential
-  std::array<double, 6> group_pose_;
+  std::array<double, 6> group_pose_{};
 
   // points
   std::vector<cv::Point2f> pts_2d_;
-- 
2.43.0


From 388d3a33870d230b465ec7702999d7d289795b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 14/29] fix: RANSAC PnP with fewer than four points or without
 inliers

---
 McCalib/src/geometrytools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index b35cad3..aac2103 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -243,8 +243,16 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   int countit = 0;
   int BestInNb = 0;
   double myepsilon = 0.00001; // small value for numerical problem
-  cv::Mat Rot(1, 3, CV_64F);
-  cv::Mat Trans(1, 3, CV_64F);
+  cv::Mat Rot = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat Trans = cv::Mat::zeros(1, 3, CV_64F);
+
+  // determined output even if no sample leads to any inlier
+  Rot.copyTo(BestR);
+  Trans.copyTo(BestT);
+
+  // P3P needs four points
+  if (imagePoints.size() < 4)
+    return InliersR;
 
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
-- 
2.43.0


From d1d7d985267e1322669a578ec3dd0a4e1d2d7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 15/29] fix: rejected board observations do not contribute
 relative board poses

---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dd2c271..bf6e149 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -741,11 +741,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
-- 
2.43.0


From f195f549d2cce0fd3b51f8f7fbc659071608edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 16/29] fix: rejected board observations do not become part of
 object observations

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index bf6e149..823f0c8 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -949,7 +949,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From bdbf51dc187fe6d68e0cb747d963552211c5f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 17/29] fix: check object observation handles before
 dereferencing them

---
 McCalib/src/McCalib.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 823f0c8..4972f34 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1925,7 +1925,8 @@ void Calibration::saveReprojectionImages(const int cam_id) {
           auto it_obj_obs_ptr = it_obj_obs.second.lock();
           auto it_obj_obs_cam_group_ptr =
               it_cam_group_obs_ptr->cam_group_.lock();
-          auto it_obj_obs_object_3d_ptr = it_obj_obs_ptr->object_3d_.lock();
+          auto it_obj_obs_object_3d_ptr =
+              it_obj_obs_ptr ? it_obj_obs_ptr->object_3d_.lock() : nullptr;
           if (it_obj_obs_ptr && it_obj_obs_cam_group_ptr &&
               it_obj_obs_object_3d_ptr &&
               it_obj_obs_ptr->camera_id_ == cam_id) {
@@ -2035,7 +2036,8 @@ void Calibration::saveDetectionImages(const int cam_id) {
             it_cam_group_obs_ptr->object_observations_;
         for (const auto &it_obj_obs : object_observations) {
           auto it_obj_obs_ptr = it_obj_obs.second.lock();
-          auto it_obj_obs_object_3d_ptr = it_obj_obs_ptr->object_3d_.lock();
+          auto it_obj_obs_object_3d_ptr =
+              it_obj_obs_ptr ? it_obj_obs_ptr->object_3d_.lock() : nullptr;
           if (it_obj_obs_ptr && it_obj_obs_ptr->camera_id_ == cam_id &&
               it_obj_obs_object_3d_ptr) {
             // Get the 2d and 3d pts
@@ -2193,8 +2195,10 @@ double Calibration::computeAvgReprojectionError() {
             // iterate through 3D object obs
             for (const auto &it_obj3d : current_obj3d_obs_vec) {
               auto it_obj3d_ptr = it_obj3d.second.lock();
-              auto it_obj3d_object_3d_ptr = it_obj3d_ptr->object_3d_.lock();
-              auto it_obj3d_cam_ptr = it_obj3d_ptr->cam_.lock();
+              auto it_obj3d_object_3d_ptr =
+                  it_obj3d_ptr ? it_obj3d_ptr->object_3d_.lock() : nullptr;
+              auto it_obj3d_cam_ptr =
+                  it_obj3d_ptr ? it_obj3d_ptr->cam_.lock() : nullptr;
               if (it_obj3d_ptr && it_obj3d_object_3d_ptr && it_obj3d_cam_ptr) {
                 int current_cam_id = it_obj3d_ptr->camera_id_;
                 const std::vector<cv::Point3f> &obj_pts_3d =
@@ -2282,9 +2286,11 @@ void Calibration::saveReprojectionErrorToFile() {
             // iterate through 3D object obs
             for (const auto &it_obj3d : current_obj3d_obs_vec) {
               auto it_obj3d_ptr = it_obj3d.second.lock();
-              auto it_obj3d_object_3d_ptr = it_obj3d_ptr->object_3d_.lock();
+              auto it_obj3d_object_3d_ptr =
+                  it_obj3d_ptr ? it_obj3d_ptr->object_3d_.lock() : nullptr;
               auto it_cam_group_obs_ptr = it_cam_group_obs.second.lock();
-              auto it_obj3d_cam_ptr = it_obj3d_ptr->cam_.lock();
+              auto it_obj3d_cam_ptr =
+                  it_obj3d_ptr ? it_obj3d_ptr->cam_.lock() : nullptr;
               if (it_obj3d_ptr && it_obj3d_object_3d_ptr &&
                   it_cam_group_obs_ptr && it_obj3d_cam_ptr) {
                 int current_cam_id = it_obj3d_ptr->camera_id_;
-- 
2.43.0


From 2e7d3abbbda2ddfa296379cd3010918ad441dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 18/29] fix: set the shared detector parameters before the
 workers start

---
 McCalib/src/McCalib.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4972f34..698e621 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -247,6 +247,15 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
     cams_[cam_idx]->im_cols_ = image.cols;
     cams_[cam_idx]->im_rows_ = image.rows;
   }
+
+  // set before the workers, which share these parameters, are started
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   for (std::size_t frame_idx = 0u; frame_idx < num_frames; ++frame_idx) {
     LOG_DEBUG << "Frame index :: " << frame_idx;
 
@@ -290,13 +299,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From dbe3bad8ae2a07118003a9df5908d391ae41dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 19/29] fix: every camera and board knows all the frames in
 which it was observed

---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 698e621..e493be7 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -622,9 +622,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From 361c86188746cc7b3014254470c095bd80403eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 20/29] fix: report a missing configuration argument

---
 apps/calibrate/src/calibrate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 3834662..9bea3ca 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -85,7 +85,10 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
 }
 
 int main(int argc, char *argv[]) {
-  (void)argc; // casting to fix -Werror=unused-parameter
+  if (argc < 2) {
+    LOG_FATAL << "Usage: calibrate <path to the configuration file>";
+    return -1;
+  }
   const std::filesystem::path config_path = argv[1];
   const bool is_file_available = std::filesystem::exists(config_path) &&
                                  config_path.has_filename() &&
-- 
2.43.0


From fc64d2f68cbf03902fd0a22cbd2ffa1a0a32f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 21/29] fix: extend image and object point lists together

---
 McCalib/src/Camera.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 79305a4..5c10b2e 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -201,7 +201,6 @@ void Camera::initializeCalibration() {
         valid_board = checkBorderToleranceFisheye(board_obs_temp);
       }
       if (valid_board == true) {
-        img_points.emplace_back(board_obs_temp->pts_2d_);
         const std::vector<int> &corners_idx_temp = board_obs_temp->charuco_id_;
         std::shared_ptr<Board> board_3d_ptr = board_obs_temp->board_3d_.lock();
         if (board_3d_ptr) {
@@ -210,6 +209,7 @@ void Camera::initializeCalibration() {
           for (const auto &corner_idx_temp : corners_idx_temp)
             pts_3d_temp.emplace_back(board_3d_ptr->pts_3d_[corner_idx_temp]);
           obj_points.emplace_back(pts_3d_temp);
+          img_points.emplace_back(board_obs_temp->pts_2d_);
         }
       }
     }
-- 
2.43.0


From 23cd64296e68400efd1d984db9c849da4b84f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 22/29] fix: hand-eye consistency compares the motions of the
 two groups

---
 McCalib/src/geometrytools.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index aac2103..be78a9f 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -591,11 +591,11 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP2.inv() * pose_g1_g2.inv() * PP1 * pose_g1_g2;
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From 3d7422df3fa107e732b17b3329b1e24745e40bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 23/29] fix: per-board settings replace the common ones
 independently of each other

Boards with their own numbers of squares but a common square size were
built with the common numbers of squares, and a per-board square size
alone indexed empty lists.
---
 McCalib/src/Board.cpp                         | 22 ++++++++++---------
 McCalib/src/McCalib.cpp                       |  2 ++
 .../src/create_charuco_boards.cpp             | 18 +++++++--------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..6e4f936 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,19 +45,21 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
-  } else {
+  fs["number_x_square"] >> nb_x_square_;
+  fs["number_y_square"] >> nb_y_square_;
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  fs["square_size"] >> square_size_;
+
+  // settings given per board replace the common ones
+  if (number_x_square_per_board.size() != 0)
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
+  if (number_y_square_per_board.size() != 0)
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
+  if (square_size_per_board.size() != 0)
     square_size_ = square_size_per_board[boards_index[board_idx]];
-  }
 
   fs.release(); // close the input file
 
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e493be7..53ce006 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -88,6 +88,8 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
   if (number_x_square_per_board_.size() == 0) {
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
+  }
+  if (number_y_square_per_board_.size() == 0) {
     number_y_square_per_board_.assign(max_board_idx + 1, nb_y_square);
   }
 
diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..ca7d3a2 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -70,15 +70,15 @@ int main(int argc, char *argv[]) {
 
   fs.release(); // close the input file
 
-  // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
-  }
+  // Settings which are not given per board are common to all the boards
+  if (number_x_square_per_board.size() == 0)
+    number_x_square_per_board.assign(num_board, num_x_square);
+  if (number_y_square_per_board.size() == 0)
+    number_y_square_per_board.assign(num_board, num_y_square);
+  if (resolution_x_per_board.size() == 0)
+    resolution_x_per_board.assign(num_board, res_x);
+  if (resolution_y_per_board.size() == 0)
+    resolution_y_per_board.assign(num_board, res_y);
 
   const std::vector<cv::Mat> charuco_boards_images =
       McCalib::createCharucoBoardsImages(
-- 
2.43.0


From 386d24db2a971f463b6dbc8d6b8842db89b84d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:46 +0000
Subject: [PATCH 24/29] fix: keep refined corners that follow one whose
 refinement diverged

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 53ce006..2660a05 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -332,7 +332,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From 09c491c84809f6b05aef861541340fbb0596a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 25/29] fix: bootstrapped hand-eye draws no more pose clusters
 than there are

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index be78a9f..593d428 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -643,7 +643,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From 865c42d4e6c0a706d57e007c8fa34ac749ac7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:05 +0000
Subject: [PATCH 26/29] fix: triangulation RANSAC draws only the two points it
 needs

---
 McCalib/src/geometrytools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 593d428..fd16f42 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -163,6 +163,10 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
   unsigned int BestInNb = 0;
   double myepsilon = 0.00001; // small value for numerical problem
 
+  // a triangulation needs two points
+  if (point2d.size() < 2)
+    return;
+
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
   std::vector<int> myvector(point2d.size());
@@ -174,8 +178,7 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
     std::random_device rd;
     std::mt19937 g(rd());
     std::shuffle(myvector.begin(), myvector.end(), g);
-    std::array<int, 4> idx = {myvector[0], myvector[1], myvector[2],
-                              myvector[3]};
+    std::array<int, 2> idx = {myvector[0], myvector[1]};
 
     // Select the corresponding sample of 2D pts and corresponding rot and trans
     std::vector<cv::Point2f> image2Pts = {point2d[idx[0]], point2d[idx[1]]};
-- 
2.43.0


From ab0e9e73f125e3f1ddbbbb8b88a9dc5b483e9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 27/29] fix: take the image size of a camera from its first
 readable image

An unreadable first image was only caught by an assertion, which a release
build does not contain: the camera then got an image size of 0 x 0.
---
 McCalib/src/McCalib.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 2660a05..41553e2 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -240,14 +240,15 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
 
   std::size_t num_frames = fn.size();
-  if (num_frames > 0u) {
-    cv::Mat image = cv::imread(fn[0]);
+  for (const cv::String &path : fn) {
+    cv::Mat image = cv::imread(path);
     if (image.empty()) {
-      LOG_ERROR << "Could not read the image :: " << fn[0];
-      assert((!image.empty()) && "Calibration cannot be done");
+      LOG_ERROR << "Could not read the image :: " << path;
+      continue;
     }
     cams_[cam_idx]->im_cols_ = image.cols;
     cams_[cam_idx]->im_rows_ = image.rows;
+    break;
   }
 
   // set before the workers, which share these parameters, are started
-- 
2.43.0


From f4995484ad09fc29faa08a40d826689deb99c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:40 +0000
Subject: [PATCH 28/29] fix: give the numbers of boards and calibrations a
 value when their configuration is missing

---
 McCalib/include/Board.hpp   | 12 ++++++------
 McCalib/include/McCalib.hpp |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/McCalib/include/Board.hpp b/McCalib/include/Board.hpp
index e99b923..fba408e 100644
--- a/McCalib/include/Board.hpp
+++ b/McCalib/include/Board.hpp
@@ -26,16 +26,16 @@ class Frame;
 class Board final {
 public:
   // Parameters
-  int nb_x_square_, nb_y_square_, res_x_, res_y_;
-  float length_square_, length_marker_;
-  float square_size_;        // size of the squares in the calibration board
-  unsigned int nb_pts_;      // Number of points on the board
-  std::array<int, 3> color_; // color to display the board
+  int nb_x_square_ = 0, nb_y_square_ = 0, res_x_ = 0, res_y_ = 0;
+  float length_square_ = 0, length_marker_ = 0;
+  float square_size_ = 0;      // size of the squares in the calibration board
+  unsigned int nb_pts_ = 0;    // Number of points on the board
+  std::array<int, 3> color_{}; // color to display the board
 
   // 3D points
   std::vector<cv::Point3f> pts_3d_;
   std::vector<int> pts_idx_; // indexing 0 to N
-  int board_id_;             // index of the board
+  int board_id_ = -1;          // index of the board
 
   // List of board observation for this board
   std::map<int, std::weak_ptr<BoardObs>> board_observations_;
diff --git a/McCalib/include/McCalib.hpp b/McCalib/include/McCalib.hpp
index 044f456..93e0678 100644
--- a/McCalib/include/McCalib.hpp
+++ b/McCalib/include/McCalib.hpp
@@ -35,7 +35,7 @@ namespace McCalib {
 class Calibration final {
 public:
   // Parameters
-  unsigned int nb_camera_, nb_board_;
+  unsigned int nb_camera_ = 0, nb_board_ = 0;
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
      defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
@@ -52,7 +52,7 @@ public:
       cv::aruco::DetectorParameters(); // parameters for detection
 #endif
 
-  float min_perc_pts_;
+  float min_perc_pts_ = 0;
 
   // images path
   std::filesystem::path root_path_;
@@ -65,7 +65,7 @@ public:
   std::filesystem::path save_path_; // path to save calibrated cameras parameter
   std::filesystem::path
       camera_params_file_name_;  // file name with cameras params
-  int save_repro_, save_detect_; // flag to save or not the images
+  int save_repro_ = 0, save_detect_ = 0; // flag to save or not the images
 
   // various boards size parameters
   std::vector<int> number_x_square_per_board_, number_y_square_per_board_;
-- 
2.43.0


From 0d10dd50d2e46ef44576c9df771687af721fb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:59 +0000
Subject: [PATCH 29/29] fix: detect boards also where the number of processors
 is unknown

---
 McCalib/src/McCalib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 41553e2..1c50776 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -235,7 +235,8 @@ void Calibration::boardExtraction() {
  */
 void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
                                          const int cam_idx) {
-  const unsigned int num_threads = std::thread::hardware_concurrency();
+  const unsigned int num_threads =
+      std::max(1u, std::thread::hardware_concurrency());
   boost::asio::thread_pool pool(num_threads);
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
 
-- 
2.43.0

