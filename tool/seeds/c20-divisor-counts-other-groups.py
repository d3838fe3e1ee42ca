prop = "C20"
needs = "two camera groups observed in the same frame (non-overlapping cameras before their groups are merged); with one group the divisor is right"
breaks = "the average reprojection error is divided by the observations of all groups once per group, so it is reported too small"
edits = [(B, """          auto it_cam_group_obs_ptr = it_cam_group_obs.second.lock();
          if (it_cam_group_obs_ptr &&
              cam_group_idx == it_cam_group_obs_ptr->cam_group_idx_) {
            std::map<int, std::weak_ptr<Object3DObs>> current_obj3d_obs_vec =
                it_cam_group_obs_ptr->object_observations_;

            // iterate through 3D object obs
            for (const auto &it_obj3d : current_obj3d_obs_vec) {
              auto it_obj3d_ptr = it_obj3d.second.lock();
              auto it_obj3d_object_3d_ptr =
                  it_obj3d_ptr ? it_obj3d_ptr->object_3d_.lock() : nullptr;
              auto it_obj3d_cam_ptr =
                  it_obj3d_ptr ? it_obj3d_ptr->cam_.lock() : nullptr;
              if (it_obj3d_ptr && it_obj3d_object_3d_ptr && it_obj3d_cam_ptr) {
                int current_cam_id = it_obj3d_ptr->camera_id_;
                const std::vector<cv::Point3f> &obj_pts_3d =
                    it_obj3d_object_3d_ptr->pts_3d_;
                const std::vector<int> &obj_pts_idx = it_obj3d_ptr->pts_id_;
                const std::vector<cv::Point2f> &obj_pts_2d =
                    it_obj3d_ptr->pts_2d_;
                camera_list""", """          auto it_cam_group_obs_ptr = it_cam_group_obs.second.lock();
          if (it_cam_group_obs_ptr)
            number_of_adds +=
                (int)it_cam_group_obs_ptr->object_observations_.size();
          if (it_cam_group_obs_ptr &&
              cam_group_idx == it_cam_group_obs_ptr->cam_group_idx_) {
            std::map<int, std::weak_ptr<Object3DObs>> current_obj3d_obs_vec =
                it_cam_group_obs_ptr->object_observations_;

            // iterate through 3D object obs
            for (const auto &it_obj3d : current_obj3d_obs_vec) {
              auto it_obj3d_ptr = it_obj3d.second.lock();
              auto it_obj3d_object_3d_ptr =
                  it_obj3d_ptr ? it_obj3d_ptr->object_3d_.lock() : nullptr;
              auto it_obj3d_cam_ptr =
                  it_obj3d_ptr ? it_obj3d_ptr->cam_.lock() : nullptr;
              if (it_obj3d_ptr && it_obj3d_object_3d_ptr && it_obj3d_cam_ptr) {
                int current_cam_id = it_obj3d_ptr->camera_id_;
                const std::vector<cv::Point3f> &obj_pts_3d =
                    it_obj3d_object_3d_ptr->pts_3d_;
                const std::vector<int> &obj_pts_idx = it_obj3d_ptr->pts_id_;
                const std::vector<cv::Point2f> &obj_pts_2d =
                    it_obj3d_ptr->pts_2d_;
                camera_list"""),
         (B, """                total_avg_error_sum += cv::mean(error_list);
                number_of_adds++;
""", """                total_avg_error_sum += cv::mean(error_list);
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 2, "fix_intrinsic: 1\n");
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.cam[1] = Rig::T(0, 0.1, 0, 0.2, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0, 0, 0, 0.5, 0, 0);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.2, -0.1, 1.0 + 0.05 * f);
    g.see(0, f, 0, P);
    g.see(1, f, 1, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  C.estimatePoseAllObjects();
  C.computeAllObjPoseInCameraGroup();
  EXPECT(C.cam_group_.size() == 2);
  // the detections are now all off by (3,4): every distance is 5 pixels
  for (auto &o : C.object_observations_)
    for (auto &p : o.second->pts_2d_)
      p += cv::Point2f(3, 4);
  EXPECT(std::abs(C.computeAvgReprojectionError() - 5.0) < 0.5);
  return failures != 0;
}
'''
