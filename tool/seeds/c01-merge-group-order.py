prop = "C01"
needs = "two camera groups without common view, the second with at least two cameras, merged through a non-overlapping pair pose with rotation"
breaks = "the pose of a camera in its former group and the pose of that group in the merged one are multiplied in the wrong order for every camera but the group's reference"
edits = [(B, "cv::Mat transform = pose_cam_in_current_group * pose_in_final;", "cv::Mat transform = pose_in_final * pose_cam_in_current_group;")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(3, 1);
  auto &C = *g.cal;
  cv::Mat c1 = Rig::T(0.1, 2.5, 0.2, 0.4, 0.1, 0.3);  // camera 1 <- camera 0
  cv::Mat c21 = Rig::T(-0.3, 0.4, 0.1, 0.2, 0.5, 0.0); // camera 2 <- camera 1
  auto ga = std::make_shared<McCalib::CameraGroup>(0, 0);
  ga->insertCamera(C.cams_[0]);
  cv::Mat eye = cv::Mat::eye(4, 4, CV_64F);
  ga->setCameraPoseMat(eye, 0);
  auto gb = std::make_shared<McCalib::CameraGroup>(1, 1);
  gb->insertCamera(C.cams_[1]);
  gb->insertCamera(C.cams_[2]);
  gb->setCameraPoseMat(eye, 1);
  gb->setCameraPoseMat(c21, 2);
  C.cam_group_[0] = ga;
  C.cam_group_[1] = gb;
  C.no_overlap_camgroup_pair_pose_[{0, 1}] = c1;
  C.no_overlap_camgroup_pair_pose_[{1, 0}] = c1.inv();
  C.no_overlap__camgroup_pair_common_cnt_[{0, 1}] = 5;
  C.no_overlap__camgroup_pair_common_cnt_[{1, 0}] = 5;
  C.initInterCamGroupGraph();
  C.mergeCameraGroup();
  EXPECT(C.cam_group_.size() == 1);
  auto &m = C.cam_group_.begin()->second;
  EXPECT(Rig::err(m->getCameraPoseMat(1), c1) < 1e-6);
  cv::Mat want = c21 * c1;
  EXPECT(Rig::err(m->getCameraPoseMat(2), want) < 1e-6);
  return failures != 0;
}
'''
