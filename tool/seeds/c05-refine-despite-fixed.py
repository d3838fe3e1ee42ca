prop = "C05"
needs = "fixed intrinsics together with intrinsics loaded from a file"
breaks = "the intrinsics loaded from a file are refined although the configuration fixes them"
edits = [(B, """  if (fix_intrinsic_ == 0) {
    refineIntrinsicAndPoseAllCam();
  }
  computeReproErrAllBoard();
""", """  const bool loaded = !cam_params_path_.empty() && cam_params_path_ != "None";
  if (loaded || fix_intrinsic_ == 0) {
    refineIntrinsicAndPoseAllCam();
  }
  computeReproErrAllBoard();
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.scratch();
  auto params = g.dir / "params.yml";
  cv::Mat K = (cv::Mat_<double>(3, 3) << 930, 0, 645, 0, 930, 470, 0, 0, 1);
  cv::Mat D = cv::Mat::zeros(1, 5, CV_64F);
  {
    cv::FileStorage fs(params.string(), cv::FileStorage::WRITE);
    fs << "nb_camera" << 1 << "camera_0" << "{" << "camera_matrix" << K << "distortion_vector" << D << "}";
  }
  g.init(1, 1, "fix_intrinsic: 1\ncam_params_path: \"" + params.string() + "\"\n");
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  for (int f = 0; f < 10; f++)
    g.see(0, f, 0, Rig::T(0.1 * f - 0.4, 0.3 - 0.05 * f, 0.02 * f, -0.1, -0.1, 0.8 + 0.05 * f));
  auto &C = *g.cal;
  C.initIntrinsic();
  EXPECT(Rig::err(C.cams_[0]->getCameraMat(), K) == 0);
  EXPECT(Rig::err(C.cams_[0]->getDistortionVectorVector(), D) == 0);
  return failures != 0;
}
'''
