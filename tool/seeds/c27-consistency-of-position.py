prop = "C27"
needs = "bootstrapped hand-eye approach with a selection of poses that is not the first ones"
breaks = "the consistency test of the bootstrapped hand-eye estimation reads the pose of the second group at the position in the selection instead of the selected index: right estimates are discarded"
edits = [(S + "geometrytools.cpp", """    cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];""",
          """    cv::Mat pose_cam_group_2_1 = pose_abs_2[i];""")]
cpp = r'''#include "rig.hpp"
namespace McCalib {
double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
                           const std::vector<cv::Mat> &pose_abs_2,
                           const std::vector<unsigned int> &selected_poses_idxs,
                           const cv::Mat &pose_g1_g2);
}
int main() {
  cv::Mat X = Rig::T(0.2, 2.1, 0.3, 0.4, 0.1, -0.3), Y = Rig::T(0.4, -0.2, 0.1, 0.2, 0.3, 0.1);
  std::vector<cv::Mat> a, b;
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.5 * std::sin(1.0 * f), 0.6 * std::cos(1.7 * f), 0.7 * std::sin(2.3 * f + 1), 0.1 * f, 0.2, 0.9 + 0.1 * f);
    b.push_back(P);
    a.push_back(X * P * Y);
  }
  double e = McCalib::checkSetConsistency(a, b, {6, 1, 7, 3, 4, 2}, X);
  std::cout << e << std::endl;
  return e < 1 ? 0 : 1;
}
'''
