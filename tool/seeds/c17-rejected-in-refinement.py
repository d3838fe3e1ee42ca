prop = "C17"
needs = "a board whose pose estimation found fewer than four inliers although corners are left in its observation"
breaks = "intrinsic refinement skips a rejected observation only when no point is left in it, so its few contradictory points and its unreliable pose enter the problem"
edits = [(S + "Camera.cpp", """    if (board_obs_ptr && board_obs_ptr->valid_ == true) {
""", """    if (board_obs_ptr &&
        (board_obs_ptr->valid_ == true || !board_obs_ptr->pts_2d_.empty())) {
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 1);
  g.cam[0] = cv::Mat::eye(4, 4, CV_64F);
  g.board[0] = cv::Mat::eye(4, 4, CV_64F);
  g.setIntrinsics();
  for (int f = 0; f < 4; f++)
    g.see(0, f, 0, Rig::T(0.3 - 0.2 * f, 0.1 * f, 0.05, -0.1, -0.1, 0.8 + 0.1 * f));
  g.cal->estimatePoseAllBoards();
  auto rejected = g.cal->board_observations_[2];
  EXPECT(rejected->valid_);
  // what a failed pose estimation leaves behind
  rejected->valid_ = false;
  rejected->pts_2d_.resize(3);
  rejected->charuco_id_.resize(3);
  cv::Mat r = (cv::Mat_<double>(3, 1) << 0, 0, 0);
  cv::Mat t = (cv::Mat_<double>(3, 1) << 0.5, 0.5, 3);
  rejected->setPoseVec(r, t);
  auto before = rejected->pose_;
  g.cal->refineIntrinsicAndPoseAllCam();
  bool same = true;
  for (int i = 0; i < 6; i++)
    same = same && rejected->pose_[i] == before[i];
  EXPECT(same);
  return failures != 0;
}
'''
