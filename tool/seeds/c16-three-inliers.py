prop = "C16"
needs = "a board detection whose corners fit no pose: only the three points a P3P sample matches exactly are inliers"
breaks = "board observations with a single degenerate sample as inliers stay valid"
edits = [(S + "BoardObs.cpp", """    if (board_3d_ptr && inliers.rows < 4) {""",
          """    if (board_3d_ptr && inliers.empty()) {""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 1);
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  cv::RNG rng(3);
  auto &C = *g.cal;
  const int frames = 12;
  for (int f = 0; f < frames; f++)
    g.see(0, f, 0, Rig::T(0.2, 0.3, 0.1, -0.1, -0.1, 0.8));
  for (auto &it : C.board_observations_)
    for (auto &p : it.second->pts_2d_)
      p = {rng.uniform(200.f, 1000.f), rng.uniform(100.f, 600.f)};
  C.estimatePoseAllBoards();
  int n = 0;
  for (auto &it : C.board_observations_) {
    n++;
    EXPECT(!it.second->valid_ || it.second->pts_2d_.size() >= 4);
  }
  EXPECT(n == frames);
  return failures != 0;
}
'''
