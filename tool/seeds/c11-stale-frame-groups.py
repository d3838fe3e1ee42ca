prop = "C11"
needs = "a merge of camera groups (two or more passes of the registration), and a later traversal of the observations by frame"
breaks = "merging no longer empties the per-frame list of camera group observations, so frames keep observations of groups that no longer exist"
edits = [(B, "    it_frame.second->cam_group_observations_.clear();\n", "")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 1);
  g.setIntrinsics();
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  for (int c = 0; c < 2; c++)
    g.cam[c] = Rig::T(0, 0.1 * c, 0, 0.2 * c, 0, 0);
  for (int f = 0; f < 4; f++)
    for (int c = 0; c < 2; c++)
      g.see(c, f, 0, Rig::T(0.05 * f, 0.1, 0.02 * f, -0.1, -0.1, 1.0 + 0.05 * f));
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  C.mergeAllCameraGroupObs();
  C.mergeAllCameraGroupObs();
  for (auto &f : C.frames_)
    for (auto &o : f.second->cam_group_observations_) {
      auto p = o.second.lock();
      EXPECT(p);
      EXPECT((C.cams_group_obs_[{p ? p->cam_group_idx_ : -1, f.first}] == p));
    }
  for (auto &f : C.frames_)
    EXPECT(f.second->cam_group_observations_.size() == 1);
  return failures != 0;
}
'''
