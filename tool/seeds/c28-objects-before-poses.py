prop = "C28"
needs = "boards that no camera sees together but two cameras of one group see at the same time, so that objects have to be merged"
breaks = "the object transforms are averaged before the pose pairs they average have been collected"
edits = [(B, """  computeObjectsPairPose();
  initInterTransform(object_pose_pairs_, inter_object_transform_);
""", """  initInterTransform(object_pose_pairs_, inter_object_transform_);
  computeObjectsPairPose();
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 3);
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.cam[1] = Rig::T(0, 0.2, 0, 0.3, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0.1, -0.2, 0.05, 0.35, 0.02, 0.03);
  g.board[2] = Rig::T(0, 0, 0, 0, 0.3, 0);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.3, -0.1, 1.2 + 0.05 * f);
    g.see(0, f, 0, P);
    if (f % 2)
      g.see(1, f, 1, P);
    else
      g.see(1, f, 0, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  EXPECT(C.object_3d_.size() == 2);
  try {
    C.merge3DObjects();
  } catch (const std::exception &e) {
    EXPECT(false);
    return 1;
  }
  EXPECT(C.object_3d_.size() == 1);
  EXPECT(Rig::err(C.object_3d_[0]->getBoardPoseMat(1), g.board[1]) < 1e-2);
  return failures != 0;
}
'''
