prop = "C01"
needs = "an object of three boards of which the last shares views only with the second: its pose is chained over two measured transforms with rotation"
breaks = "the transforms along the path between two boards of an object are multiplied in the wrong order; objects of two boards are unaffected"
edits = [(B, "          transform = transform * current_trans.inv();\n", "          transform = current_trans.inv() * transform;\n", 0)]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 3);
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0.1, 0.5, 0.2, 0.3, 0.02, 0.05);
  g.board[2] = Rig::T(0.4, -0.3, 0.6, 0.1, 0.35, 0.1);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.2 + 0.05 * f, 0.1 - 0.04 * f, 0.05 * f, -0.2, -0.2, 1.4 + 0.05 * f);
    g.see(0, f, f % 2 ? 0 : 2, P);
    g.see(0, f, 1, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.computeBoardsPairPose();
  C.initInterTransform(C.board_pose_pairs_, C.inter_board_transform_);
  C.initInterBoardsGraph();
  C.init3DObjects();
  EXPECT(C.object_3d_.size() == 1);
  auto o = C.object_3d_.begin()->second;
  cv::Mat ref = g.board[o->ref_board_id_].inv();
  for (int b = 0; b < 3; b++) {
    cv::Mat want = ref * g.board[b];
    EXPECT(Rig::err(o->getBoardPoseMat(b), want) < 5e-2);
  }
  return failures != 0;
}
'''
