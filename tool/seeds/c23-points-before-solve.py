prop = "C23"
needs = "an object of two boards whose initial relative pose is noisy, so that refineObject moves the second board"
breaks = "the object points are recomputed before the board poses are optimised and keep the old poses"
edits = [("McCalib/src/Object3D.cpp", "  ceres::Solve(options, &problem, &summary);\n", ""),
         ("McCalib/src/Object3D.cpp", "    }\n  }\n}\n\n/**\n * @brief Update the 3D pts of the object after refinement", "    }\n  }\n  ceres::Solve(options, &problem, &summary);\n}\n\n/**\n * @brief Update the 3D pts of the object after refinement")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2);
  auto &C = *g.cal;
  g.cam[0] = cv::Mat::eye(4, 4, CV_64F);
  g.board[0] = cv::Mat::eye(4, 4, CV_64F);
  g.board[1] = Rig::T(0.05, 0.3, -0.1, 0.35, 0.02, 0.05);
  g.setIntrinsics();
  for (int f = 0; f < 4; f++) {
    cv::Mat body = Rig::T(0.1 * f - 0.2, 0.15 - 0.1 * f, 0.05 * f, -0.3, -0.1, 1.5 + 0.1 * f);
    for (int b = 0; b < 2; b++)
      g.see(0, f, b, body);
  }
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  EXPECT(C.object_3d_.size() == 1);
  auto &o = C.object_3d_.begin()->second;
  // disturb the relative pose, then refine
  auto agree = [&]() {
    for (int b = 0; b < 2; b++) {
      auto pts = McCalib::transform3DPts(C.boards_3d_[b]->pts_3d_, o->getBoardRotVec(b), o->getBoardTransVec(b));
      for (std::size_t i = 0; i < pts.size(); i++)
        if (cv::norm(pts[i] - o->pts_3d_[o->pts_board_2_obj_[{b, int(i)}]]) > 1e-5)
          return false;
    }
    return true;
  };
  EXPECT(agree());
  cv::Mat moved = o->getBoardPoseMat(1) * Rig::T(0.02, -0.03, 0.01, 0.01, 0.02, -0.01);
  o->setBoardPoseMat(1, moved);
  o->updateObjectPts();
  EXPECT(agree());
  C.estimatePoseAllObjects();
  o->refineObject(20);
  EXPECT(agree());
  return failures != 0;
}
'''
