prop = "C04"
needs = "a view of an object in which only one of its boards, not the reference board, is visible"
breaks = "in views of a single board the relative pose of that board is ignored although it is not the reference board"
edits = [(S + "Object3D.cpp", """              if (ref_board_id_ == board_obs_ptr->board_id_)
                refine_board = false;
""", """              if (ref_board_id_ == board_obs_ptr->board_id_ ||
                  current_object_obs->board_id_.size() == 1)
                refine_board = false;
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2);
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0.2, 0.3, 0, 0.3, 0.02, 0.05);
  g.setIntrinsics();
  std::vector<cv::Mat> pose;
  for (int f = 0; f < 8; f++) {
    pose.push_back(Rig::T(0.3 + 0.05 * f, -0.2 + 0.04 * f, 0.05 * f, -0.2, -0.1, 1.2 + 0.03 * f));
    if (f < 4)
      g.see(0, f, 0, pose[f]);
    g.see(0, f, 1, pose[f]); // the last frames show only the second board
  }
  g.cal->estimatePoseAllBoards();
  g.cal->calibrate3DObjects();
  EXPECT(g.cal->object_3d_.size() == 1);
  EXPECT(Rig::err(g.cal->object_3d_[0]->getBoardPoseMat(0), cv::Mat::eye(4, 4, CV_64F)) < 1e-9);
  EXPECT(Rig::err(g.cal->object_3d_[0]->getBoardPoseMat(1), g.board[1]) < 1e-3);
  for (auto &o : g.cal->object_observations_)
    EXPECT(Rig::err(o.second->getPoseMat(), pose[o.second->frame_id_]) < 1e-3);
  return failures != 0;
}
'''
