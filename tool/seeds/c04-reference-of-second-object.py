prop = "C04"
needs = "at least two objects, so that the id of an object differs from the id of its reference board; joint refinement of groups and objects only"
breaks = "the joint refinement of cameras and objects compares boards with the id of the object instead of its reference board: the reference board of the second object moves"
edits = [(S + "CameraGroup.cpp", """int ref_board_id = object_3d_ptr->ref_board_id_;""", """int ref_board_id = object_3d_ptr->obj_id_;""", 0)]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 4);
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = g.board[2] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = g.board[3] = Rig::T(0.2, 0.3, 0, 0.3, 0.02, 0.05);
  g.setIntrinsics();
  for (int f = 0; f < 12; f++) {
    cv::Mat P = Rig::T(0.3 + 0.05 * f, -0.2 + 0.04 * f, 0.05 * f, -0.2, -0.1, 1.2 + 0.03 * f);
    int b = f % 2 ? 2 : 0; // the two objects are never seen together
    g.see(0, f, b, P);
    g.see(0, f, b + 1, P);
  }
  g.cal->estimatePoseAllBoards();
  g.cal->calibrate3DObjects();
  g.cal->calibrateCameraGroup();
  g.cal->estimatePoseAllObjects();
  g.cal->computeAllObjPoseInCameraGroup();
  EXPECT(g.cal->object_3d_.size() == 2);
  for (auto &o : g.cal->cams_group_obs_)
    for (auto &p : o.second->object_pose_)
      p.second[3] += 0.01; // something to refine
  g.cal->refineAllCameraGroupAndObjects();
  for (auto &o : g.cal->object_3d_)
    EXPECT(Rig::err(o.second->getBoardPoseMat(o.second->ref_board_id_), cv::Mat::eye(4, 4, CV_64F)) < 1e-9);
  return failures != 0;
}
'''
