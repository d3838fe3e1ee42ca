prop = "C27"
needs = "a camera group that sees several objects in a frame, the one selected for the pair of groups not at the same position as the other group's object"
breaks = "the pose of the second group is taken of another object than the one selected, so the pairs mix objects"
edits = [(B, "      int index_objobs_2 = it2 - cam_group_obs_obj2.begin();", "      int index_objobs_2 = it1 - cam_group_obs_obj1.begin();")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 3, "fix_intrinsic: 1\nhe_approach: 1\n");
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.cam[1] = Rig::T(0.1, 2.6, 0.2, 0.3, 0.1, -0.2);
  g.board[0] = Rig::T(0, 0, 0, -0.1, -0.1, 1.2);
  cv::Mat b1 = g.cam[1].inv() * Rig::T(0, 0.1, 0, -0.3, -0.1, 1.3);
  cv::Mat b2 = g.cam[1].inv() * Rig::T(0.2, 0, 0.3, 0.1, -0.1, 1.4);
  g.board[1] = b1;
  g.board[2] = b2;
  for (int f = 0; f < 12; f++) {
    cv::Mat P = Rig::T(0.12 * std::sin(1.0 * f), 0.15 * std::cos(1.7 * f), 0.25 * std::sin(2.3 * f + 1), 0.05 * std::cos(0.9 * f), 0.06 * std::sin(1.3 * f), 0.07 * std::cos(2.1 * f));
    g.see(0, f, 0, P);
    if (f < 7)
      g.see(1, f, 1, P);
    g.see(1, f, 2, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  // one object per board
  C.initInterBoardsGraph();
  C.init3DObjects();
  C.initAll3DObjectObs();
  C.estimatePoseAllObjects();
  EXPECT(C.object_3d_.size() == 3);
  C.computeCamerasPairPose();
  C.initInterTransform(C.camera_pose_pairs_, C.inter_camera_transform_);
  C.initInterCamerasGraph();
  C.initCameraGroup();
  C.initAllCameraGroupObs();
  C.computeAllObjPoseInCameraGroup();
  EXPECT(C.cam_group_.size() == 2);
  C.findPairObjectForNonOverlap();
  EXPECT((C.no_overlap_object_pair_[{0, 1}] == std::make_pair(0, 2)));
  C.findPoseNoOverlapAllCamGroup();
  cv::Mat got = C.no_overlap_camgroup_pair_pose_[{0, 1}];
  EXPECT(!got.empty());
  if (!got.empty()) {
    cv::Mat inv = got.inv();
    std::cout << got << g.cam[1] << std::endl;
    EXPECT(std::min(Rig::err(got, g.cam[1]), Rig::err(inv, g.cam[1])) < 0.02);
  }
  EXPECT((C.no_overlap__camgroup_pair_common_cnt_[{0, 1}] == 12));
  return failures != 0;
}
'''
