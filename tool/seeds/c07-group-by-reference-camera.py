prop = "C07"
needs = "several camera groups, one of which has a reference camera whose number is not the number of the group"
breaks = "the saved camera file names the reference camera of the group where the number of the group belongs"
edits = [(B, """        fs << "camera_group" << it_cam_group.first;
""", """        fs << "camera_group" << cur_cam_group->id_ref_cam_;
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(4, 2, "fix_intrinsic: 1\n");
  g.setIntrinsics();
  for (int c = 0; c < 4; c++)
    g.cam[c] = Rig::T(0, 0.05 * c, 0, 0.1 * c, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0, 0, 0, 0.5, 0, 0);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.2, -0.1, 1.2 + 0.05 * f);
    g.see(0, f, 0, P);
    g.see(1, f, 0, P);
    g.see(2, f, 1, P);
    g.see(3, f, 1, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  C.estimatePoseAllObjects();
  C.computeAllObjPoseInCameraGroup();
  EXPECT(C.cam_group_.size() == 2);
  C.save_path_ = g.dir;
  C.saveCamerasParams();
  cv::FileStorage fs((g.dir / "calibrated_cameras_data.yml").string(),
                     cv::FileStorage::READ);
  for (auto &cg : C.cam_group_)
    for (auto &c : cg.second->cameras_) {
      cv::FileNode n = fs["camera_" + std::to_string(c.first)];
      EXPECT(!n.empty());
      EXPECT((int)n["camera_group"] == cg.first);
    }
  return failures != 0;
}
'''
