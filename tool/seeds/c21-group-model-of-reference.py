prop = "C21"
needs = "a camera group that mixes a perspective and a fisheye camera; groups of one model are processed correctly"
breaks = "the reprojection error of every camera of a group is computed with the camera model of the group's reference camera"
edits = [(B, """                    cam_ptr->getDistortionVectorVector(),
                    cam_ptr->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                total_avg""", """                    cam_ptr->getDistortionVectorVector(),
                    cams_[it.second->id_ref_cam_]->distortion_model_,
                    repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                total_avg""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 1, "fix_intrinsic: 1\n", {0, 1});
  g.D[1] = {0.05, 0.02, 0.01, 0.003, 0.0};
  g.setIntrinsics();
  for (int i = 0; i < 4; i++)
    g.cal->cams_[1]->intrinsics_[4 + i] = g.D[1][i];
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.cam[1] = Rig::T(0, 0.1, 0, 0.2, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.2, -0.1, 1.0 + 0.05 * f);
    g.see(0, f, 0, P);
    g.see(1, f, 0, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  C.estimatePoseAllObjects();
  C.computeAllObjPoseInCameraGroup();
  EXPECT(C.cam_group_.size() == 1);
  EXPECT(C.computeAvgReprojectionError() < 0.5);
  return failures != 0;
}
'''
