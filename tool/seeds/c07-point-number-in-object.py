prop = "C07"
needs = "an object of more than one board; with one board the numbers agree"
breaks = "the last row of the saved object holds the number of the point in the object instead of its number on its board"
edits = [(B, """          pts_mat.at<float>(4, obj_pts_count) =
              static_cast<float>(board_id_pts_id.second);
""", """          pts_mat.at<float>(4, obj_pts_count) =
              static_cast<float>(obj_pts_count);
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2, "fix_intrinsic: 1\n");
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0, 0, 0, 0.3, 0, 0);
  for (int f = 0; f < 8; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.2, -0.1, 1.2 + 0.05 * f);
    g.see(0, f, 0, P);
    g.see(0, f, 1, P);
  }
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  EXPECT(C.object_3d_.size() == 1);
  auto &o = *C.object_3d_.begin()->second;
  EXPECT(o.boards_.size() == 2);
  C.save_path_ = g.dir;
  C.save3DObj();
  cv::FileStorage fs((g.dir / "calibrated_objects_data.yml").string(),
                     cv::FileStorage::READ);
  cv::Mat m;
  fs["object_" + std::to_string(o.obj_id_)]["points"] >> m;
  EXPECT(m.cols == (int)o.pts_3d_.size());
  for (int i = 0; i < m.cols; i++) {
    std::pair<int, int> key((int)m.at<float>(3, i), (int)m.at<float>(4, i));
    EXPECT(o.pts_board_2_obj_.count(key) == 1);
    if (o.pts_board_2_obj_.count(key) == 1) {
      cv::Point3f p = o.pts_3d_[o.pts_board_2_obj_[key]];
      EXPECT(std::abs(p.x - m.at<float>(0, i)) < 1e-6);
      EXPECT(std::abs(p.y - m.at<float>(1, i)) < 1e-6);
    }
  }
  return failures != 0;
}
'''
