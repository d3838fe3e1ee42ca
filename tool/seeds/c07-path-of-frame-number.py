prop = "C07"
needs = "keypoints loaded from a file in which the detections of a camera are not one per frame from frame 0 on: a frame without, or with two boards"
breaks = "the path of the image is taken from the entry at the number of the frame instead of the entry of the detection"
edits = [(B, """                     charuco_idxs[i], frame_paths[i]);
""", """                     charuco_idxs[i],
                     frame_paths[std::min<std::size_t>(frame_idxs[i],
                                                       frame_paths.size() - 1)]);
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2, "fix_intrinsic: 1\n");
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[1] = Rig::T(0, 0, 0, 0.5, 0, 0);
  for (int f = 0; f < 6; f++) {
    cv::Mat P = Rig::T(0.05 * f, 0.1, 0.02 * f, -0.2, -0.1, 1.2 + 0.05 * f);
    g.see(0, f, 0, P);
    if (f % 2)
      g.see(0, f, 1, P);
  }
  auto &C = *g.cal;
  for (auto &f : C.frames_)
    f.second->frame_path_[0] = "im_" + std::to_string(f.first) + ".png";
  C.save_path_ = g.dir;
  C.saveDetectedKeypoints();
  Rig h;
  h.init(1, 2, "fix_intrinsic: 1\n");
  auto &D = *h.cal;
  D.keypoints_path_ = g.dir / "detected_keypoints_data.yml";
  D.loadDetectedKeypoints();
  EXPECT(D.frames_.size() == C.frames_.size());
  EXPECT(D.board_observations_.size() == C.board_observations_.size());
  for (auto &f : C.frames_)
    EXPECT(D.frames_[f.first]->frame_path_[0] == f.second->frame_path_[0]);
  return failures != 0;
}
'''
