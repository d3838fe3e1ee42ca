prop = "C26"
needs = "detections loaded from a keypoint file whose images are no longer there, and result images switched on"
breaks = "the calibration is aborted when it writes an image it could not read"
edits = [(S + "McCalib.cpp", """    if (!image.empty()) {
      // display image
      // cv::imshow("detection results", image);""",
          """    if (!im_path.empty()) {
      // display image
      // cv::imshow("detection results", image);""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 1);
  g.setIntrinsics();
  g.cal->save_path_ = g.dir / "out";
  std::filesystem::create_directories(g.cal->save_path_);
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  for (int f = 0; f < 3; f++) {
    g.see(0, f, 0, Rig::T(0.2, 0.3, 0.1, -0.1, -0.1, 0.8));
    g.cal->frames_[f]->frame_path_[0] = (g.dir / "gone.png").string();
  }
  try {
    g.cal->saveDetectionImagesAllCam();
  } catch (const std::exception &e) {
    std::cout << e.what() << std::endl;
    return 1;
  }
  return failures != 0;
}
'''
