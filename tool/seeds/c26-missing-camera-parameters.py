prop = "C26"
needs = "a camera-parameter file that is configured but does not exist"
breaks = "camera parameters are read from a file that could not be opened"
edits = [(S + "McCalib.cpp", """      LOG_FATAL << "Camera parameters path '" << cam_params_path_
                << "' doesn't exist.";
      return;
    }
    fs.open(cam_params_path_, cv::FileStorage::READ);""",
          """      LOG_FATAL << "Camera parameters path '" << cam_params_path_
                << "' doesn't exist.";
    }
    fs.open(cam_params_path_, cv::FileStorage::READ);""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 1, "cam_params_path: \"/nonexistent/cameras.yml\"\n");
  g.setIntrinsics();
  try {
    g.cal->initializeCalibrationAllCam();
  } catch (const std::exception &) {
    return 1;
  }
  for (int c = 0; c < 2; c++)
    EXPECT(g.err(g.cal->cams_[c]->getCameraMat(), g.K[c]) < 1e-9);
  return failures != 0;
}
'''
