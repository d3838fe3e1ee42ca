prop = "C06"
needs = "a rig of a single camera whose model is given in distortion_per_camera"
breaks = "a distortion_per_camera list of one entry is silently replaced by the common distortion_model"
edits = [(B, """  if (distortion_per_camera.size() == 0)
""", """  if (distortion_per_camera.size() <= 1)
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig a, b;
  a.init(1, 1, "", {1});
  EXPECT(a.cal->cams_[0]->distortion_model_ == 1);
  b.init(2, 1, "", {1, 0});
  EXPECT(b.cal->cams_[0]->distortion_model_ == 1);
  EXPECT(b.cal->cams_[1]->distortion_model_ == 0);
  return failures != 0;
}
'''
