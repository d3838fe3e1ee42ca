prop = "C03"
needs = "a camera with the Kannala (fisheye) model whose fourth distortion coefficient is not zero"
breaks = "the last fisheye distortion coefficient is stored one slot too far and read back as zero"
edits = [(S + "Camera.cpp", """    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx] = distortion_vector.at<double>(distIdx);
    }
""", """    // radial coefficients keep the slots they have in the Brown model
    const std::size_t slots[4] = {4u, 5u, 6u, 8u};
    for (std::size_t distIdx = 0u; distIdx < 4u; ++distIdx) {
      intrinsics_[slots[distIdx]] = distortion_vector.at<double>(distIdx);
    }
""")]
cpp = r'''#include "rig.hpp"
int main() {
  McCalib::Camera c(0, 1);
  cv::Mat K = (cv::Mat_<double>(3, 3) << 600, 0, 320, 0, 610, 240, 0, 0, 1);
  cv::Mat D = (cv::Mat_<double>(1, 4) << 0.1, -0.02, 0.003, -0.0004), K2, D2;
  c.setIntrinsics(K, D);
  c.getIntrinsics(K2, D2);
  EXPECT(cv::norm(K - K2) == 0);
  EXPECT(cv::norm(D - D2) == 0);
  return failures != 0;
}
'''
