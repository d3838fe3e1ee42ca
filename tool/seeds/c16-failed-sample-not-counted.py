prop = "C16"
needs = "a detection whose samples have no P3P solution (coincident or collinear corners)"
breaks = "samples without a solution are not counted as iterations, so the RANSAC never ends when no sample has one"
edits = [(S + "geometrytools.cpp", """    cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot, Trans,
                 false, 2); // CV_P3P = 2
""", """    if (!cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot,
                      Trans, false, 2)) // CV_P3P = 2
      continue;
""")]
cpp = r'''#include "geometrytools.hpp"
#include <iostream>
#include <unistd.h>
int main() {
  alarm(60); // the RANSAC may do 100 iterations
  std::vector<cv::Point3f> s;
  std::vector<cv::Point2f> p;
  for (int i = 0; i < 8; i++) {
    s.emplace_back(0.1f, 0.1f, 0.f);
    p.emplace_back(100.f + 7 * i, 300.f);
  }
  cv::Mat K = (cv::Mat_<double>(3, 3) << 800, 0, 640, 0, 800, 480, 0, 0, 1);
  cv::Mat D = cv::Mat::zeros(1, 5, CV_64F), R = cv::Mat::zeros(3, 1, CV_64F), T = R.clone();
  McCalib::ransacP3PDistortion(s, p, K, D, R, T, 1.f, 100, 0, 0.99, true);
  return 0;
}
'''
