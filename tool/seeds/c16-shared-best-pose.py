prop = "C16"
needs = "a sample without outliers that is not the last one drawn: points with outliers, result used without the final refinement"
breaks = "the best pose shares its data with the pose of the current sample: the RANSAC returns the pose of the last sample instead of the best one"
edits = [(S + "geometrytools.cpp", """      Trans.copyTo(BestT);
      Rot.copyTo(BestR);

      // with""", """      BestT = Trans;
      BestR = Rot;

      // with""")]
cpp = r'''#include "geometrytools.hpp"
#include <cstdio>
int main() {
  cv::Mat K = (cv::Mat_<double>(3, 3) << 800, 0, 640, 0, 800, 360, 0, 0, 1);
  cv::Mat D = cv::Mat::zeros(1, 5, CV_64F);
  cv::RNG rng(7);
  int failures = 0;
  for (int run = 0; run < 5; run++) {
    std::vector<cv::Point3f> p3;
    for (int i = 0; i < 30; i++)
      p3.emplace_back(rng.uniform(-1.f, 1.f), rng.uniform(-1.f, 1.f),
                      rng.uniform(-1.f, 1.f));
    cv::Mat r = (cv::Mat_<double>(1, 3) << 0.2, -0.1, 0.3);
    cv::Mat t = (cv::Mat_<double>(1, 3) << 0.1, 0.2, 5);
    std::vector<cv::Point2f> p2, q;
    cv::projectPoints(p3, r, t, K, D, p2);
    for (int i = 0; i < 12; i++)
      p2[i] = {rng.uniform(0.f, 1280.f), rng.uniform(0.f, 720.f)};
    cv::Mat R, T;
    cv::Mat in = McCalib::ransacP3PDistortion(p3, p2, K, D, R, T, 3.f, 400,
                                              0, 0.9999, false);
    cv::projectPoints(p3, R, T, K, D, q);
    double worst = 0;
    for (int i = 0; i < in.rows; i++)
      worst = std::max(worst, cv::norm(q[in.at<int>(i)] - p2[in.at<int>(i)]));
    if (in.rows < 10 || worst > 4) {
      std::printf("%d inliers, %f pixels from the returned pose\n", in.rows,
                  worst);
      failures++;
    }
  }
  return failures != 0;
}
'''
