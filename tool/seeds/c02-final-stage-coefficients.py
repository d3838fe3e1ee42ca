prop = "C02"
needs = "a perspective camera with non-zero tangential or third radial coefficient, in the last refinement stage only"
breaks = "the joint refinement with intrinsics reads the distortion coefficients in another order than they are stored in"
edits = [("McCalib/include/OptimizationCeres.h", """    T k3 = cam_int[8];
    T p1 = cam_int[6];
    T p2 = cam_int[7];
""", """    T k3 = cam_int[6];
    T p1 = cam_int[7];
    T p2 = cam_int[8];
""")]
cpp = r'''#include "rig.hpp"
#include "OptimizationCeres.h"
int main() {
  cv::Mat K = (cv::Mat_<double>(3, 3) << 900, 0, 640, 0, 910, 480, 0, 0, 1);
  std::vector<double> D = {-0.21, 0.07, 0.004, -0.003, 0.02}; // k1 k2 p1 p2 k3
  // as Camera stores them: fx fy u0 v0 k1 k2 p1 p2 k3
  double in[9] = {900, 910, 640, 480, D[0], D[1], D[2], D[3], D[4]};
  double cam[6] = {0.05, -0.1, 0.02, 0.1, 0.05, 0.02};
  double obj[6] = {0.2, 0.1, -0.3, -0.1, 0.05, 0.8};
  double brd[6] = {-0.1, 0.3, 0.2, 0.05, -0.02, 0.1};
  auto mat = [](const double *p) { return Rig::T(p[0], p[1], p[2], p[3], p[4], p[5]); };
  cv::Mat P = mat(cam) * mat(obj) * mat(brd), r, t;
  McCalib::Proj2RT(P, r, t);
  t = t.clone();
  for (int i = 0; i < 9; i++) {
    cv::Point3d X(0.1 * (i % 3) - 0.1, 0.1 * (i / 3) - 0.1, 0.02 * i);
    std::vector<cv::Point3d> xs = {X};
    std::vector<cv::Point2d> q;
    cv::projectPoints(xs, r, t, K, D, q);
    double res[2];
    ReprojectionError_CameraGroupAndObjectRefAndIntrinsics f(
        q[0].x, q[0].y, X.x, X.y, X.z, true, true, 0);
    f(cam, obj, brd, in, res);
    EXPECT(std::abs(res[0]) < 1e-6 && std::abs(res[1]) < 1e-6);
  }
  return failures != 0;
}
'''
