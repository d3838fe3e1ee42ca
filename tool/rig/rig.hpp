// Synthetic rig: builds a Calibration from a scratch configuration and feeds it
// exact board detections (no images, nothing outside a scratch directory).
#pragma once
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <unistd.h>

struct Rig {
  std::filesystem::path dir;
  std::map<int, cv::Mat> cam;   // cam <- world
  std::map<int, cv::Mat> board; // board -> body (per body)
  std::map<int, int> body;      // board -> body id
  std::map<int, cv::Mat> K;
  std::map<int, std::vector<double>> D;
  std::unique_ptr<McCalib::Calibration> cal;
  int W = 1280, H = 960;

  static cv::Mat T(double rx, double ry, double rz, double x, double y,
                   double z) {
    cv::Mat r = (cv::Mat_<double>(3, 1) << rx, ry, rz);
    cv::Mat t = (cv::Mat_<double>(3, 1) << x, y, z);
    return McCalib::RVecT2Proj(r, t);
  }
  ~Rig() {
    cal.reset();
    if (!dir.empty())
      std::filesystem::remove_all(dir);
  }
  void scratch() {
    if (dir.empty()) {
      char tmpl[] = "/tmp/rigXXXXXX";
      dir = mkdtemp(tmpl);
    }
  }
  void init(int ncam, int nboard, const std::string &extra = "",
            const std::vector<int> &models = {}) {
    scratch();
    std::ofstream f(dir / "config.yml");
    f << "%YAML:1.0\n---\n";
    f << "number_x_square: 6\nnumber_y_square: 5\nresolution_x: 500\n"
         "resolution_y: 500\nlength_square: 0.04\nlength_marker: 0.03\n";
    f << "number_board: " << nboard << "\nsquare_size: 0.05\n";
    if (extra.find("boards_index") == std::string::npos)
      f << "boards_index: []\n";
    for (const char *k : {"number_x_square_per_board", "number_y_square_per_board",
                          "resolution_x_per_board", "resolution_y_per_board",
                          "square_size_per_board"})
      if (extra.find(k) == std::string::npos)
        f << k << ": []\n";
    f << "distortion_model: 0\n";
    f << "distortion_per_camera : [";
    for (std::size_t i = 0; i < models.size(); i++)
      f << (i ? "," : "") << models[i];
    f << "]\n";
    f << "number_camera: " << ncam << "\n";
    if (extra.find("refine_corner") == std::string::npos)
      f << "refine_corner: 1\n";
    if (extra.find("min_perc_pts") == std::string::npos)
      f << "min_perc_pts: 0.4\n";
    if (extra.find("cam_params_path") == std::string::npos)
      f << "cam_params_path: \"None\"\n";
    if (extra.find("ransac_threshold") == std::string::npos)
      f << "ransac_threshold: 1\n";
    if (extra.find("number_iterations") == std::string::npos)
      f << "number_iterations: 400\n";
    if (extra.find("fix_intrinsic") == std::string::npos)
      f << "fix_intrinsic: 0\n";
    if (extra.find("he_approach") == std::string::npos)
      f << "he_approach: 0\n";
    if (extra.find("keypoints_path") == std::string::npos)
      f << "keypoints_path: \"None\"\n";
    f << "root_path: \"" << dir.string() << "/\"\ncam_prefix: \"Cam_\"\n";
    f << "save_path: \"" << dir.string() << "/out/\"\n";
    f << "save_detection: 0\nsave_reprojection: 0\n"
         "camera_params_file_name: \"\"\n";
    f << extra;
    f.close();
    cal = std::make_unique<McCalib::Calibration>(dir / "config.yml");
    for (int c = 0; c < ncam; c++) {
      K[c] = (cv::Mat_<double>(3, 3) << 900 + 5 * c, 0, 640 + c, 0, 905 + 5 * c,
              480 - c, 0, 0, 1);
      D[c] = {0.0, 0.0, 0.0, 0.0, 0.0};
      cal->cams_[c]->im_cols_ = W;
      cal->cams_[c]->im_rows_ = H;
    }
  }
  // store the true intrinsics in the cameras
  void setIntrinsics() {
    for (auto &it : K) {
      cv::Mat d(1, (int)D[it.first].size(), CV_64F);
      for (int i = 0; i < d.cols; i++)
        d.at<double>(i) = D[it.first][i];
      cal->cams_[it.first]->setIntrinsics(it.second, d);
    }
  }
  // pose cam <- board at a frame, given the pose world <- body
  cv::Mat camFromBoard(int c, int b, const cv::Mat &body_pose) {
    return cam[c] * body_pose * board[b];
  }
  // insert the detection of board b by camera c; keep(i) selects corners
  bool see(int c, int frame, int b, const cv::Mat &body_pose,
           std::function<bool(int)> keep = nullptr, bool force = true) {
    cv::Mat P = camFromBoard(c, b, body_pose), r, t;
    McCalib::Proj2RT(P, r, t);
    t = t.clone();
    std::vector<cv::Point2f> px;
    const auto &p3 = cal->boards_3d_[b]->pts_3d_;
    if (cal->cams_[c]->distortion_model_ == 0)
      cv::projectPoints(p3, r, t, K[c], D[c], px);
    else {
      std::vector<double> d4(D[c].begin(), D[c].begin() + 4);
      cv::fisheye::projectPoints(p3, px, r, t, K[c], d4);
    }
    std::vector<cv::Point2f> q;
    std::vector<int> id;
    for (std::size_t i = 0; i < p3.size(); i++) {
      if (keep && !keep((int)i))
        continue;
      q.push_back(px[i]);
      id.push_back((int)i);
    }
    (void)force;
    cal->insertNewBoard(c, frame, b, q, id, "");
    return true;
  }
  static double err(const cv::Mat &A, const cv::Mat &B) {
    return cv::norm(A - B);
  }
};

static int failures = 0;
#define EXPECT(c)                                                              \
  do {                                                                         \
    if (!(c)) {                                                                \
      std::cout << "FAILED " << __LINE__ << ": " #c << std::endl;              \
      failures++;                                                              \
    }                                                                          \
  } while (0)
