prop = "C09"
needs = "boards with different numbers of corners, and a view in which only a small part of the larger board is visible"
breaks = "the number of detected corners is compared with the configured fraction of the corners of the first board instead of the detected one"
edits = [(B, "std::round(min_perc_pts_ * boards_3d_[i]->nb_pts_)", "std::round(min_perc_pts_ * boards_3d_[0]->nb_pts_)")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2, "number_x_square_per_board: [4, 8]\nnumber_y_square_per_board: [3, 6]\n"
               "resolution_x_per_board: [400, 800]\nresolution_y_per_board: [300, 600]\n"
               "square_size_per_board: [0.05, 0.05]\nmin_perc_pts: 0.5\n");
  cv::Mat board;
  g.cal->boards_3d_[1]->charuco_board_->draw(cv::Size(800, 600), board, 0, 1);
  cv::Mat image(800, 1000, CV_8UC1, cv::Scalar(255));
  board.copyTo(image(cv::Rect(100, 100, 800, 600)));
  cv::Mat part = image.clone();
  part(cv::Rect(400, 0, 600, 800)) = cv::Scalar(255); // three of eight columns are left
  std::vector<cv::String> files;
  for (int i = 0; i < 2; i++) {
    files.push_back((g.dir / ("im" + std::to_string(i) + ".png")).string());
    cv::imwrite(files.back(), i ? part : image);
  }
  g.cal->detectBoardsWithCamera(files, 0);
  bool whole = false, piece = false;
  for (auto &b : g.cal->board_observations_) {
    whole = whole || b.second->frame_id_ == 0;
    piece = piece || b.second->frame_id_ == 1;
    EXPECT(b.second->board_id_ == 1);
    EXPECT(b.second->pts_2d_.size() > 17);
  }
  EXPECT(whole);
  EXPECT(!piece);
  return failures != 0;
}
'''
