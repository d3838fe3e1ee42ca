prop = "C08"
needs = "two workers that find a board at the same moment: the second one records its detection although the first one holds the lock"
breaks = "the shared tables of observations are modified by several detection workers at once"
edits = [(B, "          std::unique_lock<std::mutex> lock(insert_new_board_lock_);\n",
          "          std::unique_lock<std::mutex> lock(insert_new_board_lock_,\n                                            std::try_to_lock);\n")]
cpp = r'''#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <boost/asio.hpp>
#include <boost/log/trivial.hpp>
#include <opencv2/opencv.hpp>
#include <opencv2/aruco/charuco.hpp>
#define private public
#include "McCalib.hpp"
#undef private
#include "rig.hpp"
// while somebody holds the lock, no worker may record anything
int main() {
  Rig g;
  g.init(1, 1, "min_perc_pts: 0.4\n");
  auto &C = *g.cal;
  cv::Mat board, image(700, 900, CV_8UC1, cv::Scalar(255));
  C.boards_3d_[0]->charuco_board_->draw(cv::Size(600, 500), board, 0, 1);
  board.copyTo(image(cv::Rect(100, 100, 600, 500)));
  std::vector<cv::String> files;
  for (int i = 0; i < 4; i++) {
    files.push_back((g.dir / ("im" + std::to_string(i) + ".png")).string());
    cv::imwrite(files.back(), image);
  }
  C.insert_new_board_lock_.lock();
  std::thread detection([&] { C.detectBoardsWithCamera(files, 0); });
  for (int i = 0; i < 120 && C.board_observations_.empty(); i++)
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
  EXPECT(C.board_observations_.empty());
  C.insert_new_board_lock_.unlock();
  detection.join();
  EXPECT(C.board_observations_.size() == files.size());
  return failures != 0;
}
'''
