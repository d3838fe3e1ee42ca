prop = "C08"
needs = "no more images than threads: the pool is then destroyed while its tasks are still waiting"
breaks = "detection of a camera returns although posted images were not processed"
edits = [(B, """  pool.join();
}
""", """  if (num_frames > static_cast<std::size_t>(num_threads))
    pool.join();
}
""")]
cpp = r'''#include <thread>
#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 1, "min_perc_pts: 0.4\n");
  auto &C = *g.cal;
  cv::Mat board, image(1400, 1800, CV_8UC1, cv::Scalar(255));
  C.boards_3d_[0]->charuco_board_->draw(cv::Size(1200, 1000), board, 0, 1);
  board.copyTo(image(cv::Rect(200, 200, 1200, 1000)));
  const unsigned n = std::max(1u, std::thread::hardware_concurrency());
  std::vector<cv::String> files;
  for (unsigned i = 0; i < n; i++) {
    files.push_back((g.dir / ("im" + std::to_string(i) + ".png")).string());
    cv::imwrite(files.back(), image);
  }
  for (int k = 0; k < 10; k++) {
    C.board_observations_.clear();
    C.detectBoardsWithCamera(files, 0);
    EXPECT(C.board_observations_.size() == files.size());
  }
  return failures != 0;
}
'''
