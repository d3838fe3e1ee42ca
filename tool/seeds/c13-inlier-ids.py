prop = "C13"
needs = "a board detection with an outlier corner that is not the last one; without outliers the lists stay in step"
breaks = "after outlier removal the corner ids are the first ones of the old list instead of those of the inliers"
edits = [(S + "BoardObs.cpp", """      new_charuco_id[i] = charuco_id_[inliers.at<int>(i)];
    }
    pts_2d_ = new_pts_vec;
    charuco_id_ = new_charuco_id;
""", """    }
    std::copy_n(charuco_id_.begin(), new_charuco_id.size(),
                new_charuco_id.begin());
    pts_2d_ = new_pts_vec;
    charuco_id_ = new_charuco_id;
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 1);
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  cv::Mat P = Rig::T(0.2, 0.3, 0.1, -0.1, -0.1, 0.8);
  g.see(0, 0, 0, P);
  auto &C = *g.cal;
  auto o = C.board_observations_.begin()->second;
  std::map<int, cv::Point2f> truth;
  for (std::size_t i = 0; i < o->pts_2d_.size(); i++)
    truth[o->charuco_id_[i]] = o->pts_2d_[i];
  const std::size_t n = o->pts_2d_.size();
  o->pts_2d_[3].x += 80;
  C.estimatePoseAllBoards();
  EXPECT(o->pts_2d_.size() == n - 1);
  EXPECT(o->charuco_id_.size() == o->pts_2d_.size());
  for (std::size_t i = 0; i < o->pts_2d_.size(); i++)
    EXPECT(cv::norm(truth[o->charuco_id_[i]] - o->pts_2d_[i]) < 1e-3);
  return failures != 0;
}
'''
