prop = "C18"
needs = "a boards_index list which is not in ascending order"
breaks = "the pattern of the highest listed board is not built: the configuration is rejected"
edits = [(S + "McCalib.cpp", """    max_board_idx = *max_element(boards_index.begin(), boards_index.end());""",
          """    max_board_idx = boards_index.back();""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  try {
    g.init(1, 4,
           "boards_index: [3,1]\n"
           "number_x_square_per_board: [5,6,7,8]\n"
           "number_y_square_per_board: [5,4,6,7]\n"
           "square_size_per_board: [0.1,0.2,0.3,0.4]\n");
  } catch (const std::exception &) {
    return 1;
  }
  const int listed[2] = {3, 1}, nx[4] = {5, 6, 7, 8}, ny[4] = {5, 4, 6, 7};
  EXPECT(g.cal->boards_3d_.size() == 2u);
  for (int b = 0; b < 2; b++) {
    const auto &board = *g.cal->boards_3d_[b];
    int first = 0;
    for (int j = 0; j < listed[b]; j++)
      first += nx[j] * ny[j] / 2;
    EXPECT(board.charuco_board_->ids.front() == first);
    EXPECT(int(board.charuco_board_->ids.size()) == nx[listed[b]] * ny[listed[b]] / 2);
    EXPECT(board.nb_pts_ == (nx[listed[b]] - 1) * (ny[listed[b]] - 1));
    EXPECT(int(board.pts_3d_.size()) == board.nb_pts_);
    EXPECT(std::abs(board.square_size_ - 0.1 * (listed[b] + 1)) < 1e-6);
  }
  return failures != 0;
}
'''
