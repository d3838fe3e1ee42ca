prop = "C18"
needs = "a boards_index list which leaves out a board, and square sizes given per board"
breaks = "a board gets the square size of another board"
edits = [(S + "Board.cpp", """    square_size_ = square_size_per_board[boards_index[board_idx]];""",
          """    square_size_ = square_size_per_board[board_idx];""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 3,
         "boards_index: [1,2]\n"
         "square_size_per_board: [0.1,0.2,0.3]\n");
  for (int b = 0; b < 2; b++) {
    const auto &board = *g.cal->boards_3d_[b];
    EXPECT(std::abs(board.square_size_ - 0.1 * (b + 2)) < 1e-6);
    EXPECT(cv::norm(board.pts_3d_[1] - cv::Point3f(0.1f * (b + 2), 0, 0)) < 1e-5);
  }
  return failures != 0;
}
'''
