prop = "C18"
needs = "three boards or more with different numbers of markers"
breaks = "marker numbers of different boards overlap"
edits = [(S + "utilities.cpp", """charuco_boards[i - 1]->ids.size() + offset_count;""",
          """charuco_boards[0]->ids.size() + offset_count;""")]
cpp = r'''#include "rig.hpp"
#include "utilities.hpp"
int main() {
  const auto boards = McCalib::createCharucoBoards(
      4, {5, 9, 6, 4}, {5, 7, 4, 3}, 0.04f, 0.03f,
      cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000));
  int next = 0;
  for (int b = 0; b < 4; b++)
    for (int id : boards.at(b)->ids)
      EXPECT(id == next++);
  return failures != 0;
}
'''
