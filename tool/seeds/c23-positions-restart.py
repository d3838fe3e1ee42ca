prop = "C23"
needs = "two or more objects joined into one by mergeObjects, so that points of a second object are entered"
breaks = "the position counter starts again with every object merged, so the index map sends the boards of the second object to the points of the first"
edits = [(B, "    int pts_count = 0;\n    // Iterate through the objects and add all of them individually in the new\n    // object\n    for (const auto &it_object : object_3d_) {\n",
          "    // Iterate through the objects and add all of them individually in the new\n    // object\n    for (const auto &it_object : object_3d_) {\n      int pts_count = 0;\n")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 3);
  auto &C = *g.cal;
  cv::Mat eye = cv::Mat::eye(4, 4, CV_64F);
  cv::Mat b21 = Rig::T(-0.3, 0.4, 0.1, 0.2, 0.5, 0.0); // board 1 <- board 2
  cv::Mat o01 = Rig::T(0.2, -0.5, 0.3, 1.2, 0.1, 0.4); // object 1 <- object 0
  auto a = std::make_shared<McCalib::Object3D>(1, 0, 0, C.boards_3d_[0]->color_);
  a->insertBoardInObject(C.boards_3d_[0]);
  a->setBoardPoseMat(0, eye);
  auto b = std::make_shared<McCalib::Object3D>(2, 1, 1, C.boards_3d_[1]->color_);
  b->insertBoardInObject(C.boards_3d_[1]);
  b->setBoardPoseMat(1, eye);
  b->insertBoardInObject(C.boards_3d_[2]);
  b->setBoardPoseMat(2, b21);
  C.object_3d_[0] = a;
  C.object_3d_[1] = b;
  C.object_pose_pairs_[{0, 1}] = {o01};
  cv::Mat o10 = o01.inv();
  C.object_pose_pairs_[{1, 0}] = {o10};
  C.inter_object_transform_[{0, 1}] = o01;
  C.inter_object_transform_[{1, 0}] = o10;
  C.initInterObjectsGraph();
  C.mergeObjects();
  EXPECT(C.object_3d_.size() == 1);
  auto &m = C.object_3d_.begin()->second;
  std::size_t n = 0;
  for (int i = 0; i < 3; i++)
    n += C.boards_3d_[i]->pts_3d_.size();
  EXPECT(m->pts_3d_.size() == n);
  EXPECT(m->pts_obj_2_board_.size() == n);
  EXPECT(m->pts_board_2_obj_.size() == n);
  for (std::size_t i = 0; i < m->pts_obj_2_board_.size(); i++)
    EXPECT(m->pts_board_2_obj_[m->pts_obj_2_board_[i]] == int(i));
  return failures != 0;
}
'''
