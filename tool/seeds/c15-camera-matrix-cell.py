prop = "C15"
needs = "the camera matrix is created in recycled memory that does not happen to be zero"
breaks = "one element of the camera matrix handed to every pose estimation is indeterminate"
edits = [(S + "Camera.cpp", """cv::Mat(3, 3, CV_64F, cv::Scalar(0));
  camera_matrix.at<double>(0, 0) = intrinsics_[0];""", """cv::Mat(3, 3, CV_64F);
  camera_matrix.at<double>(0, 0) = intrinsics_[0];
  camera_matrix.at<double>(0, 1) = camera_matrix.at<double>(1, 0) = 0;
  camera_matrix.at<double>(2, 0) = 0;""")]

cpp = open("/verif/tool/seeds/c15-pose-column.py").read().split("r'''")[1].split("int main")[0] + r'''int main() {
  static Dirty dirty;
  cv::Mat::setDefaultAllocator(&dirty);
  Rig g;
  g.init(1, 1);
  g.setIntrinsics();
  cv::Mat k = g.cal->cams_[0]->getCameraMat();
  EXPECT(k.rows == 3 && k.cols == 3);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i > j || (i == 0 && j == 1))
        EXPECT(k.at<double>(i, j) == 0);
  return failures != 0;
}
'''
