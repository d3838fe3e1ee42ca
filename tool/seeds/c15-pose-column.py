prop = "C15"
needs = "an object observation marked invalid (its pose had too few inliers); the columns it leaves are whatever the allocator returned"
breaks = "the saved object poses contain columns that were never written"
edits = [(B, """      if (cur_object_obs) {
        cv::Mat rot, trans;""", """      if (cur_object_obs && cur_object_obs->valid_) {
        cv::Mat rot, trans;""")]
cpp = r'''#include "rig.hpp"
#include <cstdlib>
#include <new>
// matrices get memory that is visibly not initialised
class Dirty : public cv::MatAllocator {
  cv::MatAllocator *a = cv::Mat::getStdAllocator();

public:
  cv::UMatData *allocate(int dims, const int *sizes, int type, void *data,
                         size_t *step, cv::AccessFlag flags,
                         cv::UMatUsageFlags usage) const override {
    cv::UMatData *u = a->allocate(dims, sizes, type, data, step, flags, usage);
    if (!data)
      memset(u->data, 0x5A, u->size);
    return u;
  }
  bool allocate(cv::UMatData *u, cv::AccessFlag f,
                cv::UMatUsageFlags g) const override {
    return a->allocate(u, f, g);
  }
  void deallocate(cv::UMatData *u) const override { a->deallocate(u); }
};
int main() {
  static Dirty dirty;
  cv::Mat::setDefaultAllocator(&dirty);
  Rig g;
  g.init(1, 1);
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  auto &C = *g.cal;
  C.save_path_ = g.dir;
  const int frames = 6;
  for (int f = 0; f < frames; f++)
    g.see(0, f, 0, Rig::T(0.2, 0.3, 0.1, -0.1 + 0.02 * f, -0.1, 0.8));
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.calibrateCameraGroup();
  C.estimatePoseAllObjects();
  C.computeAllObjPoseInCameraGroup();
  C.object_observations_.begin()->second->valid_ = false;
  C.save3DObjPose();
  cv::FileStorage fs((C.save_path_ / "calibrated_objects_pose_data.yml").string(),
                     cv::FileStorage::READ);
  cv::Mat p;
  fs["object_0"]["poses"] >> p;
  EXPECT(p.rows == 6 && p.cols >= 1);
  for (int i = 0; i < p.cols; i++)
    for (int j = 0; j < p.rows; j++)
      EXPECT(std::abs(p.at<double>(j, i)) < 10);
  return failures != 0;
}
'''
