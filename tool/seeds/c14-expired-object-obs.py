prop = "C14"
needs = "an object observation released (objects merged) between the registration of the camera group observation and the update of the poses"
breaks = "the handle of an object observation is dereferenced without checking that it is still alive"
edits = [(S + "CameraGroupObs.cpp", """    auto obj_obs_ptr = obj_obs.second.lock();
    if (obj_obs_ptr) {
      obj_obs_ptr->setPoseInGroupVec(
          getObjectRotVec(obj_obs_ptr->object_3d_id_),
          getObjectTransVec(obj_obs_ptr->object_3d_id_));
    }
""", """    const auto obj_obs_ptr = obj_obs.second.lock();
    const int object_id = obj_obs_ptr->object_3d_id_;
    if (object_pose_.find(object_id) != object_pose_.end()) {
      obj_obs_ptr->setPoseInGroupVec(getObjectRotVec(object_id),
                                     getObjectTransVec(object_id));
    }
""")]
cpp = r'''#include "rig.hpp"
int main() {
  auto group = std::make_shared<McCalib::CameraGroup>(0, 0);
  auto object = std::make_shared<McCalib::Object3D>(1, 0, 0, std::array<int, 3>{0, 0, 0});
  auto o = std::make_shared<McCalib::Object3DObs>(object, 0);
  auto p = std::make_shared<McCalib::Object3DObs>(object, 0);
  McCalib::CameraGroupObs g(group, true);
  g.insertObjectObservation(o);
  g.insertObjectObservation(p);
  cv::Mat r = (cv::Mat_<double>(3, 1) << 0.1, 0.2, 0.3);
  cv::Mat t = (cv::Mat_<double>(3, 1) << 1, 2, 3);
  g.setObjectPoseVec(r, t, 0);
  o.reset();
  g.updateObjObsPose();
  EXPECT(cv::norm(p->getTransInGroupVec() - t) < 1e-12);
  return failures != 0;
}
'''
