prop = "C10"
needs = "two cameras that observe the same object in the same frame, then a traversal of the object observations by frame (camera group registration)"
breaks = "a frame files object observations under the object id, so the observation of a second camera replaces that of the first and camera groups lose it"
edits = [(S + "Frame.cpp", "object_observations_[object_observations_.size()] = new_object;", "object_observations_[new_object->object_3d_id_] = new_object;")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 1);
  g.setIntrinsics();
  g.board[0] = Rig::T(0, 0, 0, 0, 0, 0);
  for (int c = 0; c < 2; c++)
    g.cam[c] = Rig::T(0, 0.1 * c, 0, 0.2 * c, 0, 0);
  for (int f = 0; f < 4; f++)
    for (int c = 0; c < 2; c++)
      g.see(c, f, 0, Rig::T(0.05 * f, 0.1, 0.02 * f, -0.1, -0.1, 1.0 + 0.05 * f));
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  EXPECT(C.object_observations_.size() == 8);
  for (auto &f : C.frames_) {
    EXPECT(f.second->object_observations_.size() == 2);
    std::set<McCalib::Object3DObs *> s;
    for (auto &o : f.second->object_observations_)
      s.insert(o.second.lock().get());
    EXPECT(s.size() == 2);
  }
  return failures != 0;
}
'''
