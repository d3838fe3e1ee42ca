prop = "C12"
needs = "an object (a board on its own) that was observed in a single frame by a single camera group"
breaks = "such an object is no vertex of the graph of objects and silently disappears when the objects are merged"
edits = [(S + "McCalib.cpp", """    if (it.second->object_observations_.size() > 0) {
      covis_objects_graph_.addVertex(it.second->obj_id_);""",
          """    if (it.second->object_observations_.size() > 1) {
      covis_objects_graph_.addVertex(it.second->obj_id_);""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(1, 2, "fix_intrinsic: 1\n");
  g.setIntrinsics();
  g.cam[0] = Rig::T(0, 0, 0, 0, 0, 0);
  g.board[0] = Rig::T(0, 0, 0, -0.1, -0.1, 1.2);
  g.board[1] = Rig::T(0, 0.2, 0, -0.1, -0.1, 1.3);
  for (int f = 0; f < 6; f++)
    g.see(0, f, 0, Rig::T(0.1 * f, 0.1, 0.05 * f, 0.02 * f, 0.01, 0.03 * f));
  g.see(0, 6, 1, Rig::T(0.1, 0.2, 0.1, 0.02, 0.01, 0.03));
  auto &C = *g.cal;
  C.estimatePoseAllBoards();
  C.initInterBoardsGraph();
  C.init3DObjects();
  C.initAll3DObjectObs();
  C.estimatePoseAllObjects();
  EXPECT(C.object_3d_.size() == 2);
  C.initInterObjectsGraph();
  EXPECT(C.covis_objects_graph_.connectedComponents().size() == 2);
  return failures != 0;
}
'''
