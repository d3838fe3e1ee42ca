prop = "C22"
needs = "two or more pairs of boards (or cameras, objects) with measurements; the first pair alone is averaged correctly"
breaks = "one of the sample vectors is not emptied between the pairs, so the translation of later pairs is the median over the samples of all earlier pairs too"
edits = [(S + "McCalib.cpp", """  inter_transform.clear();
  for (const auto &it : pose_pairs) {
    const std::pair<int, int> &pair_idx = it.first;
""", """  inter_transform.clear();
  std::vector<double> r1, r2, r3;
  std::vector<double> t1, t2, t3;
  for (const auto &it : pose_pairs) {
    const std::pair<int, int> &pair_idx = it.first;
"""), (S + "McCalib.cpp", """    const size_t num_poses = poses_temp.size();
    std::vector<double> r1, r2, r3;
    std::vector<double> t1, t2, t3;
    r1.reserve(num_poses);
""", """    const size_t num_poses = poses_temp.size();
    r1.clear();
    r2.clear();
    r3.clear();
    t1.clear();
    t2.clear();
    r1.reserve(num_poses);
""")]
cpp = r'''#include "rig.hpp"
int main() {
  Rig g;
  g.init(2, 2);
  std::map<std::pair<int, int>, std::vector<cv::Mat>> in;
  std::map<std::pair<int, int>, cv::Mat> out;
  cv::Mat a = Rig::T(0.1, 0.2, 0.3, 1, 2, 3), b = Rig::T(-0.2, 0.1, 0.4, -4, 5, 9);
  for (int i = 0; i < 3; i++) {
    in[std::make_pair(0, 1)].push_back(a);
    in[std::make_pair(1, 0)].push_back(b);
  }
  g.cal->initInterTransform(in, out);
  EXPECT(out.size() == 2);
  EXPECT((Rig::err(out[std::make_pair(0, 1)], a) < 1e-6));
  EXPECT((Rig::err(out[std::make_pair(1, 0)], b) < 1e-6));
  return failures != 0;
}
'''
