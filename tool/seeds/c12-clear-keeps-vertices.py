prop = "C12"
needs = "a graph that is cleared and filled again with other vertices (second round of merging)"
breaks = "the table from ids to vertices survives clearGraph, so edges added afterwards connect vertices which do not exist or carry another id"
edits = [(S + "Graph.cpp", """  graph_.clear();
  idx_to_vertex_.clear();
""", """  graph_.clear();
  if (boost::num_vertices(graph_) > 0)
    idx_to_vertex_.clear();
""")]
cpp = r'''#include "McCalib.hpp"
#include <iostream>
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { std::cout << "FAILED " << __LINE__ << ": " #c << std::endl; failures++; } } while (0)
int main() {
  using namespace McCalib;
  Graph g;
  for (int i = 0; i < 4; i++)
    g.addVertex(i);
  g.addEdge(0, 3, 1);
  g.clearGraph();
  g.addVertex(1);
  g.addVertex(0);
  g.addEdge(0, 1, 0.5);
  auto c = g.connectedComponents();
  EXPECT(c.size() == 1);
  EXPECT(c.size() == 1 && c[0].size() == 2);
  return failures != 0;
}
'''
