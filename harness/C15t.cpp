// C15: whole trees of a few points
//@ bounded tree two points, one point per leaf (coordinates arbitrary)
//@ native trees up to 60 points with repeated coordinates, leaves of up to 4 points, sampled
#include "vf.h"
#include <memory>
#include <vector>
#include <algorithm>
#include "SEUtils/KdTree.h"
static double coord(long id, size_t i) { return vf_fun2("coord", id, (long)i); }
namespace SourceXtractor { template <> struct KdTreeTraits<long> { static double getCoord(const long& p, size_t i) { return coord(p, i); } }; }
#ifdef VF_NATIVE
namespace { struct Q { long id; int x, y; }; }
namespace SourceXtractor { template <> struct KdTreeTraits<Q> { static double getCoord(const Q& p, size_t i) { return i ? p.y : p.x; } }; }
#endif
using namespace SourceXtractor;
template <int N> static void whole() {
  using Tree = KdTree<long, 2, 1>; std::vector<long> data((size_t)N); for (long i = 0; i < N; ++i) data[i] = i;
  Tree t(data); typename Tree::Coord c; c.coord[0] = vf_real("c0"); c.coord[1] = vf_real("c1"); double r = vf_real("radius"); vf_assume(r >= 0);
  auto found = t.findPointsWithinRadius(c, r); size_t expected = 0;
  for (long i = 0; i < N; ++i) {
    double dx = coord(i, 0) - c.coord[0], dy = coord(i, 1) - c.coord[1]; long times = 0; bool in = dx * dx + dy * dy < r * r;
    for (size_t k = 0; k < found.size(); ++k) times += found[k] == i;
    vf_assert(times == (in ? 1 : 0), "exactly the points closer than the radius, once each"); expected += in;
  }
  vf_assert(found.size() == expected, "nothing else is returned");
}
VF_HARNESS(tree) { whole<2>(); }
VF_HARNESS(trees) {
#ifdef VF_NATIVE
  int n = vf_int("n", 1, 60), side = vf_int("side", 1, 12); std::vector<Q> data; for (int i = 0; i < n; ++i) data.push_back({i, vf_ifun1("x", i, -side, side), vf_ifun1("y", i, -side, side)});
  KdTree<Q, 2, 4> t(data); KdTree<Q, 2, 4>::Coord c; c.coord[0] = vf_int("c0", -side - 2, side + 2) / 2.; c.coord[1] = vf_int("c1", -side - 2, side + 2) / 2.; double r = vf_int("r", 0, 3 * side) / 2.;
  auto found = t.findPointsWithinRadius(c, r); std::vector<int> times((size_t)n); for (auto& f : found) ++times[f.id];
  for (auto& d : data) { double dx = d.x - c.coord[0], dy = d.y - c.coord[1]; vf_assert(times[d.id] == (dx * dx + dy * dy < r * r ? 1 : 0), "exactly the points closer than the radius, once each"); }
#endif
}
