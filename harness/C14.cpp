// C14: quad tree. A point is an identifier with arbitrary coordinates.
//@ bounded leaf up to three points in one node (coordinates arbitrary)
//@ bounded node01 two subtrees of one point each (their areas, the points and the query arbitrary)
//@ opt node01 merge=0 minmax=1
//@ bounded node12 two subtrees of one point each (their areas, the points and the query arbitrary)
//@ opt node12 merge=0 minmax=1
//@ bounded node23 two subtrees of one point each (their areas, the points and the query arbitrary)
//@ opt node23 merge=0 minmax=1
//@ bounded node30 two subtrees of one point each (their areas, the points and the query arbitrary)
//@ opt node30 merge=0 minmax=1
//@ bounded history2 capacity two, two insertions, then at most one removal (coordinates arbitrary)
//@ bounded history3 capacity two, three insertions, the third point at most one doubling away (coordinates arbitrary)
//@ opt history2 merge=0
//@ opt history3 merge=0
//@ native histories up to 40 insertions and removals of points with repeated coordinates, sampled
#include "vf.h"
#include <memory>
#include <vector>
#include <algorithm>
#include <cassert>
#include <iterator>
#define private public
#include "SEUtils/QuadTree.h"
#undef private
static double coord(long id, size_t i) { return vf_fun2("coord", id, (long)i); }
namespace SourceXtractor { template <> struct QuadTreeTraits<long> { static double getCoord(const long& p, size_t i) { return coord(p, i); } }; }
#ifdef VF_NATIVE
namespace { struct Q { long id; double x, y; bool operator==(const Q& o) const { return id == o.id; } }; }
namespace SourceXtractor { template <> struct QuadTreeTraits<Q> { static double getCoord(const Q& p, size_t i) { return i ? p.y : p.x; } }; }
#endif
using namespace SourceXtractor;
using Tree = QuadTree<long>;
static double real(const char* n) { double v = vf_real(n); if (!vf_symbolic()) vf_assume(v > -1e3 && v < 1e3); return v; }
struct Query { double x, y, r; };
static Query query() { Query q; q.x = real("qx"); q.y = real("qy"); q.r = real("range"); vf_assume(q.r >= 0); return q; }
static bool near(long id, const Query& q) { double dx = coord(id, 0) - q.x, dy = coord(id, 1) - q.y; return dx * dx + dy * dy <= q.r * q.r; }
static void found_once(const std::vector<long>& f, long id, bool expected) {
  long times = 0; for (size_t i = 0; i < f.size(); ++i) times += f[i] == id;
  if (expected) vf_assert(times == 1, "every stored point within the range is returned once"); else vf_assert(times == 0, "no other point is returned");
}
static std::vector<long> ask(const Tree& t, const Query& q) { return t.getPointsWithinRange(Tree::Coord{q.x, q.y}, q.r); }
template <int N> static void one_leaf() {
  Tree t(10); for (long i = 0; i < N; ++i) t.add(i);
  Query q = query(); auto f = ask(t, q); for (long i = 0; i < N; ++i) found_once(f, i, near(i, q));
}
VF_HARNESS(leaf) { int n = vf_int("n", 0, 3); if (n == 0) one_leaf<0>(); else if (n == 1) one_leaf<1>(); else if (n == 2) one_leaf<2>(); else one_leaf<3>(); }
// a node over four subtrees: each has its point somewhere in its area
static std::shared_ptr<Tree> subtree(long id, double x0, double y0, double x1, double y1) {
  vf_assume(x0 <= coord(id, 0) && coord(id, 0) <= x1 && y0 <= coord(id, 1) && coord(id, 1) <= y1);
  auto t = std::make_shared<Tree>(2); t->m_min = Tree::Coord{x0, y0}; t->m_max = Tree::Coord{x1, y1}; t->m_data.push_back(id); return t;
}
#ifdef VF_NATIVE
static double around(const char* n, double c, double s) { double v = real(n); return c + s * std::abs(v) / 100; }
#else
static double around(const char* n, double, double) { return real(n); }
#endif
template <int A, int B> static void node() {
  Tree t(2); t.m_is_divided = true; t.m_min = Tree::Coord{real("x0"), real("y0")}; t.m_max = Tree::Coord{real("x1"), real("y1")};
  t.m_sub_trees[A] = subtree(0, around("ax", coord(0, 0), -1), around("ay", coord(0, 1), -1), around("aX", coord(0, 0), 1), around("aY", coord(0, 1), 1));
  t.m_sub_trees[B] = subtree(1, around("bx", coord(1, 0), -1), around("by", coord(1, 1), -1), around("bX", coord(1, 0), 1), around("bY", coord(1, 1), 1));
  Query q = query(); auto f = ask(t, q); found_once(f, 0, near(0, q)); found_once(f, 1, near(1, q));
}
VF_HARNESS(node01) { node<0, 1>(); }
VF_HARNESS(node12) { node<1, 2>(); }
VF_HARNESS(node23) { node<2, 3>(); }
VF_HARNESS(node30) { node<3, 0>(); }
VF_HARNESS(histories) {
#ifdef VF_NATIVE
  int n = vf_int("n", 1, 40), side = vf_int("side", 1, 20), cap = vf_int("capacity", 1, 5); QuadTree<Q> t((size_t)cap); std::vector<Q> in; long next = 0;
  for (int s = 0; s < n; ++s) {
    int op = vf_ifun1("op", s, 0, 4);
    if (op == 0 && !in.empty()) { size_t k = (size_t)vf_ifun1("victim", s, 0, (int)in.size() - 1); t.remove(in[k]); in.erase(in.begin() + k); }
    else if (op == 1 && !in.empty()) { Q p = in[(size_t)vf_ifun1("again", s, 0, (int)in.size() - 1)]; t.add(p); in.push_back(p); }
    else { Q p{next++, (double)vf_ifun1("x", s, -side, side), (double)vf_ifun1("y", s, -side, side)}; t.add(p); in.push_back(p); }
  }
  double x = vf_int("qx2", -2 * side, 2 * side) / 2., y = vf_int("qy2", -2 * side, 2 * side) / 2., r = vf_int("range2", 0, 6 * side) / 2.;
  auto f = t.getPointsWithinRange({x, y}, r); std::vector<int> got((size_t)next), want((size_t)next);
  for (auto& p : f) ++got[p.id];
  for (auto& p : in) if ((p.x - x) * (p.x - x) + (p.y - y) * (p.y - y) <= r * r) ++want[p.id];
  vf_assert(got == want, "exactly the stored points within the range, each as often as it is stored");
#endif
}
static void all(const Tree& t, int n, int gone) { Query q = query(); auto f = ask(t, q); for (long i = 0; i < n; ++i) found_once(f, i, near(i, q) & (i != gone)); }
VF_HARNESS(history2) { Tree t(2); t.add(0); t.add(1); int gone = vf_int("gone", 0, 2); if (gone == 0) t.remove(0); else if (gone == 1) t.remove(1); all(t, 2, gone); }
// what the queries rely on: a point is stored in exactly one leaf, and every area on the way to it contains it
static int stored(const Tree& t, long id, int depth) {
  int n = 0; bool inside = t.m_min.x <= coord(id, 0) & coord(id, 0) <= t.m_max.x & t.m_min.y <= coord(id, 1) & coord(id, 1) <= t.m_max.y;
  if (t.m_is_divided) { if (depth > 0) for (int i = 0; i < 4; ++i) if (t.m_sub_trees[i]) n += stored(*t.m_sub_trees[i], id, depth - 1); }
  else for (size_t i = 0; i < t.m_data.size(); ++i) n += t.m_data[i] == id;
  if (n > 0) vf_assert(inside, "a stored point lies in the area of its node");
  return n;
}
VF_HARNESS(history3) {
  double d = real("size"); vf_assume(d >= 0 && std::abs(coord(0, 0) - coord(1, 0)) <= d && std::abs(coord(0, 1) - coord(1, 1)) <= d);
  vf_assume(std::abs(coord(0, 0) - coord(1, 0)) == d || std::abs(coord(0, 1) - coord(1, 1)) == d);
  vf_assume(std::abs(coord(2, 0) - coord(0, 0)) <= d && std::abs(coord(2, 1) - coord(0, 1)) <= d);
  vf_bound(4); Tree t(2); t.add(0); t.add(1); t.add(2);
  vf_assert(stored(t, 0, 4) == 1, "the first point is stored once"); vf_assert(stored(t, 1, 4) == 1, "the second point is stored once"); vf_assert(stored(t, 2, 4) == 1, "the third point is stored once");
}
