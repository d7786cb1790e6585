// C15: k-d tree. A point is an identifier with arbitrary coordinates.
//@ bounded leaf2 up to four points (coordinates arbitrary)
//@ bounded small one tree of three points in a single leaf (coordinates arbitrary)
//@ bounded leaf3 up to three points of three dimensions (coordinates arbitrary)
#include "vf.h"
#include <memory>
#include <vector>
#include <algorithm>
#include <functional>
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
static double coord(long id, size_t i) { return vf_fun2("coord", id, (long)i); }
#ifndef VF_NATIVE
// Contract of std::sort for a comparison by one coordinate: a permutation of the elements, in ascending order. The order is
// stated for the pairs of positions the harness asks about (they are arbitrary positions).
static long sort_axis, low_pos, high_pos;
namespace std { template <class It, class C> void vf_sort(It first, It last, C) {
  long n = last - first; if (n <= 0) return;
  vf_fill2l(&*first, n, 1, "sorted", 0, 0, 0, 1000000000);
  if (low_pos >= 0 && low_pos < n / 2) vf_assume(coord(first[low_pos], sort_axis) <= coord(first[n / 2 - 1], sort_axis));
  if (high_pos >= n / 2 && high_pos < n) vf_assume(coord(first[n / 2], sort_axis) <= coord(first[high_pos], sort_axis));
  if (n / 2 >= 1) vf_assume(coord(first[n / 2 - 1], sort_axis) <= coord(first[n / 2], sort_axis));
} }
#define sort vf_sort
#endif
#define private public
#include "SEUtils/KdTree.h"
#undef private
#undef sort
namespace SourceXtractor { template <> struct KdTreeTraits<long> { static double getCoord(const long& p, size_t i) { return coord(p, i); } }; }
using namespace SourceXtractor;
template <size_t N> static double dist2(long p, const double* c) { double d = 0; for (size_t i = 0; i < N; ++i) d += (coord(p, i) - c[i]) * (coord(p, i) - c[i]); return d; }
static double query(const char* n) { double v = vf_real(n); if (!vf_symbolic()) vf_assume(v > -1e3 && v < 1e3); return v; }
static double a_radius() { double r = vf_real("radius"); vf_assume(r >= 0); return r; }
// --- a leaf: the points within the radius, each as often as it was given, in the order given
template <size_t N> static void leaf(const int n) {
  using Tree = KdTree<long, N, 4>; typename Tree::Coord c; for (size_t i = 0; i < N; ++i) c.coord[i] = query(i == 0 ? "c0" : i == 1 ? "c1" : "c2");
  double r = a_radius(); std::vector<long> data((size_t)n); for (int i = 0; i < n; ++i) data[i] = i;
  typename Tree::Leaf l(std::move(data));
  auto found = l.findPointsWithinRadius(c, r); size_t k = 0;
  for (int i = 0; i < n; ++i) if (dist2<N>(i, c.coord) < r * r) { vf_assert(k < found.size() && found[k] == i, "every point closer than the radius is found"); ++k; }
  vf_assert(found.size() == k, "no other point is found");
}
VF_HARNESS(leaf2) { int n = vf_int("n", 0, 4); if (n == 0) leaf<2>(0); else if (n == 1) leaf<2>(1); else if (n == 2) leaf<2>(2); else if (n == 3) leaf<2>(3); else leaf<2>(4); }
VF_HARNESS(leaf3) { int n = vf_int("n", 1, 3); if (n == 1) leaf<3>(1); else if (n == 2) leaf<3>(2); else leaf<3>(3); }
// --- an inner node over any two children
template <size_t N> struct Child : public KdTree<long, N, 4>::Node {
  const char* name; long n; mutable bool asked = false, same = false; typename KdTree<long, N, 4>::Coord c; double r;
  Child(const char* name_, long n_, typename KdTree<long, N, 4>::Coord c_, double r_) : name(name_), n(n_), c(c_), r(r_) {}
  std::vector<long> findPointsWithinRadius(typename KdTree<long, N, 4>::Coord q, double radius) const override {
    asked = true; same = radius == r; for (size_t i = 0; i < N; ++i) same = same & (q.coord[i] == c.coord[i]);
    std::vector<long> v((size_t)n); vf_fill2l(v.data(), n, 1, name, 0, 0, 0, 1000000000); return v;
  }
};
template <size_t N> static void inner(const size_t axis) {
  using Tree = KdTree<long, N, 4>; typename Tree::Coord c; for (size_t i = 0; i < N; ++i) c.coord[i] = query(i == 0 ? "c0" : i == 1 ? "c1" : "c2");
  double r = a_radius(), at = query("split"); long nl = vf_int("nl", 0, NAT(5, 1000000)), nr = vf_int("nr", 0, NAT(5, 1000000));
  std::vector<long> two(2); two[0] = 0; two[1] = 1;
  typename Tree::Split s(two, 0);
  auto left = std::make_shared<Child<N>>("left", nl, c, r), right = std::make_shared<Child<N>>("right", nr, c, r);
  s.m_axis = axis; s.m_split_value = at; s.m_left_child = left; s.m_right_child = right;
  long gl = vf_int("gl", 0, NAT(5, 1000000)), gr = vf_int("gr", 0, NAT(5, 1000000)); vf_index(gl); vf_index(gr); vf_index(nl + gr);
  long el = vf_ifun2("left", gl, 0, 0, 1000000000), er = vf_ifun2("right", gr, 0, 0, 1000000000); vf_valuei(el); vf_valuei(er);
  auto found = s.findPointsWithinRadius(c, r);
  // what the children hold (contract of the constructor): an arbitrary point of each
  long pl = vf_int("pl", 0, 1000000), pr = vf_int("pr", 0, 1000000); vf_assume(coord(pl, axis) <= at && coord(pr, axis) >= at);
  if (!left->asked) vf_assert(dist2<N>(pl, c.coord) >= r * r, "points of the first half that are not looked at are not within the radius");
  if (!right->asked) vf_assert(dist2<N>(pr, c.coord) >= r * r, "points of the second half that are not looked at are not within the radius");
  vf_assert((!left->asked || left->same) && (!right->asked || right->same), "the children are asked the same question");
  long el_n = left->asked ? nl : 0, er_n = right->asked ? nr : 0;
  vf_assert(found.size() == (size_t)(el_n + er_n), "everything found by the children is returned, each as often as they return it");
  if (left->asked && gl < nl) vf_assert(found[gl] == el, "points of the first half");
  if (right->asked && gr < nr) vf_assert(found[el_n + gr] == er, "points of the second half");
  vf_cover(left->asked & right->asked, "both halves"); vf_cover(!left->asked, "second half only"); vf_cover(!right->asked, "first half only");
}
VF_HARNESS(inner_x) { inner<2>(0); }
VF_HARNESS(inner_y) { inner<2>(1); }
VF_HARNESS(inner_z) { inner<3>(2); }
// --- the constructor of an inner node: each half goes to its child, with the split value between the halves
template <class Tree> static const std::vector<long>& held(const std::shared_ptr<typename Tree::Node>& n) { return static_cast<const typename Tree::Leaf*>(n.get())->m_data; }
static void halves(const size_t axis) {
  using Tree = KdTree<long, 2, 1000000>; long n = vf_int("n", 2, NAT(12, 2000000)), gl = vf_int("gl", 0, NAT(5, 1000000)), gr = vf_int("gr", 0, NAT(5, 1000000));
  vf_assume(gl < n / 2); vf_assume(gr < n - n / 2);
#ifndef VF_NATIVE
  sort_axis = (long)axis; low_pos = gl; high_pos = n / 2 + gr;
  vf_index(gl); vf_index(gr); vf_index(n / 2 + gr);
  long l = vf_ifun2("sorted", gl, 0, 0, 1000000000), r = vf_ifun2("sorted", n / 2 + gr, 0, 0, 1000000000); vf_valuei(l); vf_valuei(r);
#endif
  std::vector<long> data((size_t)n);
#ifdef VF_NATIVE
  for (long i = 0; i < n; ++i) data[i] = i;
#endif
  typename Tree::Split s(data, axis);
  const auto& left = held<Tree>(s.m_left_child); const auto& right = held<Tree>(s.m_right_child);
  vf_assert(left.size() == (size_t)(n / 2) && right.size() == (size_t)(n - n / 2), "half of the points on each side, none lost");
  vf_assert(s.m_axis == axis, "the node remembers its axis");
#ifdef VF_NATIVE
  std::vector<long> all(left.begin(), left.end()); all.insert(all.end(), right.begin(), right.end()); std::sort(all.begin(), all.end());
  vf_assert(all == data, "every point is in one half");
#else
  vf_assert(left[gl] == l && right[gr] == r, "every point is in one half");
#endif
  vf_assert(coord(left[gl], axis) <= s.m_split_value, "no point of the first half lies beyond the split value");
  vf_assert(coord(right[gr], axis) >= s.m_split_value, "no point of the second half lies before the split value");
}
VF_HARNESS(halves_x) { halves(0); }
VF_HARNESS(halves_y) { halves(1); }
// --- small trees as a whole
VF_HARNESS(small) {
  using Tree = KdTree<long, 2, 100>; const long n = 3; std::vector<long> data((size_t)n); for (long i = 0; i < n; ++i) data[i] = i;
  Tree t(data); typename Tree::Coord c; c.coord[0] = query("c0"); c.coord[1] = query("c1"); double r = a_radius();
  auto found = t.findPointsWithinRadius(c, r); size_t k = 0;
  for (long i = 0; i < n; ++i) if (dist2<2>(i, c.coord) < r * r) { vf_assert(k < found.size() && found[k] == i, "every point closer than the radius is found"); ++k; }
  vf_assert(found.size() == k, "no other point is found");
}
