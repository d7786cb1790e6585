// C16: Hilbert curve and power-of-two rounding
//@ bounded curve_list sides up to 8
#include "vf.h"
#include <cstdint>
#include "SEUtils/Misc.h"
#include "SEUtils/PixelCoordinate.h"
#include <vector>
#define private public
#include "SEUtils/HilbertCurve.h"
#undef private
using namespace SourceXtractor;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif

static const int MAXK = 15;    // sides up to 2^15 (m_size*m_size is computed in 32 bits)
extern "C" long spec_p2(long k) { return k <= 0 ? 1 : k == 1 ? 2 : k == 2 ? 4 : k == 3 ? 8 : k == 4 ? 16 : k == 5 ? 32 : k == 6 ? 64 : k == 7 ? 128 : k == 8 ? 256 : k == 9 ? 512 : k == 10 ? 1024 : k == 11 ? 2048 : k == 12 ? 4096 : k == 13 ? 8192 : k == 14 ? 16384 : k == 15 ? 32768 : k == 16 ? 65536 : 131072; }
// the index after k of its base-4 digits were taken off
extern "C" long spec_rest(long k, long i) { return k <= 0 ? i : spec_rest(k - 1, i) >> 2; }
static long digit(long k, long i) { return spec_rest(k, i) & 3; }
static bool right(long d) { return d >= 2; }
static bool upper(long d) { return (d == 1) | (d == 2); }
extern "C" long spec_y(long k, long i);
extern "C" long spec_x(long k, long i) {
  if (k <= 0) return 0;
  long d = digit(k - 1, i); long s = spec_p2(k - 1), x = spec_x(k - 1, i), y = spec_y(k - 1, i);
  return (upper(d) ? x : right(d) ? s - 1 - y : y) + (right(d) ? s : 0);
}
extern "C" long spec_y(long k, long i) {
  if (k <= 0) return 0;
  long d = digit(k - 1, i); long s = spec_p2(k - 1), x = spec_x(k - 1, i), y = spec_y(k - 1, i);
  return (upper(d) ? y : right(d) ? s - 1 - x : x) + (upper(d) ? s : 0);
}
extern "C" bool cand_s(long s, long k) { return s == spec_p2(k); }
extern "C" bool cand_x(long x, long k, long i) { return x == spec_x(k, i); }
extern "C" bool cand_y(long y, long k, long i) { return y == spec_y(k, i); }
extern "C" bool cand_rest(long r, long k, long i) { return r == spec_rest(k, i); }
extern "C" bool cand_in(long x, long k) { return x >= 0 && x < spec_p2(k); }
extern "C" bool cand_prev(long k, long n) { return k == 0 || spec_p2(k - 1) < n; }
// the code computes the curve defined by the recursion
VF_HARNESS(coordinate) {
  int K = vf_int("K", 0, MAXK); long n = spec_p2(K), i = vf_long("i", 0, (1L << 30) - 1);
  HilbertCurve c(1); c.m_size = (unsigned)n;
  vf_spec_unfold(1);
  vf_inv(cand_s, 1, 1); vf_inv(cand_x, 1, 1, i); vf_inv(cand_y, 1, 1, i); vf_inv(cand_rest, 1, 1, i); vf_inv(cand_in, 1, 1); vf_inv(cand_prev, 0, 1, n);
  auto p = c.get2DCoordinate((unsigned)i);
  vf_assert(p.m_x == (int)spec_x(K, i), "x is the curve's");
  vf_assert(p.m_y == (int)spec_y(K, i), "y is the curve's");
  vf_cover(K > 3, "larger sides");
}
// lemmas about the recursion, by induction over the number of levels (the code is not involved)
extern "C" long spec_low(long k, long i) { return k <= 0 ? 0 : spec_low(k - 1, i) + spec_p2(k - 1) * spec_p2(k - 1) * digit(k - 1, i); }
static bool inside(long k, long i) { return (spec_x(k, i) >= 0) & (spec_x(k, i) < spec_p2(k)) & (spec_y(k, i) >= 0) & (spec_y(k, i) < spec_p2(k)); }
static bool apart(long k, long i, long j) { return (spec_x(k, i) != spec_x(k, j)) | (spec_y(k, i) != spec_y(k, j)) | (spec_low(k, i) == spec_low(k, j)); }
static bool split(long k, long i) { long P = spec_p2(k); return (i == spec_low(k, i) + P * P * spec_rest(k, i)) & (spec_low(k, i) >= 0) & (spec_low(k, i) < P * P) & (spec_rest(k, i) >= 0); }
// j = i + 1: either the two share the digits above level k and are neighbours, or i is the last and j the first cell of a block
static bool step(long k, long i, long j) {
  long dx = spec_x(k, j) - spec_x(k, i), dy = spec_y(k, j) - spec_y(k, i);
  bool edge = ((dx == 0) & ((dy == 1) | (dy == -1))) | ((dy == 0) & ((dx == 1) | (dx == -1)));
  return ((spec_rest(k, i) == spec_rest(k, j)) & edge) | ((spec_rest(k, j) == spec_rest(k, i) + 1) & (spec_x(k, i) == spec_p2(k) - 1) & (spec_y(k, i) == 0) & (spec_x(k, j) == 0) & (spec_y(k, j) == 0));
}
static long level() { return vf_int("k", 0, MAXK - 1); }
static long idx(const char* n) { return vf_long(n, 0, (1L << 30) - 1); }
VF_HARNESS(lemma_start) {
  long i = idx("i"), j = idx("j"); vf_spec_unfold(1);
  vf_assert(inside(0, i), "level 0: inside"); vf_assert(split(0, i), "level 0: digits");
  vf_assert(apart(0, i, j), "level 0: different cells"); vf_assert(step(0, i, i + 1), "level 0: neighbours");
}
VF_HARNESS(lemma_inside) {
  long k = level(), i = idx("i"); vf_spec_unfold(1);
  vf_assume(inside(k, i)); vf_assert(inside(k + 1, i), "every cell lies inside the grid");
}
VF_HARNESS(lemma_split) {
  long k = level(), i = idx("i"); vf_spec_unfold(1);
  vf_assume(split(k, i)); vf_assert(split(k + 1, i), "an index is its low digits and the rest");
}
VF_HARNESS(lemma_apart) {
  long k = level(), i = idx("i"), j = idx("j"); vf_spec_unfold(1);
  vf_assume(inside(k, i) & inside(k, j)); vf_assume(split(k, i) & split(k, j)); vf_assume(apart(k, i, j));
  vf_assert(apart(k + 1, i, j), "different indices give different cells");
}
VF_HARNESS(lemma_step) {
  long k = level(), i = idx("i"); vf_spec_unfold(1);
  vf_assume(inside(k, i) & inside(k, i + 1)); vf_assume((spec_rest(k, i) >= 0) & (spec_rest(k, i + 1) >= 0)); vf_assume(step(k, i, i + 1));
  vf_assert(step(k + 1, i, i + 1), "consecutive indices are neighbours");
}
// the conclusion for a grid of side 2^K
VF_HARNESS(lemma_curve) {
  int K = vf_int("K", 0, MAXK); long i = idx("i"), j = idx("j"), P = spec_p2(K); vf_spec_unfold(1);
  vf_assume((i < P * P) & (j < P * P));
  vf_assume(inside(K, i) & inside(K, j)); vf_assume(split(K, i) & split(K, j)); vf_assume(apart(K, i, j));
  vf_assert((i == j) | (spec_x(K, i) != spec_x(K, j)) | (spec_y(K, i) != spec_y(K, j)), "the curve visits no cell twice");
  if (j == i + 1) {
    vf_assume(step(K, i, j));
    long dx = spec_x(K, j) - spec_x(K, i), dy = spec_y(K, j) - spec_y(K, i);
    vf_assert(((dx == 0) & ((dy == 1) | (dy == -1))) | ((dy == 0) & ((dx == 1) | (dx == -1))), "the curve moves to an edge neighbour");
    vf_cover(true, "a step");
  }
}
// rounding up to a power of two: v - 1 = 2^(e-1) + lower bits, for every e
template <class T> static void rounding(int e) {
  unsigned long low = 0;
  static const char* names[] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15", "b16", "b17", "b18", "b19", "b20", "b21", "b22", "b23", "b24", "b25", "b26", "b27", "b28", "b29"};
  for (int i = 0; i + 1 < e; i++) low += (vf_bool(names[i]) ? 1ul : 0ul) << i;
  T v = e ? (T)((1ul << (e - 1)) + low + 1) : (T)1;
  vf_assert(nextPowerOfTwo<T>(v) == (T)(1ul << e), "the smallest power of two that is not below the value");
  if (e > 15) return;
  HilbertCurve c((unsigned)v);
  vf_assert(c.m_size == (1u << e), "the side of the curve's grid");
}
VF_HARNESS(rounding_up) {
  int E = vf_int("e", 0, 30);
  for (int e = 0; e <= 30; e++) if (E == e) { rounding<unsigned>(e); vf_cover(e == 30, "the largest"); return; }
}
VF_HARNESS(rounding_up64) {
  int E = vf_int("e", 0, 31);
  for (int e = 0; e <= 31; e++) if (E == e) { rounding<unsigned long>(e); return; }
}
// the list of all cells, in order
VF_HARNESS(curve_list) {
  int K = vf_int("K", 0, NAT(6, 3)), i = vf_int("i", 0, NAT(4095, 63)); vf_bound(64);
  long n = 1; for (int k = 0; k < K; k++) n *= 2;
  HilbertCurve c((unsigned)n); auto v = c.getCurve();
  vf_assert((long)v.size() == n * n, "one entry per cell");
  if (i < n * n) vf_assert(v[i] == c.get2DCoordinate(i), "entries in the order of the curve");
}
