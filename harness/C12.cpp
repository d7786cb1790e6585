// C12: the flags of an aperture (the neighbour map by its contract, which C12n.cpp proves)
//@ sources SEFramework/src/lib/Aperture/Flagging.cpp
#include "vf_images.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEFramework/Aperture/NeighbourInfo.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
static const int LIM = 20000;
// any aperture: the weight is an arbitrary function of the pixel, the box any box
struct AnyAperture : public Aperture {
  float cx, cy; int x0, y0, x1, y1; AnyAperture(float cx_, float cy_, int a, int b, int c, int d) : cx(cx_), cy(cy_), x0(a), y0(b), x1(c), y1(d) {}
  void same(SeFloat x, SeFloat y) const { vf_assert(x == cx && y == cy, "the aperture is asked around the given centre"); }
  SeFloat getArea(SeFloat x, SeFloat y, SeFloat px, SeFloat py) const override { same(x, y); return vf_fun2("area", px, py); }
  SeFloat drawArea(SeFloat, SeFloat, SeFloat, SeFloat) const override { return 0; }
  SeFloat getRadiusSquared(SeFloat, SeFloat, SeFloat, SeFloat) const override { return 0; }
  PixelCoordinate getMinPixel(SeFloat x, SeFloat y) const override { same(x, y); return PixelCoordinate(x0, y0); }
  PixelCoordinate getMaxPixel(SeFloat x, SeFloat y) const override { same(x, y); return PixelCoordinate(x1, y1); }
};
static inline double area(long x, long y) { return (float)vf_fun2("area", x, y); }
static inline float var(long x, long y) { return (float)vf_fun2("var", x, y); }
static int g_n, g_a0, g_b0, g_a1, g_b1; static const void* g_thr; static const void* g_list;
#ifdef VF_NATIVE
#include "SEFramework/src/lib/Aperture/NeighbourInfo.cpp"
static bool listed(long x, long y) { for (int k = 0; k < g_n; ++k) if (vf_ifun2("list", 0, k, -3, 12) == x && vf_ifun2("list", 1, k, -3, 12) == y) return true; return false; }
#else
static bool listed(long x, long y) { return vf_bfun2("listed", x, y); }
namespace SourceXtractor {
NeighbourInfo::NeighbourInfo(const PixelCoordinate& a, const PixelCoordinate& b, const std::vector<PixelCoordinate>& list, const std::shared_ptr<Image<SeFloat>>& thr) : m_offset(a) {
  vf_assert(&list == g_list && thr.get() == g_thr, "the neighbours are those of the source's pixel list and the threshold image");
  vf_assert(a.m_x == g_a0 && a.m_y == g_b0 && b.m_x == g_a1 && b.m_y == g_b1, "the neighbour map is made for the part of the box inside the image");
}
bool NeighbourInfo::isNeighbourObjectPixel(int x, int y) const {
  vf_assert(x >= g_a0 && y >= g_b0 && x <= g_a1 && y <= g_b1, "the neighbour map is asked inside its box");
  return (float)vf_fun2("thr", x, y) > 0 && !listed(x, y);
}
}
#endif
// sum over the pixels before (i,j) of the clipped box, row by row
static inline double part(int what, long x, long y, double thr) {
  double a = area(x, y);
  if (what == 0) return a;
  if (a == 0) return 0;
  if (what == 1) return var(x, y) > (float)thr ? 1 : 0;
  return (float)vf_fun2("thr", x, y) > 0 && !listed(x, y) ? 1 : 0;
}
#ifdef VF_NATIVE
#define SUM(n, k) static double spec_##n(long j, long i, long x0, long y0, long w, double thr) { float s = 0; for (long b = 0; b <= j; ++b) for (long a = 0; a < (b < j ? w : i); ++a) s += part(k, x0 + a, y0 + b, thr); return s; }
#else
#define SUM(n, k) extern "C" double spec_##n(long j, long i, long x0, long y0, long w, double thr) { \
  if (i > 0) return spec_##n(j, i - 1, x0, y0, w, thr) + part(k, x0 + i - 1, y0 + j, thr); \
  if (j > 0) return spec_##n(j - 1, w, x0, y0, w, thr); \
  return 0.; }
#endif
#define CAND(n) static bool cand_##n(double v, long i, long j, long x0, long y0, long w, double thr) { return v == spec_##n(j, i, x0, y0, w, thr); }
SUM(area, 0) SUM(bad, 1) SUM(full, 2)
CAND(area) CAND(bad) CAND(full)
static int clip(int v, int n) { return v < 0 ? 0 : v >= n ? n - 1 : v; }
// a coordinate that clips to a
static int out(const char* name, int a, int n) {
  int d = vf_int(name, -NAT(12, LIM), NAT(12, LIM));
  vf_assume(d == 0 || (d < 0 && a == 0) || (d > 0 && a == n - 1));
  return a + d;
}
VF_HARNESS(flags) {
  // the box of the aperture, given by its part inside the image and how far it sticks out on either side
  int w = side("w"), h = side("h"); float cx = vf_real("cx"), cy = vf_real("cy"), thr = vf_real("limit");
  Region r = region(w, h); int a0 = r.x, b0 = r.y, cw = r.cw, ch = r.ch, a1 = a0 + cw - 1, b1 = b0 + ch - 1;
  int x0 = out("x0", a0, w), y0 = out("y0", b0, h), x1 = out("x1", a1, w), y1 = out("y1", b1, h);
  vf_assume(x0 <= x1 && y0 <= y1);
  vf_name(a0); vf_name(b0); vf_name(a1); vf_name(b1);
  g_a0 = a0; g_b0 = b0; g_a1 = a1; g_b1 = b1; g_n = vf_int("n", 1, 30);
  auto ti = image<float>("thr", w, h); std::vector<PixelCoordinate> list;
#ifdef VF_NATIVE
  for (int k = 0; k < g_n; ++k) list.emplace_back(vf_ifun2("list", 0, k, -3, 12), vf_ifun2("list", 1, k, -3, 12));
#endif
  g_thr = ti.get(); g_list = &list;
  vf_spec_unfold(1);
  vf_inv(cand_area, 1, 2, (long)a0, (long)b0, (long)cw, (double)thr); vf_inv(cand_bad, 1, 2, (long)a0, (long)b0, (long)cw, (double)thr); vf_inv(cand_full, 1, 2, (long)a0, (long)b0, (long)cw, (double)thr);
  Flags f = computeFlags(std::make_shared<AnyAperture>(cx, cy, x0, y0, x1, y1), cx, cy, list, image<float>("img", w, h), image<float>("var", w, h), ti, thr);
  float total = spec_area(ch, 0, a0, b0, cw, thr), bad = spec_bad(ch, 0, a0, b0, cw, thr), full = spec_full(ch, 0, a0, b0, cw, thr);
  bool cut = x0 < 0 || y0 < 0 || x0 >= w || y0 >= h || x1 < 0 || y1 < 0 || x1 >= w || y1 >= h;
  long v = (long)(f);
  vf_assert((v & ~(long)((long)(Flags::BOUNDARY) | (long)(Flags::BIASED) | (long)(Flags::NEIGHBORS))) == 0, "no other flag is set");
  vf_assert(((v & (long)(Flags::BOUNDARY)) != 0) == cut, "the boundary flag says whether the box reaches beyond the image");
  vf_assert(((v & (long)(Flags::BIASED)) != 0) == (total > 0 && bad / total > 0.1f), "the biased flag says whether more than a tenth of the aperture is bad");
  vf_assert(((v & (long)(Flags::NEIGHBORS)) != 0) == (total > 0 && full / total > 0.1f), "the neighbour flag says whether more than a tenth of the aperture belongs to others");
  vf_cover(v != 0, "flagged"); vf_cover(v == 0, "unflagged");
}
