// C11: aperture photometry
//@ sources SEFramework/src/lib/Aperture/FluxMeasurement.cpp
#include "vf_images.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Source/SourceFlags.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
static const int LIM = 20000;
// any aperture: the weight is an arbitrary function of the pixel, the box any box
struct AnyAperture : public Aperture {
  float cx, cy; int x0, y0, x1, y1; AnyAperture(float cx_, float cy_, int a, int b, int c, int d) : cx(cx_), cy(cy_), x0(a), y0(b), x1(c), y1(d) {}
  void same(SeFloat x, SeFloat y) const { vf_assert(x == cx && y == cy, "the aperture is asked around the given centre"); }
  SeFloat getArea(SeFloat x, SeFloat y, SeFloat px, SeFloat py) const override { same(x, y); return vf_fun2("area", px, py); }
  SeFloat drawArea(SeFloat, SeFloat, SeFloat, SeFloat) const override { return 0; }
  SeFloat getRadiusSquared(SeFloat, SeFloat, SeFloat, SeFloat) const override { return 0; }
  PixelCoordinate getMinPixel(SeFloat x, SeFloat y) const override { same(x, y); return PixelCoordinate(x0, y0); }
  PixelCoordinate getMaxPixel(SeFloat x, SeFloat y) const override { same(x, y); return PixelCoordinate(x1, y1); }
};
static inline double area(long x, long y) { return (float)vf_fun2("area", x, y); }
static inline float var(long x, long y) { return (float)vf_fun2("var", x, y); }
static inline float img(long x, long y) { return (float)vf_fun2("img", x, y); }
// what pixel (x,y) contributes; (x0,y0,w,h): the part of the box inside the image; (cx,cy): the centre relative to it
static inline double part(int what, long x, long y, long x0, long y0, long w, long h, double cx, double cy, double thr, long sym) {
  float a = area(x, y), t = (float)thr;
  if (what == 0) return a;
  bool bad = var(x, y) > t;
  if (what == 1) return a != 0 && bad ? 1 : 0;
  if (!bad) return (what == 2 ? img(x, y) : var(x, y)) * a;
  if (!sym) return 0;
  // the point-symmetric pixel, rounded to the nearest one
  long mx = (long)std::floor((float)(2 * cx - (x - x0) + 0.49999)), my = (long)std::floor((float)(2 * cy - (y - y0) + 0.49999));
  if (mx < 0 || my < 0 || mx >= w || my >= h || !(var(x0 + mx, y0 + my) < t)) return 0;
  return (what == 2 ? img(x0 + mx, y0 + my) : var(x0 + mx, y0 + my)) * a;
}
// sum over the pixels before (i,j) of the clipped box, row by row
#ifdef VF_NATIVE
static double sum(int what, long j, long i, long x0, long y0, long w, long h, double cx, double cy, double thr, long sym) {
  double s = 0; for (long b = 0; b <= j; ++b) for (long a = 0; a < (b < j ? w : i); ++a) s += part(what, x0 + a, y0 + b, x0, y0, w, h, cx, cy, thr, sym); return s; }
#define SUM(n, k) static double spec_##n(long j, long i, long x0, long y0, long w, long h, double cx, double cy, double thr, long sym) { return sum(k, j, i, x0, y0, w, h, cx, cy, thr, sym); }
#else
#define SUM(n, k) extern "C" double spec_##n(long j, long i, long x0, long y0, long w, long h, double cx, double cy, double thr, long sym) { \
  if (i > 0) return spec_##n(j, i - 1, x0, y0, w, h, cx, cy, thr, sym) + part(k, x0 + i - 1, y0 + j, x0, y0, w, h, cx, cy, thr, sym); \
  if (j > 0) return spec_##n(j - 1, w, x0, y0, w, h, cx, cy, thr, sym); \
  return 0.; }
#endif
#define CAND(n) static bool cand_##n(double v, long i, long j, long x0, long y0, long w, long h, double cx, double cy, double thr, long sym) { return v == spec_##n(j, i, x0, y0, w, h, cx, cy, thr, sym); }
SUM(area, 0) SUM(bad, 1) SUM(flux, 2) SUM(variance, 3)
CAND(area) CAND(bad) CAND(flux) CAND(variance)
static int clip(int v, int n) { return v < 0 ? 0 : v >= n ? n - 1 : v; }
static void measure(int what, bool sym) {
  int w = side("w"), h = side("h"); float cx = vf_real("cx"), cy = vf_real("cy"), thr = vf_real("thr");
  int x0 = vf_int("x0", -NAT(12, LIM), NAT(12, LIM)), y0 = vf_int("y0", -NAT(12, LIM), NAT(12, LIM)), x1 = vf_int("x1", x0, x0 + NAT(12, LIM)), y1 = vf_int("y1", y0, y0 + NAT(12, LIM));
  vf_assume(x1 >= 0 && y1 >= 0 && x0 < w && y0 < h);
  int a0 = clip(x0, w), b0 = clip(y0, h), a1 = clip(x1, w), b1 = clip(y1, h); long cw = a1 - a0 + 1, ch = b1 - b0 + 1; float rx = cx - a0, ry = cy - b0;
  vf_spec_unfold(1);
  if (what == 0) { vf_inv(cand_area, 1, 2, (long)a0, (long)b0, cw, ch, (double)rx, (double)ry, (double)thr, (long)sym); }
  if (what == 1) { vf_inv(cand_bad, 1, 2, (long)a0, (long)b0, cw, ch, (double)rx, (double)ry, (double)thr, (long)sym); }
  if (what == 2) { vf_inv(cand_flux, 1, 2, (long)a0, (long)b0, cw, ch, (double)rx, (double)ry, (double)thr, (long)sym); }
  if (what == 3) { vf_inv(cand_variance, 1, 2, (long)a0, (long)b0, cw, ch, (double)rx, (double)ry, (double)thr, (long)sym); }
  auto m = measureFlux(std::make_shared<AnyAperture>(cx, cy, x0, y0, x1, y1), cx, cy, image<float>("img", w, h), image<float>("var", w, h), thr, sym);
  if (what == 0) vf_assert(vf_eq(m.m_total_area, spec_area(ch, 0, a0, b0, cw, ch, rx, ry, thr, sym)), "the total area is the sum of the weights inside the image");
  if (what == 1) vf_assert(m.m_bad_area == (float)spec_bad(ch, 0, a0, b0, cw, ch, rx, ry, thr, sym), "the bad area counts the aperture's pixels above the variance threshold");
  if (what == 2) vf_assert(vf_eq(m.m_flux, spec_flux(ch, 0, a0, b0, cw, ch, rx, ry, thr, sym)), "the flux is the weighted sum over the usable pixels");
  if (what == 3) vf_assert(vf_eq(m.m_variance, spec_variance(ch, 0, a0, b0, cw, ch, rx, ry, thr, sym)), "the variance is the weighted sum over the usable pixels");
}
VF_HARNESS(total) { measure(0, vf_bool("sym")); }
VF_HARNESS(bad) { measure(1, vf_bool("sym")); }
VF_HARNESS(flux) { measure(2, false); }
VF_HARNESS(variance) { measure(3, false); }
VF_HARNESS(flux_mirrored) { measure(2, true); }
VF_HARNESS(variance_mirrored) { measure(3, true); }
// entirely outside the image: nothing is measured
VF_HARNESS(outside) {
  int w = side("w"), h = side("h"); float cx = vf_real("cx"), cy = vf_real("cy"), thr = vf_real("thr");
  int x0 = vf_int("x0", -LIM, LIM), y0 = vf_int("y0", -LIM, LIM), x1 = vf_int("x1", x0, x0 + LIM), y1 = vf_int("y1", y0, y0 + LIM);
  vf_assume(x1 < 0 || y1 < 0 || x0 >= w || y0 >= h);
  auto m = measureFlux(std::make_shared<AnyAperture>(cx, cy, x0, y0, x1, y1), cx, cy, image<float>("img", w, h), image<float>("var", w, h), thr, vf_bool("sym"));
  vf_assert(m.m_flux == 0 && m.m_variance == 0 && m.m_total_area == 0 && m.m_bad_area == 0, "nothing is measured outside the image");
  vf_assert(m.m_flags == Flags::OUTSIDE, "the measurement is flagged as outside");
}
