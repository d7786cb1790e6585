// C10: aperture weights, radius and bounding boxes
//@ sources SEFramework/src/lib/Aperture/CircularAperture.cpp SEFramework/src/lib/Aperture/EllipticalAperture.cpp SEFramework/src/lib/Aperture/TransformedAperture.cpp
//@ opt circ_range unroll=3
//@ opt circ_outside unroll=3
//@ opt circ_box unroll=3
//@ opt circ_inside unroll=3
#include "vf_images.h"
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
static const float LIM = 100000;
static float coord(const char* n) { float c = vf_real(n); vf_assume(c >= -LIM && c <= LIM); return c; }
struct Setting { float cx, cy, r; int px, py; };
// any pixel and any centre: the centre is the pixel minus an arbitrary offset
static Setting setting() {
  Setting s; s.px = vf_int("px", -(int)LIM, (int)LIM); s.py = vf_int("py", -(int)LIM, (int)LIM);
  s.cx = s.px - coord("dx"); s.cy = s.py - coord("dy"); s.r = vf_real("r"); vf_assume(s.r > 0 && s.r <= 10000); return s; }
static const double SHARE = 1.0 / 100, EPS = 1e-5;      // 1/100 as the machine represents it; rounding allowed in a sum of 100 of them
static bool cand_range(double v, long x, long y) { return 0 <= v && v <= SHARE * (10 * y + x); }
static bool cand_full(double v, long x, long y) { return v == SHARE * (10 * y + x); }
static bool cand_zero(double v, long, long) { return v == 0; }
VF_HARNESS(circ_range) {
  Setting s = setting(); CircularAperture a(s.r);
  vf_inv(cand_range, 1, 2);
  float w = a.getArea(s.cx, s.cy, s.px, s.py);
  vf_assert(w >= 0 && w <= 1 + EPS, "the weight lies between 0 and 1");
  float d = a.getRadiusSquared(s.cx, s.cy, s.px, s.py), dx = s.px - s.cx, dy = s.py - s.cy;
  vf_assert(vf_eq(d, dx * dx + dy * dy), "the radius is the squared distance");
  vf_cover(w > 0 && w < 1, "border pixel"); vf_cover(w == 0, "outside");
}
// the pixel is the unit square around its centre; its closest point to the centre of the aperture
static float nearest(float d) { return d > 0.5f ? d - 0.5f : d < -0.5f ? d + 0.5f : 0.f; }
static float farthest(float d) { return d > 0 ? d + 0.5f : d - 0.5f; }
VF_HARNESS(circ_outside) {
  Setting s = setting(); CircularAperture a(s.r); float nx = nearest(s.px - s.cx), ny = nearest(s.py - s.cy);
  vf_assume(nx * nx + ny * ny > s.r * s.r);
  vf_inv(cand_zero, 1, 2);
  vf_assert(a.getArea(s.cx, s.cy, s.px, s.py) == 0, "a pixel fully outside has no weight");
}
VF_HARNESS(circ_inside) {
  Setting s = setting(); CircularAperture a(s.r); float nx = farthest(s.px - s.cx), ny = farthest(s.py - s.cy);
  vf_assume(nx * nx + ny * ny <= s.r * s.r);
  vf_inv(cand_full, 1, 2);
  vf_assert(std::abs(a.getArea(s.cx, s.cy, s.px, s.py) - 1) <= EPS, "a pixel fully inside has weight one");
}
VF_HARNESS(circ_box) {
  Setting s = setting(); CircularAperture a(s.r);
  auto lo = a.getMinPixel(s.cx, s.cy), hi = a.getMaxPixel(s.cx, s.cy);
  vf_assume(s.px < lo.m_x || s.py < lo.m_y || s.px > hi.m_x || s.py > hi.m_y);
  vf_inv(cand_zero, 1, 2);
  vf_assert(a.getArea(s.cx, s.cy, s.px, s.py) == 0, "a pixel outside the box has no weight");
}
// an ellipse: cxx, cyy > 0 and cxx*cyy > cxy*cxy/4
VF_HARNESS(ell) {
  Setting s = setting(); float cxx = vf_real("cxx"), cyy = vf_real("cyy"), cxy = vf_real("cxy");
  vf_assume(cxx > 0 && cyy > 0 && 4 * cxx * cyy > cxy * cxy);
  EllipticalAperture a(cxx, cyy, cxy, s.r);
  float dx = s.px - s.cx, dy = s.py - s.cy, q = cxx * dx * dx + cyy * dy * dy + cxy * dx * dy;
  vf_assert(vf_eq(a.getRadiusSquared(s.cx, s.cy, s.px, s.py), q), "the radius is the quadratic form");
  float w = a.getArea(s.cx, s.cy, s.px, s.py);
  vf_assert(w == (a.getRadiusSquared(s.cx, s.cy, s.px, s.py) < s.r * s.r ? 1 : 0), "weight one inside, zero outside");
}
VF_HARNESS(ell_box) {
  Setting s = setting(); float cxx = vf_real("cxx"), cyy = vf_real("cyy"), cxy = vf_real("cxy");
  vf_assume(cxx > 0 && cyy > 0 && 4 * cxx * cyy > cxy * cxy);
  EllipticalAperture a(cxx, cyy, cxy, s.r);
  float w = a.getArea(s.cx, s.cy, s.px, s.py);
  vf_assume(w != 0);
  if (vf_symbolic()) {      // completing the square in either variable
    float dx = s.px - s.cx, dy = s.py - s.cy, e = 4 * cxx * cyy - cxy * cxy;
    vf_assert(e * dx * dx < 4 * cyy * s.r * s.r, "lemma: extent in x"); vf_assume(e * dx * dx < 4 * cyy * s.r * s.r);
    vf_assert(e * dy * dy < 4 * cxx * s.r * s.r, "lemma: extent in y"); vf_assume(e * dy * dy < 4 * cxx * s.r * s.r);
  }
  auto lo = a.getMinPixel(s.cx, s.cy), hi = a.getMaxPixel(s.cx, s.cy);
  vf_assert(lo.m_x <= s.px && s.px <= hi.m_x, "the box contains the columns of weighted pixels");
  vf_assert(lo.m_y <= s.py && s.py <= hi.m_y, "the box contains the rows of weighted pixels");
}
// any aperture: weight and radius arbitrary functions of the offset, any box around the origin; remembers what it was asked
struct AnyAperture : public Aperture {
  int x0, y0, x1, y1; mutable double ax = 0, ay = 0; mutable int asked = 0;
  AnyAperture(int a, int b, int c, int d) : x0(a), y0(b), x1(c), y1(d) {}
  SeFloat ask(int n, SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const { asked = n; ax = x - cx; ay = y - cy; return vf_fun1("answer", n); }
  SeFloat getArea(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { return ask(1, cx, cy, x, y); }
  SeFloat drawArea(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { return ask(2, cx, cy, x, y); }
  SeFloat getRadiusSquared(SeFloat cx, SeFloat cy, SeFloat x, SeFloat y) const override { return ask(3, cx, cy, x, y); }
  PixelCoordinate getMinPixel(SeFloat cx, SeFloat cy) const override { vf_assert(cx == 0 && cy == 0, "the box of the original aperture is taken around the origin"); return PixelCoordinate(x0, y0); }
  PixelCoordinate getMaxPixel(SeFloat cx, SeFloat cy) const override { vf_assert(cx == 0 && cy == 0, "the box of the original aperture is taken around the origin"); return PixelCoordinate(x1, y1); }
};
// transformation matrix (t0 t2; t1 t3), an offset u in the original aperture and the pixel that u is mapped to
struct Mapped { double t0, t1, t2, t3, ux, uy, dx, dy, det; float cx, cy; int px, py; };
static Mapped mapped() {
  Mapped m; m.t0 = vf_real("t0"); m.t1 = vf_real("t1"); m.t2 = vf_real("t2"); m.t3 = vf_real("t3"); m.ux = coord("ux"); m.uy = coord("uy");
  m.det = m.t0 * m.t3 - m.t2 * m.t1; vf_assume(m.det > NAT(0.1, 0) || m.det < NAT(-0.1, 0));
  m.dx = m.ux * m.t0 + m.uy * m.t2; m.dy = m.ux * m.t1 + m.uy * m.t3;
  m.px = vf_int("px", -(int)LIM, (int)LIM); m.py = vf_int("py", -(int)LIM, (int)LIM); m.cx = m.px - m.dx; m.cy = m.py - m.dy; return m;
}
static bool near(double a, double b) { return vf_symbolic() ? a == b : std::abs(a - b) < 1e-2 * (1 + std::abs(a) + std::abs(b)); }
static void seen(int what) {
  Mapped m = mapped(); auto d = std::make_shared<AnyAperture>(-1, -1, 1, 1);
  if (!vf_symbolic()) vf_assume(std::abs(m.px) < 100 && std::abs(m.py) < 100 && std::abs(m.dx) < 100 && std::abs(m.dy) < 100 && std::abs(m.t0) + std::abs(m.t1) + std::abs(m.t2) + std::abs(m.t3) < 10);
  TransformedAperture a(d, std::make_tuple(m.t0, m.t1, m.t2, m.t3));
  float r = what == 1 ? a.getArea(m.cx, m.cy, m.px, m.py) : what == 2 ? a.drawArea(m.cx, m.cy, m.px, m.py) : a.getRadiusSquared(m.cx, m.cy, m.px, m.py);
  vf_assert(d->asked == what && r == (float)vf_fun1("answer", what), "the answer is that of the original aperture");
  vf_assert(near(d->ax, m.ux), "asked at the x that the transformation maps to the pixel");
  vf_assert(near(d->ay, m.uy), "asked at the y that the transformation maps to the pixel");
}
VF_HARNESS(transf_area) { seen(1); }
VF_HARNESS(transf_draw) { seen(2); }
VF_HARNESS(transf_radius) { seen(3); }
VF_HARNESS(transf_box) {
  Mapped m = mapped(); int x0 = vf_int("x0", -NAT(30, 20000), 0), y0 = vf_int("y0", -NAT(30, 20000), 0), x1 = vf_int("x1", 0, NAT(30, 20000)), y1 = vf_int("y1", 0, NAT(30, 20000));
  double e = NAT(0.05, 0);                     // native: away from the border, because of rounding
  vf_assume(m.ux >= x0 + e && m.ux <= x1 - e && m.uy >= y0 + e && m.uy <= y1 - e);
  if (!vf_symbolic()) vf_assume(std::abs(m.px) < 100 && std::abs(m.py) < 100 && std::abs(m.t0) + std::abs(m.t1) + std::abs(m.t2) + std::abs(m.t3) < 10);
  TransformedAperture a(std::make_shared<AnyAperture>(x0, y0, x1, y1), std::make_tuple(m.t0, m.t1, m.t2, m.t3));
  auto lo = a.getMinPixel(m.cx, m.cy), hi = a.getMaxPixel(m.cx, m.cy);
  vf_assert(lo.m_x <= m.px, "left"); vf_assert(lo.m_y <= m.py, "lower"); vf_assert(hi.m_x >= m.px, "right"); vf_assert(hi.m_y >= m.py, "upper");
}
