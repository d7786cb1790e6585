// C01: PaddedImage and the border coordinate rules.
#define VF_ACCESSOR_CONTRACT
#include "vf_images.h"
#include "SEFramework/Image/PaddedImage.h"
using namespace vfi;
static const int R = 1000000;   // positions considered
// --- the rules, defined by the symmetries of the padded image (together they determine the value everywhere)
VF_HARNESS(rule_replicate) {
  int n = vf_int("n", 1, R), v = vf_int("v", -R, R);
  int r = ReplicateCoordinates(n, v);
  vf_assert(r == (v < 0 ? 0 : v >= n ? n - 1 : v), "nearest edge pixel");
}
VF_HARNESS(rule_wrap) {
  int n = vf_int("n", 1, R), v = vf_int("v", -R, R);
  int r = WrapCoordinates(n, v);
  vf_assert(r >= 0 && r < n, "inside the image");
  vf_assert((v - r) % n == 0, "same position modulo the size");
}
VF_HARNESS(rule_reflect) {
  int n = vf_int("n", 1, R), v = vf_int("v", -R, R);
  int r = ReflectCoordinates(n, v);
  vf_assert(r >= 0 && r < n, "inside the image");
  if (v >= 0 && v < n) vf_assert(r == v, "identity inside");
  // mirrored at -1/2 and n-1/2: v and r differ by a multiple of 2n, or sum up to one less than a multiple of 2n
  vf_assert((v - r) % (2 * n) == 0 || (v + r + 1) % (2 * n) == 0, "mirror position including the edge pixel");
}
VF_HARNESS(rule_reflect101) {
  int m = vf_int("m", 0, R), n = m + 1, v = vf_int("v", -R, R);
  int r = Reflect101Coordinates(n, v);
  vf_assert(r >= 0 && r < n, "inside the image");
  if (v >= 0 && v < n) vf_assert(r == v, "identity inside");
  if (m > 0) vf_assert((v - r) % (2 * m) == 0 || (v + r) % (2 * m) == 0, "mirror position excluding the edge pixel");
}
// --- the image applies its rule at every position of every requested region
template <int F(int, int)> static void padded() {
  int w = side("w"), h = side("h"), W = vf_int("W", w, MAXSIDE), H = vf_int("H", h, MAXSIDE);
  auto im = image<float>("img", w, h);
  auto p = PaddedImage<float, F>::create(im, W, H);
  vf_assert(p->getWidth() == W && p->getHeight() == H, "size of the padded image");
  int x = vf_int("x", 0, W - 1), y = vf_int("y", 0, H - 1), cw = vf_int("cw", 1, W - x), ch = vf_int("ch", 1, H - y);
  int gx = vf_int("gx", 0, cw - 1), gy = vf_int("gy", 0, ch - 1);
  int lp = (W - w) / 2, tp = (H - h) / 2;
  int ox = F(w, x + gx - lp), oy = F(h, y + gy - tp);
  vf_index(gx + gy * cw); vf_ghost(gx); vf_ghost(gy); vf_valuef(im->pixel(ox, oy));
  auto c = p->getChunk(x, y, cw, ch);
  vf_assert(c->getWidth() == cw && c->getHeight() == ch, "size of the region");
  vf_assert(vf_eq(c->getValue(gx, gy), im->pixel(ox, oy)), "pixel given by the border rule");
}
// any rule at all that keeps its contract "the result is a coordinate of the image" (proved above for each rule)
static int AnyRule(int n, int v) { int r = vf_ifun2("rule", n, v, 0, 2000000000); if (!vf_symbolic()) r %= n; else vf_assume(r < n); return r; }
VF_HARNESS(padded_any_rule) { padded<AnyRule>(); }
//@ native padded_reflect instances of padded_any_rule, run natively
//@ native padded_reflect101 instances of padded_any_rule, run natively
//@ native padded_wrap instances of padded_any_rule, run natively
VF_HARNESS(padded_replicate) { padded<ReplicateCoordinates>(); }
VF_HARNESS(padded_reflect) { padded<ReflectCoordinates>(); }
VF_HARNESS(padded_reflect101) { padded<Reflect101Coordinates>(); }
VF_HARNESS(padded_wrap) { padded<WrapCoordinates>(); }
VF_HARNESS(padded_constant) {
  int w = side("w"), h = side("h"), W = vf_int("W", w, MAXSIDE), H = vf_int("H", h, MAXSIDE);
  auto im = image<float>("img", w, h);
  float d = vf_real("default");
  bool withdef = vf_bool("withdef");
  auto p = withdef ? PaddedImage<float>::create(im, W, H, d) : PaddedImage<float>::create(im, W, H);
  if (!withdef) d = 0;
  vf_assert(p->getWidth() == W && p->getHeight() == H, "size of the padded image");
  int x = vf_int("x", 0, W - 1), y = vf_int("y", 0, H - 1), cw = vf_int("cw", 1, W - x), ch = vf_int("ch", 1, H - y);
  int gx = vf_int("gx", 0, cw - 1), gy = vf_int("gy", 0, ch - 1);
  int ox = x + gx - (W - w) / 2, oy = y + gy - (H - h) / 2;
  float expect = ox >= 0 && oy >= 0 && ox < w && oy < h ? im->pixel(ox, oy) : d;
  vf_index(gx + gy * cw); vf_ghost(gx); vf_ghost(gy); vf_valuef(expect);
  auto c = p->getChunk(x, y, cw, ch);
  vf_assert(c->getWidth() == cw && c->getHeight() == ch, "size of the region");
  vf_assert(vf_eq(c->getValue(gx, gy), expect), "original pixel inside, the constant outside");
}
