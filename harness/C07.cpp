// C07: convolution of the detection image with the filter
//@ sources SEFramework/src/lib/Image/ImageTile.cpp SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp
//@ opt point minmax=1
//@ opt tile21first minmax=1 nopf=1
//@ bounded tile21first requested region of 2 x 1 pixels (kernel, image and position arbitrary)
//@ opt tile21last minmax=1 nopf=1
//@ bounded tile21last requested region of 2 x 1 pixels (kernel, image and position arbitrary)
//@ opt tile12first minmax=1 nopf=1
//@ bounded tile12first requested region of 1 x 2 pixels (kernel, image and position arbitrary)
//@ opt tile12last minmax=1 nopf=1
//@ bounded tile12last requested region of 1 x 2 pixels (kernel, image and position arbitrary)
//@ native tiles regions and kernels of any shape, sampled
#define VF_ACCESSOR_CONTRACT
#include "vf_images.h"
#include "SEImplementation/Segmentation/BgConvolutionImageSource.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
// does the kernel cell (cx,cy) placed on pixel (x,y) count: inside the image and below the threshold
static inline bool usable(long cx, long cy, long x, long y, long w, long h, double thr) {
  return x + cx >= 0 && y + cy >= 0 && x + cx < w && y + cy < h && (float)vf_fun2("var", x + cx, y + cy) < (float)thr;
}
// sum over the kernel cells before (cx,cy), row by row; (x,y): the pixel under cell (0,0)
#ifdef VF_NATIVE
static double spec_sum(bool img, long cy, long cx, long x, long y, long kw, long w, long h, double thr) {
  double s = 0; for (long j = 0; j <= cy; ++j) for (long i = 0; i < (j < cy ? kw : cx); ++i) if (usable(i, j, x, y, w, h, thr)) s += (img ? vf_fun2("img", x + i, y + j) : 1.) * vf_fun2("ker", i, j);
  return s;
}
static double spec_total(long cy, long cx, long x, long y, long kw, long w, long h, double thr) { return spec_sum(true, cy, cx, x, y, kw, w, h, thr); }
static double spec_weight(long cy, long cx, long x, long y, long kw, long w, long h, double thr) { return spec_sum(false, cy, cx, x, y, kw, w, h, thr); }
#else
extern "C" double spec_total(long cy, long cx, long x, long y, long kw, long w, long h, double thr) {
  if (cx > 0) return spec_total(cy, cx - 1, x, y, kw, w, h, thr) + (usable(cx - 1, cy, x, y, w, h, thr) ? vf_fun2("img", x + cx - 1, y + cy) * vf_fun2("ker", cx - 1, cy) : 0.);
  if (cy > 0) return spec_total(cy - 1, kw, x, y, kw, w, h, thr);
  return 0.;
}
extern "C" double spec_weight(long cy, long cx, long x, long y, long kw, long w, long h, double thr) {
  if (cx > 0) return spec_weight(cy, cx - 1, x, y, kw, w, h, thr) + (usable(cx - 1, cy, x, y, w, h, thr) ? vf_fun2("ker", cx - 1, cy) : 0.);
  if (cy > 0) return spec_weight(cy - 1, kw, x, y, kw, w, h, thr);
  return 0.;
}
#endif
static bool cand_total(double v, long cx, long cy, long x, long y, long kw, long w, long h, double thr) { return v == spec_total(cy, cx, x, y, kw, w, h, thr); }
static bool cand_weight(double v, long cx, long cy, long x, long y, long kw, long w, long h, double thr) { return v == spec_weight(cy, cx, x, y, kw, w, h, thr); }
static std::shared_ptr<VectorImage<float>> any_kernel(int kw, int kh, const char* n) {
  auto k = VectorImage<float>::create(kw, kh); vf_fill2f(k->m_data->data(), kw, kh, n, 0, 0); return k;
}
// the value of pixel (px,py) of a tile covering region r, for an arbitrary kernel of kw x kh cells
static void filter(const Region& r, int w, int h, int kw, int kh) {
  int hx = kw / 2, hy = kh / 2; float thr = vf_real("thr"); int px = r.x + r.gx, py = r.y + r.gy;
  auto im = image<float>("img", w, h), var = image<float>("var", w, h);
  vf_assume((long)(r.cw + 1000) * (r.ch + 1000) <= 200000000);
  bool good = var->pixel(px, py) < thr;
  double t = spec_total(kh, 0, px - hx, py - hy, kw, w, h, thr), n = spec_weight(kh, 0, px - hx, py - hy, kw, w, h, thr);
  if (good) vf_assume(n != 0);      // so for a kernel with a positive centre and no negative weight
  float e = good ? (float)(t / n) : 0.f;
  hint2(r, e);
  vf_spec_unfold(1);
  vf_inv(cand_total, 1, 2, (long)(px - hx), (long)(py - hy), (long)kw, (long)w, (long)h, (double)thr);
  vf_inv(cand_weight, 1, 2, (long)(px - hx), (long)(py - hy), (long)kw, (long)w, (long)h, (double)thr);
  auto src = std::make_shared<BgConvolutionImageSource>(im, var, thr, any_kernel(1, 1, "one"));
  src->m_kernel = any_kernel(kw, kh, "ker");       // what the constructor stores: contract kernel
  auto tile = src->getImageTile(r.x, r.y, r.cw, r.ch);
  vf_assert(tile->getPosX() == r.x && tile->getPosY() == r.y && tile->getWidth() == r.cw && tile->getHeight() == r.ch, "the tile covers the requested region");
  if (good) vf_assert(vf_eq(tile->getValue<float>(px, py), e), "weighted mean over the usable pixels of the image");
  else vf_assert(tile->getValue<float>(px, py) == 0, "an unusable pixel becomes zero");
  vf_cover(good, "usable"); vf_cover(!good, "unusable");
}
// one pixel, a kernel of any size
VF_HARNESS(point) {
  int w = side("w"), h = side("h"), hx = vf_int("hx", 0, NAT(4, 500)), hy = vf_int("hy", 0, NAT(4, 500));
  Region r; r.x = vf_int("x", 0, w - 1); r.y = vf_int("y", 0, h - 1); r.cw = r.ch = 1; r.gx = r.gy = 0;
  filter(r, w, h, 2 * hx + 1, 2 * hy + 1);
}
// the value does not depend on the tile
static void tile(int cw, int ch, bool last) {
  int w = vf_int("w", cw, MAXSIDE), h = vf_int("h", ch, MAXSIDE), hx = vf_int("hx", 0, NAT(4, 500)), hy = vf_int("hy", 0, NAT(4, 500));
  Region r; r.x = vf_int("x", 0, w - cw); r.y = vf_int("y", 0, h - ch); r.cw = cw; r.ch = ch; r.gx = last ? cw - 1 : 0; r.gy = last ? ch - 1 : 0;
  filter(r, w, h, 2 * hx + 1, 2 * hy + 1);
}
VF_HARNESS(tile21first) { tile(2, 1, false); }
VF_HARNESS(tile21last) { tile(2, 1, true); }
VF_HARNESS(tile12first) { tile(1, 2, false); }
VF_HARNESS(tile12last) { tile(1, 2, true); }
VF_HARNESS(tiles) { int w = side("w"), h = side("h"); Region r = region(w, h); int hx = vf_int("hx", 0, NAT(4, 500)), hy = vf_int("hy", 0, NAT(4, 500)); filter(r, w, h, 2 * hx + 1, 2 * hy + 1); }
// the constructor stores the point-mirrored kernel
VF_HARNESS(kernel) {
  int kw = vf_int("kw", 1, NAT(9, 1001)), kh = vf_int("kh", 1, NAT(9, 1001)), gx = vf_int("gx", 0, kw - 1), gy = vf_int("gy", 0, kh - 1);
  auto im = image<float>("img", 7, 5), var = image<float>("var", 7, 5); float thr = vf_real("thr");
  vf_ghost(gx); vf_ghost(gy); vf_index(gx + (long)gy * kw); float e = (float)vf_fun2("ker", kw - 1 - gx, kh - 1 - gy); vf_valuef(e);
  BgConvolutionImageSource src(im, var, thr, any_kernel(kw, kh, "ker"));
  vf_assert(src.m_kernel->getWidth() == kw && src.m_kernel->getHeight() == kh, "the stored kernel has the size of the given one");
  vf_assert(src.m_kernel->getValue(gx, gy) == e, "cell (i,j) of the stored kernel is cell (kw-1-i, kh-1-j) of the given one");
  vf_assert(src.m_threshold == thr, "the threshold is kept");
}
