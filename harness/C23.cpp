// C23: adding an image to a frame
//@ sources SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
#include "vf_images.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
using Tr = ModelFitting::ImageTraits<ImageInterfaceTypePtr>;
static ImageInterfaceTypePtr stored(const char* n, int w, int h) { auto k = VectorImage<float>::create(w, h); vf_fill2f(k->m_data->data(), w, h, n, 0, 0); return k; }
// unit scale, aligned to the pixels: the source's pixel (0,0) falls on the frame's pixel (xi,yi)
static void copy(int MODE) {
  int W = side("W"), H = side("H"), w = vf_int("w", 1, NAT(14, MAXSIDE)), h = vf_int("h", 1, NAT(14, MAXSIDE)), gx = vf_int("gx", 0, W - 1), gy = vf_int("gy", 0, H - 1);
  int p = vf_int("p", MODE == 3 ? -NAT(20, 30000) : 0, MODE == 3 ? NAT(20, 30000) : w - 1), q = vf_int("q", MODE == 3 ? -NAT(20, 30000) : 0, MODE == 3 ? NAT(20, 30000) : h - 1), xi = gx - p, yi = gy - q;
  auto frame = stored("frame", W, H), src = stored("src", w, h);
  bool ip = p - 3 >= 0 & p + 4 < w, iq = q - 3 >= 0 & q + 4 < h, in = ip & iq;
  if (MODE == 0) vf_assume(in);
  if (MODE == 1) vf_assume(iq & p < 3);
  if (MODE == 4) vf_assume(iq & p + 4 >= w);
  if (MODE == 5) vf_assume(q + 4 >= h);
  if (MODE == 2) vf_assume(q < 3);
  if (MODE == 3) vf_assume(p < 0 | p >= w | q < 0 | q >= h);
  float before = vf_fun2("frame", gx, gy), add = in ? (float)vf_fun2("src", p, q) : 0.f;
  vf_index(gx + (long)gy * W); vf_index(q + (long)p * h); vf_index(p + (long)q * w);
  if (MODE == 0) { vf_valuef((float)vf_fun2("src", p, q)); vf_ghost(gx); vf_ghost(gy); vf_ghost(p); vf_ghost(q); vf_valuef(add); vf_valuef(before + add); }
  Tr::addImageToImage(frame, src, 1.0, xi + w / 2., yi + h / 2.);
  vf_assert(vf_eq(frame->at(gx, gy), before + add), "the source's pixels are copied to their place and nothing else changes");
  vf_cover(MODE ? !in : in, "reached");
}
VF_HARNESS(copy_inside) { copy(0); }
VF_HARNESS(copy_left) { copy(1); }
VF_HARNESS(copy_right) { copy(4); }
VF_HARNESS(copy_top) { copy(2); }
VF_HARNESS(copy_bottom) { copy(5); }
VF_HARNESS(copy_outside) { copy(3); }
// any scale and position: reads stay inside the source, pixels outside the footprint stay as they are
static void scaled(int MODE) {
  int W = side("W"), H = side("H"), w = vf_int("w", 2, NAT(14, 16000)), h = vf_int("h", 2, NAT(14, 16000)), gx = vf_int("gx", 0, W - 1), gy = vf_int("gy", 0, H - 1);
  vf_assume(W > 1 & H > 1);
  double s = vf_real("scale"), x = vf_real("x"), y = vf_real("y");
  vf_assume(s >= 1. / 8 & s <= 2 & x >= -NAT(20, 30000) & x <= NAT(40, 60000) & y >= -NAT(20, 30000) & y <= NAT(40, 60000));
  vf_assert((w * s > 0) & (h * s > 0) & (w * s <= 32000) & (h * s <= 32000), "lemma: size of the footprint");
  vf_assume((w * s > 0) & (h * s > 0) & (w * s <= 32000) & (h * s <= 32000));
  if (MODE == 0) vf_assume((double)gx + 1 <= x - w * s / 2.);
  if (MODE == 1) vf_assume((double)gx >= x + w * s / 2.);
  if (MODE == 2) vf_assume((double)gy + 1 <= y - h * s / 2.);
  if (MODE == 3) vf_assume((double)gy >= y + h * s / 2.);
  auto frame = stored("frame", W, H), src = stored("src", w, h);
  if (MODE < 4) vf_index(gx + (long)gy * W);
  Tr::addImageToImage(frame, src, s, x, y);
  if (MODE < 4) vf_assert(vf_eq(frame->at(gx, gy), (float)vf_fun2("frame", gx, gy)), "pixels outside the footprint stay as they are");
  vf_cover(w > 9, "reached");
}
VF_HARNESS(scaled_left) { scaled(0); }
VF_HARNESS(scaled_right) { scaled(1); }
VF_HARNESS(scaled_above) { scaled(2); }
VF_HARNESS(scaled_below) { scaled(3); }
VF_HARNESS(scaled_reads) { scaled(4); }
