// C06: interpolation over bad pixels
//@ opt interpolate minmax=1
//@ sources SEFramework/src/lib/Image/ImageTile.cpp
#include "vf_images.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
using namespace vfi;
// value of the nearest good pixel to the left or above at distance i or more, the left one first; p[]: what is kept if there is none
extern "C" double spec_nearest(long i, long x, long y, long gap, double thr) {
  if (i > gap) return (float)vf_fun2("img", x, y);
  if (x - i >= 0 && (float)vf_fun2("var", x - i, y) < (float)thr) return (float)vf_fun2("img", x - i, y);
  if (y - i >= 0 && (float)vf_fun2("var", x, y - i) < (float)thr) return (float)vf_fun2("img", x, y - i);
  return spec_nearest(i + 1, x, y, gap, thr);
}
static bool cand_none_yet(long i, long ix, long iy, long x0, long y0, long gap, double thr) {
  return spec_nearest(1, x0 + ix, y0 + iy, gap, thr) == spec_nearest(i, x0 + ix, y0 + iy, gap, thr);
}
VF_HARNESS(interpolate) {
  int w = side("w"), h = side("h"), gap = vf_int("gap", 0, MAXSIDE); float thr = vf_real("thr");
  auto im = image<float>("img", w, h), var = image<float>("var", w, h);
  Region r = region(w, h); int px = r.x + r.gx, py = r.y + r.gy;
  vf_assume((long)r.cw * r.ch <= 200000000);
  bool good = var->pixel(px, py) < thr;
  double e = good ? im->pixel(px, py) : spec_nearest(1, px, py, gap, thr);
  hint2(r, e); vf_spec_unfold(1);
  vf_inv(cand_none_yet, 0, 3, (long)r.x, (long)r.y, (long)gap, (double)thr);
  auto src = std::make_shared<InterpolatedImageSource<float>>(im, var, thr, gap);
  auto tile = src->getImageTile(r.x, r.y, r.cw, r.ch);
  vf_assert(tile->getPosX() == r.x && tile->getPosY() == r.y && tile->getWidth() == r.cw && tile->getHeight() == r.ch, "the tile covers the requested region");
  if (good) vf_assert(tile->getValue<float>(px, py) == e, "a good pixel keeps its value");
  else vf_assert(tile->getValue<float>(px, py) == e, "a bad pixel takes the nearest good pixel to the left or above, within the gap");
  vf_cover(!good, "bad pixel");
}
VF_HARNESS(sizes) {
  int w = side("w"), h = side("h");
  InterpolatedImageSource<float> s(image<float>("img", w, h), image<float>("var", w, h), vf_real("thr"), vf_int("gap", 0, MAXSIDE));
  vf_assert(s.getWidth() == w && s.getHeight() == h && s.getType() == ImageTile::FloatImage, "size and type of the image");
}
