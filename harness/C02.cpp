// C02: MirrorImage, RecenterImage, SubImage.
#define VF_ACCESSOR_CONTRACT
#include "vf_images.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/SubImage.h"
using namespace vfi;
VF_HARNESS(mirror) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  auto m = MirrorImage<float>::create(im);
  vf_assert(m->getWidth() == w && m->getHeight() == h, "size of the view");
  Region r = region(w, h);
  float e = im->pixel(w - 1 - (r.x + r.gx), h - 1 - (r.y + r.gy));
  hint2(r, e);
  auto c = m->getChunk(r.x, r.y, r.cw, r.ch);
  vf_assert(c->getWidth() == r.cw && c->getHeight() == r.ch, "size of the region");
  vf_assert(vf_eq(c->getValue(r.gx, r.gy), e), "pixel reflected through the centre");
}
VF_HARNESS(recenter) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  int cx = vf_int("cx", 0, w - 1), cy = vf_int("cy", 0, h - 1);
  auto m = RecenterImage<float>::create(im, PixelCoordinate(cx, cy));
  vf_assert(m->getWidth() == w && m->getHeight() == h, "size of the view");
  Region r = region(w, h);
  int px = r.x + r.gx + cx, py = r.y + r.gy + cy;
  float e = im->pixel(px >= w ? px - w : px, py >= h ? py - h : py);
  hint2(r, e);
  auto c = m->getChunk(r.x, r.y, r.cw, r.ch);
  vf_assert(c->getWidth() == r.cw && c->getHeight() == r.ch, "size of the region");
  vf_assert(vf_eq(c->getValue(r.gx, r.gy), e), "pixel of the cyclically shifted image");
}
static void sub(bool coord) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  int ox = vf_int("ox", 0, w - 1), oy = vf_int("oy", 0, h - 1), sw = vf_int("sw", 1, w - ox), sh = vf_int("sh", 1, h - oy);
  auto m = coord ? SubImage<float>::create(im, PixelCoordinate(ox, oy), sw, sh) : SubImage<float>::create(im, ox, oy, sw, sh);
  vf_assert(m->getWidth() == sw && m->getHeight() == sh, "size of the view");
  Region r = region(sw, sh);
  auto c = m->getChunk(r.x, r.y, r.cw, r.ch);
  vf_assert(c->getWidth() == r.cw && c->getHeight() == r.ch, "size of the region");
  vf_assert(vf_eq(c->getValue(r.gx, r.gy), im->pixel(ox + r.x + r.gx, oy + r.y + r.gy)), "pixel of the rectangle");
}
VF_HARNESS(sub_coord) { sub(true); }
VF_HARNESS(sub_xy) { sub(false); }
