// C05: ImageAccessor. Class invariant: no chunk is cached, or the cached chunk shows exactly the pixels
// m_chunk_min..m_chunk_max of the image. Every read preserves it and returns the image's own pixel.
#include "vf_images.h"
using namespace vfi;
typedef ImageAccessor<float> Acc;
static Acc::AccessHint hint(int h) { return h == 0 ? Acc::TOP_LEFT : h == 1 ? Acc::CENTERED : Acc::BOTTOM_RIGHT; }
static void check_state(Acc& a, const AbsImage<float>& im, int gx, int gy) {
  if (!a.m_chunk) return;
  vf_assert(a.m_chunk_min.m_x >= 0 && a.m_chunk_min.m_y >= 0 && a.m_chunk_max.m_x < im.w && a.m_chunk_max.m_y < im.h, "cached region inside the image");
  int cw = a.m_chunk_max.m_x - a.m_chunk_min.m_x + 1, ch = a.m_chunk_max.m_y - a.m_chunk_min.m_y + 1;
  vf_assert(a.m_chunk->getWidth() == cw && a.m_chunk->getHeight() == ch, "cached region has the size of the cached chunk");
  if (gx >= 0 && gy >= 0 && gx < cw && gy < ch)
    vf_assert(vf_eq(a.m_chunk->getValue(gx, gy), im.pixel(a.m_chunk_min.m_x + gx, a.m_chunk_min.m_y + gy)), "cached chunk shows the cached region");
}
VF_HARNESS(accessor_first_read) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
  int gx = vf_int("gx", 0, MAXSIDE), gy = vf_int("gy", 0, MAXSIDE);
  Acc a(im, hint(vf_int("hint", 0, 2)), vf_int("rw", 1, MAXSIDE), vf_int("rh", 1, MAXSIDE));
  vf_assert(a.getWidth() == w && a.getHeight() == h, "size of the image");
  float v = vf_bool("coord") ? a.getValue(PixelCoordinate(x, y)) : a.getValue(x, y);
  vf_assert(vf_eq(v, im->pixel(x, y)), "the pixel of the image");
  check_state(a, *im, gx, gy);
}
static void any_read(Acc::AccessHint ht, bool coord) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
  int gx = vf_int("gx", 0, MAXSIDE), gy = vf_int("gy", 0, MAXSIDE);
  Acc a(*im, ht, vf_int("rw", 1, MAXSIDE), vf_int("rh", 1, MAXSIDE));
  int ax = vf_int("ax", 0, w - 1), ay = vf_int("ay", 0, h - 1), bx = vf_int("bx", ax, w - 1), by = vf_int("by", ay, h - 1);
  a.m_chunk = im->getChunk(ax, ay, bx - ax + 1, by - ay + 1);
  a.m_chunk_min = PixelCoordinate(ax, ay); a.m_chunk_max = PixelCoordinate(bx, by);
  float v = coord ? a.getValue(PixelCoordinate(x, y)) : a.getValue(x, y);
  vf_assert(vf_eq(v, im->pixel(x, y)), "the pixel of the image");
  check_state(a, *im, gx, gy);
}
VF_HARNESS(accessor_any_read_tl) { any_read(Acc::TOP_LEFT, false); }
VF_HARNESS(accessor_any_read_c) { any_read(Acc::CENTERED, false); }
VF_HARNESS(accessor_any_read_br) { any_read(Acc::BOTTOM_RIGHT, false); }
VF_HARNESS(accessor_any_read_coord_tl) { any_read(Acc::TOP_LEFT, true); }
VF_HARNESS(accessor_any_read_coord_c) { any_read(Acc::CENTERED, true); }
VF_HARNESS(accessor_any_read_coord_br) { any_read(Acc::BOTTOM_RIGHT, true); }
VF_HARNESS(accessor_region) {
  int w = side("w"), h = side("h");
  auto im = image<float>("img", w, h);
  int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1), cw = vf_int("cw", 1, w - x), ch = vf_int("ch", 1, h - y);
  int gx = vf_int("gx", 0, cw - 1), gy = vf_int("gy", 0, ch - 1);
  Acc a(im);
  auto c = a.getChunk(x, y, cw, ch);
  vf_assert(c->getWidth() == cw && c->getHeight() == ch, "size of the region");
  vf_assert(vf_eq(c->getValue(gx, gy), im->pixel(x + gx, y + gy)), "pixels of the region");
}
// a sequence of reads, as a user makes them
//@ native accessor_sequence sequences of up to 12 reads on images up to about 30x30
VF_HARNESS(accessor_sequence) {
  int w = vf_int("w", 1, 30), h = vf_int("h", 1, 30);
  auto im = image<float>("img", w, h);
  Acc a(im, hint(vf_int("hint", 0, 2)), vf_int("rw", 1, 40), vf_int("rh", 1, 40));
  int n = vf_int("n", 1, 12);
  for (int i = 0; i < n; i++) {
    int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
    float v = vf_bool("coord") ? a.getValue(PixelCoordinate(x, y)) : a.getValue(x, y);
    vf_assert(vf_eq(v, im->pixel(x, y)), "the pixel of the image");
  }
}
