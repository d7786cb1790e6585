// C04: VectorImage, ImageChunk, UniversalImageChunk, ImageTile.
//@ sources SEFramework/src/lib/Image/ImageTile.cpp
#include "vf_images.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ImageTile.h"
#include "SEFramework/Image/ImageSource.h"
using namespace vfi;
static std::vector<float> data(long n) { std::vector<float> v((size_t)n); vf_fillf(v.data(), n, "d"); return v; }
VF_HARNESS(vector_write_read) {
  int w = side("w"), h = side("h");
  auto im = VectorImage<float>::create(w, h, data((long)w * h));
  vf_assert(im->getWidth() == w && im->getHeight() == h, "size");
  int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1);
  int kx = vf_int("kx", 0, w - 1), ky = vf_int("ky", 0, h - 1);
  float v = vf_real("v"), u = vf_real("u");
  vf_assert(vf_eq(im->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "the value it was built from");
  im->setValue(x, y, v);
  vf_assert(vf_eq(im->getValue(gx, gy), gx == x && gy == y ? v : (float)vf_fun1("d", gx + (long)gy * w)), "last value written, nothing else changed");
  im->setValue(PixelCoordinate(kx, ky), u);
  float e = gx == kx && gy == ky ? u : gx == x && gy == y ? v : (float)vf_fun1("d", gx + (long)gy * w);
  vf_assert(vf_eq(im->getValue(PixelCoordinate(gx, gy)), e), "last value written by coordinate");
  vf_assert(vf_eq(im->at(gx, gy), e), "at()");
  vf_assert(vf_eq(im->getData()[gx + (long)gy * w], e), "row-major data");
}
VF_HARNESS(vector_new_is_zero) {
  int w = side("w"), h = side("h"), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1);
  auto im = VectorImage<float>::create(w, h);
  vf_assert(im->getWidth() == w && im->getHeight() == h, "size");
  vf_assert(im->getValue(gx, gy) == 0, "zero");
  float v = vf_real("v"); vf_valuef(v); vf_index(gx + (long)gy * w); vf_ghost(gx + (long)gy * w);
  im->fillValue(v);
  vf_assert(vf_eq(im->getValue(gx, gy), v), "filled");
}
VF_HARNESS(vector_from_range) {
  int w = side("w"), h = side("h"), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1);
  auto d = data((long)w * h);
  auto im = VectorImage<float>::create(w, h, d.begin(), d.end());
  vf_assert(vf_eq(im->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "the value it was built from");
}
VF_HARNESS(vector_copy_independent) {
  int w = side("w"), h = side("h"), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1), x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
  auto im = VectorImage<float>::create(w, h, data((long)w * h));
  auto cp = VectorImage<float>::create(*im);
  vf_assert(cp->getWidth() == w && cp->getHeight() == h, "size of the copy");
  vf_assert(vf_eq(cp->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "value of the copy");
  float v = vf_real("v");
  if (vf_bool("which")) {
    im->setValue(x, y, v);
    vf_assert(vf_eq(cp->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "the copy does not follow the source");
  } else {
    cp->setValue(x, y, v);
    vf_assert(vf_eq(im->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "the source does not follow the copy");
  }
}
static void from_image(bool universal, bool pointer) {
  int w = side("w"), h = side("h"); Region r; r.x = r.y = 0; r.cw = w; r.ch = h; r.gx = vf_int("gx", 0, w - 1); r.gy = vf_int("gy", 0, h - 1);
  auto im = image<float>("img", w, h, universal);
  hint2(r, im->pixel(r.gx, r.gy));
  std::shared_ptr<const Image<float>> p = im;
  auto cp = pointer ? VectorImage<float>::create(p) : VectorImage<float>::create(*im);
  vf_assert(cp->getWidth() == w && cp->getHeight() == h, "size of the copy");
  vf_assert(vf_eq(cp->getValue(r.gx, r.gy), im->pixel(r.gx, r.gy)), "pixel of the copied image");
}
VF_HARNESS(vector_from_image) { from_image(true, true); }
VF_HARNESS(vector_from_image_ref) { from_image(false, false); }
VF_HARNESS(vector_region) {
  int w = side("w"), h = side("h"); Region r = region(w, h);
  auto im = VectorImage<float>::create(w, h, data((long)w * h));
  auto c = im->getChunk(r.x, r.y, r.cw, r.ch);
  vf_assert(c->getWidth() == r.cw && c->getHeight() == r.ch, "size of the region");
  float e = vf_fun1("d", r.x + r.gx + (long)(r.y + r.gy) * w);
  vf_assert(vf_eq(c->getValue(r.gx, r.gy), e), "pixel of the rectangle");
  vf_assert(vf_eq(c->getValue(PixelCoordinate(r.gx, r.gy)), e), "pixel of the rectangle by coordinate");
  // a region of the region
  int x2 = vf_int("x2", 0, r.gx), y2 = vf_int("y2", 0, r.gy), w2 = vf_int("w2", r.gx - x2 + 1, r.cw - x2), h2 = vf_int("h2", r.gy - y2 + 1, r.ch - y2);
  auto c2 = c->getChunk(x2, y2, w2, h2);
  vf_assert(c2->getWidth() == w2 && c2->getHeight() == h2, "size of the region of the region");
  vf_assert(vf_eq(c2->getValue(r.gx - x2, r.gy - y2), e), "pixel of the rectangle of the rectangle");
}
VF_HARNESS(universal_write_read) {
  int w = side("w"), h = side("h");
  bool own = vf_bool("own");
  auto c = own ? UniversalImageChunk<float>::create(data((long)w * h), w, h) : UniversalImageChunk<float>::create(w, h);
  vf_assert(c->getWidth() == w && c->getHeight() == h, "size");
  int x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1);
  float o = own ? (float)vf_fun1("d", gx + (long)gy * w) : 0.f, v = vf_real("v"), u = vf_real("u");
  vf_assert(vf_eq(c->getValue(gx, gy), o), "the value it was built from");
  c->setValue(x, y, v);
  vf_assert(vf_eq(c->getValue(gx, gy), gx == x && gy == y ? v : o), "last value written, nothing else changed");
  c->at(gx, gy) = u;
  vf_assert(vf_eq(c->getValue(gx, gy), u), "at()");
  if (x != gx || y != gy) vf_assert(vf_eq(c->at(x, y), v), "at() changes nothing else");
}
VF_HARNESS(universal_from_plain_chunk) {
  // any layout of the source chunk: offset and stride
  int s = side("stride"), rows = side("rows"); Region r = region(s, rows);
  auto d = std::make_shared<std::vector<float>>((size_t)s * rows);
  vf_fill2f(d->data(), s, rows, "d", 0, 0);
  auto c = ImageChunk<float>::create(d, r.x + r.y * s, r.cw, r.ch, s);
  float e = vf_fun2("d", r.x + r.gx, r.y + r.gy);
  hint2(r, e);
  auto u = UniversalImageChunk<float>::create(std::move(*c));
  vf_assert(u->getWidth() == r.cw && u->getHeight() == r.ch, "size");
  vf_assert(vf_eq(u->getValue(r.gx, r.gy), e), "pixel of the source chunk");
}
VF_HARNESS(universal_from_universal) {
  int w = side("w"), h = side("h"), gx = vf_int("gx", 0, w - 1), gy = vf_int("gy", 0, h - 1);
  auto c = UniversalImageChunk<float>::create(data((long)w * h), w, h);
  ImageChunk<float>& b = *c;
  auto u = UniversalImageChunk<float>::create(std::move(b));
  vf_assert(u->getWidth() == w && u->getHeight() == h, "size");
  vf_assert(vf_eq(u->getValue(gx, gy), vf_fun1("d", gx + (long)gy * w)), "pixel of the source chunk");
}
// --- tiles
struct Source : public ImageSource {
  int saves = 0; double seen = 0; int sx = 0, sy = 0; bool modified = false;
  std::string getRepr() const override { return std::string(); }
  ImageTile::ImageType getType() const override { return ImageTile::FloatImage; }
  std::shared_ptr<ImageTile> getImageTile(int, int, int, int) const override { return nullptr; }
  void saveTile(ImageTile& t) override { saves++; modified = t.isModified(); seen = t.getValue<double>(sx, sy); }
  int getWidth() const override { return 0; }
  int getHeight() const override { return 0; }
};
template <class T> static void tile(ImageTile::ImageType type, T v1, T v2) {
  int w = vf_int("w", 1, 15000), h = vf_int("h", 1, 15000), tx = vf_int("tx", 0, MAXSIDE), ty = vf_int("ty", 0, MAXSIDE);
  auto t = ImageTile::create(type, tx, ty, w, h);
  vf_assert(t->getWidth() == w && t->getHeight() == h && t->getPosX() == tx && t->getPosY() == ty, "position and size");
  vf_assert(t->getType() == type && ImageTile::getTypeValue(T()) == type, "type");
  vf_assert(t->getTileMemorySize() == (long)w * h * (int)sizeof(T) && ImageTile::getTypeSize(type) == sizeof(T), "memory size");
  int x = vf_int("x", tx, tx + w - 1), y = vf_int("y", ty, ty + h - 1), gx = vf_int("gx", tx, tx + w - 1), gy = vf_int("gy", ty, ty + h - 1);
  int ax = vf_int("ax", -MAXSIDE, 3 * MAXSIDE), ay = vf_int("ay", -MAXSIDE, 3 * MAXSIDE);
  vf_assert(t->isPixelInTile(ax, ay) == (ax >= tx && ay >= ty && ax < tx + w && ay < ty + h), "pixel in tile");
  t->setValue(gx, gy, v1);
  t->setValue(x, y, v2);
  T e = x == gx && y == gy ? v2 : v1;
  vf_assert(t->getValue<T>(gx, gy) == e, "last value written, nothing else changed");
  vf_assert(vf_eq(t->getValue<double>(gx, gy), (double)e), "the same value read as double");
  vf_assert(((T*)t->getDataPtr())[gx - tx + (long)(gy - ty) * w] == e, "raw data row by row");
}
VF_HARNESS(tile_float) { tile<float>(ImageTile::FloatImage, vf_real("v1"), vf_real("v2")); }
VF_HARNESS(tile_double) { tile<double>(ImageTile::DoubleImage, vf_real("v1"), vf_real("v2")); }
VF_HARNESS(tile_int) { tile<int>(ImageTile::IntImage, vf_int("v1", -2147483647, 2147483647), vf_int("v2", -2147483647, 2147483647)); }
VF_HARNESS(tile_uint) { tile<unsigned>(ImageTile::UIntImage, vf_int("v1", 0, 2147483647), vf_int("v2", 0, 2147483647)); }
VF_HARNESS(tile_long) { tile<std::int64_t>(ImageTile::LongLongImage, vf_long("v1", -(1L << 60), 1L << 60), vf_long("v2", -(1L << 60), 1L << 60)); }
VF_HARNESS(tile_save) {
  int w = side("w"), h = side("h"), x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
  auto s = std::make_shared<Source>(); s->sx = x; s->sy = y;
  float v = vf_real("v"); bool write = vf_bool("write"), again = vf_bool("again");
  {
    auto t = ImageTile::create(ImageTile::FloatImage, 0, 0, w, h, s);
    vf_assert(!t->isModified(), "a new tile is not modified");
    if (write) { t->setValue(x, y, v); t->setModified(true); }
    vf_assert(t->isModified() == write, "modified after a write");
    if (again) t->saveIfModified();
    if (again) vf_assert(!t->isModified() && s->saves == (write ? 1 : 0), "saved once if modified");
  }
  vf_assert(s->saves == (write ? 1 : 0), "written back exactly once");
  if (write) vf_assert(vf_eq(s->seen, v), "the modified pixel was written back");
}
