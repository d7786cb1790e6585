// C03: images derived pixel by pixel.
#include "vf_images.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/MaskedImage.h"
#include "SEFramework/Image/FunctionalImage.h"
using namespace vfi;
template <class D, class E> static void derived(const D& d, int w, int h, E expect) {
  vf_assert(d->getWidth() == w && d->getHeight() == h, "size of the input");
  Region r = region(w, h);
  float e = expect(r.x + r.gx, r.y + r.gy);
  hint2(r, e);
  auto c = d->getChunk(r.x, r.y, r.cw, r.ch);
  vf_assert(c->getWidth() == r.cw && c->getHeight() == r.ch, "size of the region");
  vf_assert(vf_eq(c->getValue(r.gx, r.gy), e), "formula at the pixel");
}
VF_HARNESS(subtract) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h), b = image<float>("b", w, h, false);
  derived(SubtractImage<float>::create(a, b), w, h, [&](int x, int y) { return a->pixel(x, y) - b->pixel(x, y); });
}
VF_HARNESS(multiply) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h), b = image<float>("b", w, h);
  derived(MultiplyImage<float>::create(a, b), w, h, [&](int x, int y) { return a->pixel(x, y) * b->pixel(x, y); });
}
VF_HARNESS(snr) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h), b = image<float>("b", w, h);
  derived(SnrImage<float>::create(a, b), w, h, [&](int x, int y) { vf_assume(b->pixel(x, y) > 0); return a->pixel(x, y) / std::sqrt(b->pixel(x, y)); });
}
VF_HARNESS(subtract_value) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h); float v = vf_real("v");
  vf_ghost(vf_int("gi", 0, 2000000000)); vf_valuef(v);
  derived(SubtractImage<float>::create(a, v), w, h, [&](int x, int y) { return a->pixel(x, y) - v; });
}
VF_HARNESS(thresholded) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h), b = image<float>("b", w, h); float t = vf_real("t");
  derived(ThresholdedImage<float>::create(a, b, t), w, h, [&](int x, int y) { vf_assume(b->pixel(x, y) >= 0); return a->pixel(x, y) - std::sqrt(b->pixel(x, y)) * t; });
}
VF_HARNESS(masked_bits) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h); auto m = image<int>("m", w, h); float v = vf_real("v"); int f = vf_int("f", 0, 15);
  derived(MaskedImage<float, int>::create(a, m, v, f), w, h, [&](int x, int y) { return (m->pixel(x, y) & f) ? v : a->pixel(x, y); });
}
VF_HARNESS(masked_compare) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h); auto m = image<float>("m", w, h); float v = vf_real("v"), f = vf_real("f");
  derived(MaskedImage<float, float, std::greater_equal>::create(a, m, v, f), w, h, [&](int x, int y) { return m->pixel(x, y) >= f ? v : a->pixel(x, y); });
}
VF_HARNESS(functional) {
  int w = side("w"), h = side("h"); auto a = image<float>("a", w, h);
  derived(FunctionalImage<float>::create(a, [](int x, int y, float v) -> float { return vf_fun2("f", x, y) * v; }), w, h, [&](int x, int y) { return vf_fun2("f", x, y) * a->pixel(x, y); });
}
VF_HARNESS(constant) {
  int w = side("w"), h = side("h"); float v = vf_real("v");
  derived(ConstantImage<float>::create(w, h, v), w, h, [&](int x, int y) { return v; });
}
