// C20: model decorators. The inner component is arbitrary (its values and samples are arbitrary functions).
//@ opt scaled_samples precisearr=1
//@ opt rotated_samples precisearr=1
//@ opt transformed_samples precisearr=1
//@ sources ModelFitting/src/lib/Models/ScaledModelComponent.cpp ModelFitting/src/lib/Models/RotatedModelComponent.cpp
//@ sources ModelFitting/src/lib/Models/TransformModelComponent.cpp ModelFitting/src/lib/Parameters/BasicParameter.cpp
#include "vf.h"
#include "vf_math.h"
#include <memory>
#include <vector>
#include <tuple>
#include <algorithm>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Models/ScaledModelComponent.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
#include "ModelFitting/Models/TransformModelComponent.h"
using namespace ModelFitting;
static double seen_scale, seen_r;
struct Inner : public ModelComponent {
  long n, g;
  Inner(long n_, long g_) : n(n_), g(g_) {}
  double getValue(double x, double y) override { return vf_rfun2("value", x, y); }
  void updateRasterizationInfo(double scale, double r_max) override { seen_scale = scale; seen_r = r_max; }
  bool insideSharpRegion(double x, double y) override { return vf_rfun2("inside", x, y) > 0; }
  std::vector<ModelSample> getSharpSampling() override {
    std::vector<ModelSample> v((size_t)n);
    for (long i = 0; i < n; ++i) { std::get<0>(v[i]) = vf_fun1("sx", i); std::get<1>(v[i]) = vf_fun1("sy", i); std::get<2>(v[i]) = vf_fun1("sv", i); }
    return v;
  }
};
static std::unique_ptr<ModelComponent> inner(long n = 0, long g = 0) { return std::unique_ptr<ModelComponent>(new Inner(n, g)); }
static double scale_factor(const char* n) { double s = vf_real(n); vf_assume(s > 1e-3); if (!vf_symbolic()) vf_assume(s < 1e3); return s; }
static double coord(const char* n) { double s = vf_real(n); if (!vf_symbolic()) vf_assume(s > -1e3 && s < 1e3); return s; }
struct Samples { long n, g; double x, y, v; };
static Samples samples() {
  Samples s; s.n = vf_int("n", 1, vf_symbolic() ? 1000000 : 50); s.g = vf_int("g", 0, s.n - 1);
  s.x = vf_fun1("sx", s.g); s.y = vf_fun1("sy", s.g); s.v = vf_fun1("sv", s.g);
  vf_index(s.g); vf_ghost(s.g); vf_valuef(s.x); vf_valuef(s.y); vf_valuef(s.v); return s;
}
static void expect(double x, double y, double v) { vf_valuef(x); vf_valuef(y); vf_valuef(v); }
static void same(const std::vector<ModelComponent::ModelSample>& r, const Samples& s, double x, double y, double v) {
  vf_assert((long)r.size() == s.n, "as many samples as the inner component has");
  vf_assert(vf_eq(std::get<0>(r[s.g]), x) && vf_eq(std::get<1>(r[s.g]), y), "each sample lies at the forward-transformed position");
  vf_assert(vf_eq(std::get<2>(r[s.g]), v), "light carried by each sample");
}
// --- scaling
static std::shared_ptr<ManualParameter> par(double v) { return std::make_shared<ManualParameter>(v); }
VF_HARNESS(scaled_value) {
  auto px = par(scale_factor("sx0")), py = par(scale_factor("sy0")); double x = coord("x"), y = coord("y");
  ScaledModelComponent c(inner(), px, py);
  double sx = scale_factor("scale_x"), sy = scale_factor("scale_y"); px->setValue(sx); py->setValue(sy);
  vf_assert(c.getValue(x, y) == vf_rfun2("value", x / sx, y / sy), "value at the back-transformed position");
  vf_assert(c.insideSharpRegion(x, y) == (vf_rfun2("inside", x / sx, y / sy) > 0), "same sharp region");
  double s = scale_factor("pixel"), r = scale_factor("rmax"); c.updateRasterizationInfo(s, r);
  vf_assert(vf_eq(seen_scale, s / std::min(sx, sy)) && vf_eq(seen_r, r / std::min(sx, sy)), "pixel scale and radius in units of the inner component (the finer axis)");
}
VF_HARNESS(scaled_samples) {
  auto px = par(scale_factor("sx0")), py = par(scale_factor("sy0")); Samples s = samples();
  ScaledModelComponent c(inner(s.n, s.g), px, py);
  double sx = scale_factor("scale_x"), sy = scale_factor("scale_y"); px->setValue(sx); py->setValue(sy);
  double X = s.x * sx, Y = s.y * sy, V = s.v * (sx * sy); expect(X, Y, V);
  auto r = c.getSharpSampling();
  same(r, s, X, Y, V);
}
// --- rotation
VF_HARNESS(rotated_value) {
  auto a = par(coord("a0")); double x = coord("x"), y = coord("y");
  RotatedModelComponent c(inner(), a);
  double v = coord("angle"); a->setValue(v); double co = std::cos(v), si = std::sin(v);
  vf_assert(c.getValue(x, y) == vf_rfun2("value", x * co - y * si, x * si + y * co), "value at the back-transformed position");
  vf_assert(c.insideSharpRegion(x, y) == (vf_rfun2("inside", x * co - y * si, x * si + y * co) > 0), "same sharp region");
  double s = scale_factor("pixel"), r = scale_factor("rmax"); c.updateRasterizationInfo(s, r);
  vf_assert(seen_scale == s && seen_r == r, "rotation keeps the pixel scale");
}
VF_HARNESS(rotated_fresh) {
  double v = coord("angle"), x = coord("x"), y = coord("y"); auto a = par(v); double co = std::cos(v), si = std::sin(v);
  RotatedModelComponent c(inner(), a);
  vf_assert(c.getValue(x, y) == vf_rfun2("value", x * co - y * si, x * si + y * co), "value before the angle ever changes");
}
VF_HARNESS(rotated_samples) {
  auto a = par(coord("a0")); Samples s = samples();
  RotatedModelComponent c(inner(s.n, s.g), a);
  double v = coord("angle"); a->setValue(v); double co = std::cos(v), si = std::sin(v);
  double X = s.x * co + s.y * si, Y = s.y * co - s.x * si; expect(X, Y, s.v);
  auto r = c.getSharpSampling();
  same(r, s, X, Y, s.v);
  // the back-transformation of the value undoes the forward transformation of the samples
  vf_assume(co * co + si * si == 1 || !vf_symbolic());
  vf_assert(vf_eq(X * co - Y * si, s.x) && vf_eq(X * si + Y * co, s.y), "samples lie where the value is taken from");
}
VF_HARNESS(rotated_moved) {
  auto a = par(coord("a0")); double x = coord("x"), y = coord("y");
  std::unique_ptr<RotatedModelComponent> c(new RotatedModelComponent(inner(), a)), d(new RotatedModelComponent(std::move(*c)));
  c.reset();
  double v = coord("angle"); a->setValue(v); double co = std::cos(v), si = std::sin(v);
  vf_assert(d->getValue(x, y) == vf_rfun2("value", x * co - y * si, x * si + y * co), "a moved component follows the angle");
  d.reset();
  vf_assert(!a->isObserved(), "no observer outlives the component");
}
// --- linear transformation
struct Jac { double a, b, c, d, det; };
static Jac jac() {
  Jac j; j.a = coord("a"); j.b = coord("b"); j.c = coord("c"); j.d = coord("d"); j.det = j.a * j.d - j.b * j.c;
  vf_assume(j.det > 1e-3 || j.det < -1e-3); return j;
}
VF_HARNESS(transformed_value) {
  Jac j = jac(); double x = coord("x"), y = coord("y");
  TransformModelComponent t(inner(), std::make_tuple(j.a, j.b, j.c, j.d));
  // the inner position (u,v) with u*a + v*c = x, u*b + v*d = y
  double i = 1. / j.det, u = x * (j.d * i) + y * (-j.c * i), v = x * (-j.b * i) + y * (j.a * i);
  vf_assert(vf_eq(u * j.a + v * j.c, x) && vf_eq(u * j.b + v * j.d, y), "the inner position maps to the outer one");
  double area = j.det < 0 ? -j.det : j.det;
  vf_assert(vf_eq(t.getValue(x, y), vf_rfun2("value", u, v) / area), "value at the back-transformed position over the area factor");
  vf_assert(t.insideSharpRegion(x, y) == (vf_rfun2("inside", u, v) > 0), "same sharp region");
}
VF_HARNESS(transformed_moved) {
  Jac j = jac(); double x = coord("x"), y = coord("y");
  TransformModelComponent s(inner(), std::make_tuple(j.a, j.b, j.c, j.d)), t(std::move(s));
  double i = 1. / j.det, u = x * (j.d * i) + y * (-j.c * i), v = x * (-j.b * i) + y * (j.a * i);
  double area = j.det < 0 ? -j.det : j.det;
  vf_assert(vf_eq(t.getValue(x, y), vf_rfun2("value", u, v) / area), "a moved component keeps its value");
}
VF_HARNESS(transformed_samples) {
  Jac j = jac(); Samples s = samples();
  TransformModelComponent t(inner(s.n, s.g), std::make_tuple(j.a, j.b, j.c, j.d));
  double X = s.x * j.a + s.y * j.c, Y = s.x * j.b + s.y * j.d; expect(X, Y, s.v);
  auto r = t.getSharpSampling();
  same(r, s, X, Y, s.v);
}
