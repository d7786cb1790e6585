// C19: what the fit engine is handed
//@ sources ModelFitting/src/lib/Engine/EngineParameterManager.cpp ModelFitting/src/lib/Engine/ResidualEstimator.cpp
//@ sources ModelFitting/src/lib/Engine/WorldValueResidual.cpp ModelFitting/src/lib/Engine/EngineValueResidual.cpp
//@ sources ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp
//@ bounded exchange up to three parameters (values arbitrary)
//@ bounded covariance up to three parameters (values arbitrary)
//@ bounded blocks_pointer up to three blocks (their sizes and contents arbitrary)
//@ bounded blocks_iterator up to three blocks (their sizes and contents arbitrary)
//@ bounded blocks_general up to three blocks (their sizes and contents arbitrary)
#include "vf.h"
#include "vf_math.h"
#include <memory>
#include <functional>
#include <vector>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
using namespace ModelFitting;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
// a converter that only ever multiplies (its own map is C17's concern)
struct Scale : public CoordinateConverter {
  double k, d;
  Scale(double k_, double d_) : k(k_), d(d_) {}
  double worldToEngine(const double w) const override { return w / k; }
  double engineToWorld(const double e) const override { return e * k; }
  double getEngineToWorldDerivative(const double) const override { return d; }
};
static const char* W[3] = {"w0", "w1", "w2"}; static const char* E[3] = {"e0", "e1", "e2"}; static const char* K[3] = {"k0", "k1", "k2"}; static const char* D[3] = {"d0", "d1", "d2"};
static std::shared_ptr<EngineParameter> par(int i, double k) { return std::make_shared<EngineParameter>(vf_real(W[i]), std::unique_ptr<CoordinateConverter>(new Scale(k, vf_real(D[i])))); }
static void exchange(const int n) {
  EngineParameterManager m; std::shared_ptr<EngineParameter> p[3]; double k[3], e[3], before[3], after[3], world[3];
  for (int i = 0; i < n; ++i) { k[i] = vf_real(K[i]); vf_assume(k[i] > 0.001 && k[i] < 1000); p[i] = par(i, k[i]); e[i] = vf_real(E[i]); world[i] = p[i]->getValue(); m.registerParameter(p[i]); }
  vf_assert(m.numberOfParameters() == (size_t)n, "all registered parameters count");
  m.getEngineValues(before);
  for (int i = 0; i < n; ++i) vf_assert(before[i] == p[i]->getEngineValue() && p[i]->getValue() == world[i], "engine values are read in registration order");
  m.updateEngineValues(e);
  for (int i = 0; i < n; ++i) vf_assert(p[i]->getEngineValue() == e[i] && vf_eq(p[i]->getValue(), e[i] * k[i]), "each parameter takes its own new value");
  m.getEngineValues(after);
  for (int i = 0; i < n; ++i) vf_assert(after[i] == e[i], "the engine reads back what it wrote");
}
VF_HARNESS(exchange) { int n = vf_int("n", 0, 3); if (n == 0) exchange(0); else if (n == 1) exchange(1); else if (n == 2) exchange(2); else exchange(3); }
static void covariance(const int n) {
  EngineParameterManager m; double d[3];
  for (int i = 0; i < n; ++i) { auto p = par(i, 2.); d[i] = p->getEngineToWorldDerivative(); m.registerParameter(p); }
  std::vector<double> c((size_t)(n * n)); for (int i = 0; i < n * n; ++i) c[i] = vf_fun1("cov", i);
  auto r = m.convertCovarianceMatrixToWorldSpace(c);
  vf_assert(r.size() == (size_t)(n * n), "a matrix of the same size");
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) vf_assert(vf_eq(r[j * n + i], vf_fun1("cov", j * n + i) * d[i] * d[j]), "each entry is multiplied by the derivatives of its two parameters");
}
VF_HARNESS(covariance) { int n = vf_int("n", 0, 3); if (n == 0) covariance(0); else if (n == 1) covariance(1); else if (n == 2) covariance(2); else covariance(3); }
// --- residual blocks: an arbitrary provider writes its block
static const char* BLOCK[3] = {"b0", "b1", "b2"}; static const char* SIZE[3] = {"s0", "s1", "s2"};
struct Block : public ResidualBlockProvider {
  int no; long n;
  Block(int no_, long n_) : no(no_), n(n_) {}
  std::size_t numberOfResiduals() const override { return (size_t)n; }
  void populateResidualBlock(IterType out) override {
    vf_filld(out, n, BLOCK[no]);
  }
};
struct Blocks { int count; long size[3], total, which, at, pos; double e; };
static Blocks blocks(ResidualEstimator& r, const int count, const int which) {
  Blocks b; b.count = count; b.total = 0; b.which = which; b.pos = 0; b.at = 0; b.e = 0;
  for (int i = 0; i < b.count; ++i) {
    b.size[i] = vf_int(SIZE[i], 0, NAT(5, 1000000));
    if (i == b.which) { vf_assume(b.size[i] > 0); b.at = vf_int("at", 0, b.size[i] - 1); b.pos = b.total + b.at; b.e = vf_fun1(BLOCK[i], b.at); }
    b.total += b.size[i]; r.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Block(i, b.size[i])));
  }
  vf_index(b.pos); vf_valuef(b.e);
  vf_assert(r.numberOfResiduals() == (size_t)b.total, "as many residuals as all blocks together");
  return b;
}
static void pointer(int count, int which) { ResidualEstimator r; Blocks b = blocks(r, count, which); std::vector<double> out((size_t)b.total); r.populateResiduals(out.data()); vf_assert(out[b.pos] == b.e, "the blocks follow each other in registration order"); }
static void iterator(int count, int which) { ResidualEstimator r; Blocks b = blocks(r, count, which); std::vector<double> out((size_t)b.total); r.populateResiduals(out.begin()); vf_assert(out[b.pos] == b.e, "the blocks follow each other in registration order"); }
static void general(int count, int which) { ResidualEstimator r; Blocks b = blocks(r, count, which); std::vector<float> out((size_t)b.total); r.populateResiduals(out.begin()); vf_assert(out[b.pos] == (float)b.e, "the blocks follow each other in registration order"); }
template <class F> static void each(F f) { int c = vf_int("case", 0, 5); if (c == 0) f(1, 0); else if (c == 1) f(2, 0); else if (c == 2) f(2, 1); else if (c == 3) f(3, 0); else if (c == 4) f(3, 1); else f(3, 2); }
VF_HARNESS(blocks_pointer) { each(pointer); }
VF_HARNESS(blocks_iterator) { each(iterator); }
VF_HARNESS(blocks_general) { each(general); }
// --- data against model, pixel by pixel, with any comparator
struct Compare { double operator()(double d, double m, double w) const { return vf_rfun2("outer", d, vf_rfun2("inner", m, w)); } };
static std::vector<double> values(const char* n, long size) { std::vector<double> v((size_t)size); vf_filld(v.data(), size, n); return v; }
template <class C> static void data_block(const C& c) {
  long n = vf_int("n", 1, NAT(20, 1000000)), g = vf_int("g", 0, (int)n - 1); double e = c(vf_fun1("data", g), vf_fun1("model", g), vf_fun1("weight", g));
  vf_index(g); vf_ghost(g); vf_valuef(e);
  auto r = createDataVsModelResiduals(values("data", n), values("model", n), values("weight", n), C(c));
  vf_assert(r->numberOfResiduals() == (size_t)n, "one residual per data point");
  std::vector<double> out((size_t)n); r->populateResidualBlock(out.data());
  vf_assert(out[g] == e, "the comparator's value of the g-th data point, model point and weight");
}
VF_HARNESS(data) { data_block(Compare()); }
VF_HARNESS(chisquare) { double d = vf_real("d"), m = vf_real("m"), w = vf_real("w"); vf_assert(vf_eq(ChiSquareComparator()(d, m, w), w * (d - m)), "weighted difference of data and model"); }
VF_HARNESS(sizes) {
  long n = vf_int("n", 0, NAT(20, 1000000)), m = vf_int("m", 0, NAT(20, 1000000)), w = vf_int("w", 0, NAT(20, 1000000)); bool thrown = false;
  try { createDataVsModelResiduals(values("data", n), values("model", m), values("weight", w), Compare()); } catch (const Elements::Exception&) { thrown = true; }
  vf_assert(thrown == !(n == m && n == w), "blocks of different sizes are rejected");
}
// --- priors
VF_HARNESS(world_prior) {
  double v0 = vf_real("v0"), v1 = vf_real("v1"), expected = vf_real("expected"), weight = vf_real("weight"), r = 0;
  auto p = std::make_shared<ManualParameter>(v0);
  {
    WorldValueResidual prior(p, expected, weight);
    vf_assert(prior.numberOfResiduals() == 1, "a prior is one residual");
    prior.populateResidualBlock(&r); vf_assert(vf_eq(r, weight * (v0 - expected)), "weighted difference between the value and the expected value");
    p->setValue(v1); prior.populateResidualBlock(&r); vf_assert(vf_eq(r, weight * (v1 - expected)), "also after the value changed");
  }
  vf_assert(!p->isObserved(), "a prior that is gone no longer follows the parameter"); p->setValue(v0);
}
VF_HARNESS(engine_prior) {
  double v0 = vf_real("v0"), v1 = vf_real("v1"), expected = vf_real("expected"), weight = vf_real("weight"), k = vf_real("k"), r = 0; bool world = vf_int("world", 0, 1);
  vf_assume(k > 0.001 && k < 1000);
  EngineParameter p(v0, std::unique_ptr<CoordinateConverter>(new Scale(k, 1.)));
  EngineValueResidual prior(p, expected, weight);
  vf_assert(prior.numberOfResiduals() == 1, "a prior is one residual");
  prior.populateResidualBlock(&r); vf_assert(vf_eq(r, weight * (expected - v0 / k)), "weighted difference between the expected value and the engine value");
  if (world) p.setValue(v1); else p.setEngineValue(v1);
  prior.populateResidualBlock(&r); vf_assert(vf_eq(r, weight * (expected - (world ? v1 / k : v1))), "also after the value changed");
}
