// C17: coordinate converters. exp and log are the real functions; the lemmas of vf_math.h are the identities used.
//@ sources ModelFitting/src/lib/Parameters/NeutralConverter.cpp ModelFitting/src/lib/Parameters/NormalizedConverter.cpp
//@ sources ModelFitting/src/lib/Parameters/SigmoidConverter.cpp ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
#include "vf_math.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
using namespace ModelFitting; using namespace vfm;
VF_HARNESS(neutral) {
  NeutralConverter c; double w = vf_real("w");
  vf_assert(vf_eq(c.worldToEngine(w), w) && vf_eq(c.engineToWorld(w), w), "the engine sees the value itself");
  vf_assert(c.getEngineToWorldDerivative(w) == 1, "derivative of the identity");
}
VF_HARNESS(normalized) {
  double f = vf_real("factor"), w = vf_real("w"), e = vf_real("e"); vf_assume(f > 1e-6 || f < -1e-6);
  NormalizedConverter n(f); const CoordinateConverter& c = n;
  vf_assert(vf_eq(c.engineToWorld(c.worldToEngine(w)), w), "to the engine and back");
  vf_assert(vf_eq(c.worldToEngine(c.engineToWorld(e)), e), "to the world and back");
  vf_assert(vf_eq(c.worldToEngine(f), 1), "the factor is 1 for the engine");
  double h = vf_real("h");
  vf_assert(vf_eq(c.engineToWorld(e + h) - c.engineToWorld(e), h * c.getEngineToWorldDerivative(c.engineToWorld(e))), "slope of the engine to world map");
}
static double range(const char* n, double lo) { double r = vf_real(n); vf_assume(r > lo); if (!vf_symbolic()) vf_assume(r > 0.01 && r < 1000); return r; }
static double engine() { double e = vf_real("e"); vf_assume(e >= -50 && e <= 50); if (!vf_symbolic()) vf_assume(e > -9 && e < 9); return e; }
// --- sigmoid: world = min + R / (1 + exp(-e)), R = max - min
VF_HARNESS(sigmoid_range) {
  double lo = vf_real("min"), R = range("R", 0), e = vf_real("e"); if (!vf_symbolic()) vf_assume(std::abs(lo) < 1e6);
  SigmoidConverter s(lo, lo + R); const CoordinateConverter& c = s;
  double w = c.engineToWorld(e);
  vf_assert(vf_le(lo, w) && vf_le(w, lo + R), "inside the declared range, for every engine value");
}
VF_HARNESS(sigmoid_engine_world) {
  double lo = vf_real("min"), R = range("R", 0), e = engine(); if (!vf_symbolic()) vf_assume(std::abs(lo) < 100);
  SigmoidConverter s(lo, lo + R); const CoordinateConverter& c = s;
  double E = std::exp(-e), w = c.engineToWorld(e);
  vf_assert(vf_eq(w, lo + R / (1 + E)), "the sigmoid");
  vf_assert(vf_eq(c.getEngineToWorldDerivative(w), R * E / ((1 + E) * (1 + E))), "derivative of the sigmoid");
}
VF_HARNESS(sigmoid_round_trip) {
  double lo = vf_real("min"), a = range("a", 1e-50), b = range("b", 1e-50); if (!vf_symbolic()) vf_assume(std::abs(lo) < 100);
  double w = lo + a, hi = w + b;                       // any value strictly inside the range
  SigmoidConverter s(lo, hi); const CoordinateConverter& c = s;
  double e = std::log(a / b); vf_assume(e >= -50 && e <= 50);
  lemma_exp_log(a / b); lemma_exp_neg(e);
  vf_assert(vf_eq(c.worldToEngine(w), e), "inverse of the sigmoid");
  vf_assert(vf_eq(c.engineToWorld(c.worldToEngine(w)), w), "to the engine and back");
}
VF_HARNESS(sigmoid_limits) {
  double lo = vf_real("min"), R = range("R", 1); if (!vf_symbolic()) vf_assume(std::abs(lo) < 100);
  SigmoidConverter s(lo, lo + R); const CoordinateConverter& c = s;
  vf_assert(c.worldToEngine(lo) <= -50 && c.worldToEngine(lo + R) >= 50, "the ends of the range are the ends of the engine's range");
  vf_assert(c.engineToWorld(-51) == c.engineToWorld(-50) && c.engineToWorld(51) == c.engineToWorld(50), "the engine's range ends at 50");
}
// --- exponential sigmoid: world = min * exp(L / (1 + exp(-e))), L = log(max / min)
static double positive(const char* n) { double r = vf_real(n); vf_assume(r > 0); if (!vf_symbolic()) vf_assume(r > 0.01 && r < 1000); return r; }
VF_HARNESS(expsigmoid_engine_world) {
  double lo = positive("min"), q = vf_real("ratio"), e = engine(); vf_assume(q > 1); if (!vf_symbolic()) vf_assume(q > 1.1 && q < 1e4);
  double hi = lo * q;
  ExpSigmoidConverter s(lo, hi); const CoordinateConverter& c = s;
  double L = std::log(q), E = std::exp(-e), u = L / (1 + E), X = std::exp(u), w = c.engineToWorld(e);
  vf_assert(vf_eq(w, lo * X), "the exponential sigmoid");
  vf_assert(vf_le(lo, w), "not below the declared range");
  lemma_exp_log(q); lemma_exp_mono(u, L);
  vf_assert(vf_le(w, hi), "not above the declared range");
  lemma_log_exp(w / lo, u); lemma_log_div(hi, w); lemma_log_mul(lo, q); lemma_log_div(w, lo);
  vf_assert(vf_eq(c.getEngineToWorldDerivative(w), w * L * E / ((1 + E) * (1 + E))), "derivative of the exponential sigmoid");
}
VF_HARNESS(expsigmoid_range) {
  double lo = positive("min"), q = vf_real("ratio"), e = vf_real("e"); vf_assume(q > 1); if (!vf_symbolic()) vf_assume(q > 1.1 && q < 1e4 && std::abs(e) < 100);
  ExpSigmoidConverter s(lo, lo * q); const CoordinateConverter& c = s;
  double cl = e < -50 ? -50 : e > 50 ? 50 : e;
  lemma_exp_log(q); lemma_exp_mono(std::log(q) / (1 + std::exp(-cl)), std::log(q));
  vf_assert(vf_le(lo, c.engineToWorld(e)) && vf_le(c.engineToWorld(e), lo * q), "inside the declared range, for every engine value");
}
VF_HARNESS(expsigmoid_round_trip) {
  double lo = positive("min"), p = vf_real("p"), q = vf_real("q"); vf_assume(p > 1 && q > 1); if (!vf_symbolic()) vf_assume(p > 1.1 && q > 1.1 && p < 100 && q < 100);
  double w = lo * p, hi = w * q;                       // any value strictly inside the range
  ExpSigmoidConverter s(lo, hi); const CoordinateConverter& c = s;
  double a = std::log(p), b = std::log(q), e = std::log(a / b); vf_assume(e >= -50 && e <= 50);
  lemma_exp_log(a / b); lemma_exp_neg(e); lemma_log_mul(p, q); lemma_exp_log(p);
  vf_assert(vf_eq(c.worldToEngine(w), e), "inverse of the exponential sigmoid");
  vf_assert(vf_eq(c.engineToWorld(c.worldToEngine(w)), w), "to the engine and back");
}
