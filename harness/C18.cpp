// C18: parameters, dependent parameters and observers
//@ sources ModelFitting/src/lib/Parameters/BasicParameter.cpp ModelFitting/src/lib/Parameters/EngineParameter.cpp
//@ bounded history three observers, sequences of four operations (values arbitrary)
//@ bounded dependent two inputs, a chain of two dependent parameters, one observer of each, sequences of three operations (values and functions arbitrary)
//@ bounded diamond one input, two dependent parameters of it and one that depends on both (values and functions arbitrary)
#include "vf.h"
#include "vf_math.h"
#include <memory>
#include <functional>
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
using namespace ModelFitting;
// --- observers of one parameter
struct Seen { double last; long calls; };
VF_HARNESS(history) {
  double first = vf_real("first"); ManualParameter p(first);
  double now = first;
  Seen seen[3]; double due[3]; long calls[3]; size_t id[3]; int state[3] = {0, 0, 0};     // 0 not added yet, 1 registered, 2 removed
  for (int i = 0; i < 3; ++i) { seen[i].last = 0; seen[i].calls = 0; due[i] = 0; calls[i] = 0; id[i] = 0; }
  static const char* OP[4] = {"op0", "op1", "op2", "op3"}; static const char* VAL[4] = {"v0", "v1", "v2", "v3"};
  for (int s = 0; s < 4; ++s) {
    int op = vf_int(OP[s], 0, 3);
    if (op == 3) {
      double v = vf_real(VAL[s]); p.setValue(v); now = v;
      for (int i = 0; i < 3; ++i) if (state[i] == 1) { due[i] = v; ++calls[i]; }
    } else {
      Seen* o = &seen[op];
      if (state[op] == 0) { id[op] = p.addObserver([o](double v) { o->last = v; ++o->calls; }); state[op] = 1; }
      else if (state[op] == 1) { vf_assert(p.removeObserver(id[op]), "a registered observer can be removed"); state[op] = 2; }
      else vf_assert(!p.removeObserver(id[op]), "a removed observer is no longer there");
    }
  }
  vf_assert(p.getValue() == now, "the parameter has the value last set");
  for (int i = 0; i < 3; ++i) vf_assert(seen[i].calls == calls[i] && seen[i].last == due[i], "observers are told every value while registered, removed ones nothing");
  vf_assert(p.isObserved() == (state[0] == 1 || state[1] == 1 || state[2] == 1), "observed while somebody is registered");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) vf_assert(!(state[i] && state[j]) || id[i] != id[j], "different observers have different keys");
  vf_cover(state[0] == 2 & state[1] == 1, "one removed, one registered");
}
// --- dependent parameters
static double f(double a, double b) { return vf_rfun2("f", a, b); }
static double g(double d, double b) { return vf_rfun2("g", d, b); }
VF_HARNESS(dependent) {
  double a = vf_real("a"), b = vf_real("b");
  auto pa = std::make_shared<ManualParameter>(a), pb = std::make_shared<ManualParameter>(b);
  auto pd = createDependentParameter([](double x, double y) { return f(x, y); }, pa, pb);
  auto pe = createDependentParameter([](double x, double y) { return g(x, y); }, pd, pb);
  double told_d = 0, told_e = 0; bool ask_d = false, ask_e = false, due_d = false, due_e = false; size_t id_d = 0, id_e = 0;
  static const char* OP[3] = {"op0", "op1", "op2"}; static const char* VAL[3] = {"v0", "v1", "v2"};
  for (int s = 0; s < 3; ++s) {
    int op = vf_int(OP[s], 0, 3);
    if (op == 0) { a = vf_real(VAL[s]); pa->setValue(a); due_d = ask_d; due_e = ask_e; }
    else if (op == 1) { b = vf_real(VAL[s]); pb->setValue(b); due_d = ask_d; due_e = ask_e; }
    else if (op == 2) {
      if (!ask_d) { id_d = pd->addObserver([&told_d](double v) { told_d = v; }); ask_d = true; } else { pd->removeObserver(id_d); ask_d = due_d = false; }
    } else {
      if (!ask_e) { id_e = pe->addObserver([&told_e](double v) { told_e = v; }); ask_e = true; } else { pe->removeObserver(id_e); ask_e = due_e = false; }
    }
  }
  vf_assert(pd->getValue() == f(a, b), "a dependent parameter is its function of the current values");
  vf_assert(pe->getValue() == g(f(a, b), b), "also along a chain");
  if (due_d) vf_assert(told_d == f(a, b), "observers of a dependent parameter have the latest value");
  if (due_e) vf_assert(told_e == g(f(a, b), b), "also along a chain");
  vf_cover(due_d & due_e, "both observed");
}
VF_HARNESS(diamond) {
  double a = vf_real("a");
  auto pa = std::make_shared<ManualParameter>(a);
  auto l = createDependentParameter([](double x) { return vf_rfun2("l", x, 0); }, pa);
  auto r = createDependentParameter([](double x) { return vf_rfun2("r", x, 0); }, pa);
  auto t = createDependentParameter([](double x, double y) { return f(x, y); }, l, r);
  double told = 0; bool watch = vf_int("watch", 0, 1); if (watch) t->addObserver([&told](double v) { told = v; });
  double v = vf_real("v"); pa->setValue(v); double e = f(vf_rfun2("l", v, 0), vf_rfun2("r", v, 0));
  vf_assert(t->getValue() == e, "a dependent parameter is its function of the current values");
  if (watch) vf_assert(told == e, "its observers have the latest value");
}
// --- fitted parameters: any pair of mutually inverse maps
#ifdef VF_NATIVE
static double w2e(double w) { return 2 * w + 1; }
static double e2w(double e) { return (e - 1) / 2; }
#else
static double w2e(double w) { double e = vf_rfun1("w2e", w); vf_assume(vf_rfun1("e2w", e) == w); return e; }
static double e2w(double e) { double w = vf_rfun1("e2w", e); vf_assume(vf_rfun1("w2e", w) == e); return w; }
#endif
struct Any : public CoordinateConverter {
  double worldToEngine(const double w) const override { return w2e(w); }
  double engineToWorld(const double e) const override { return e2w(e); }
  double getEngineToWorldDerivative(const double w) const override { return vf_rfun1("deriv", w); }
};
VF_HARNESS(engine) {
  double w0 = vf_real("w0"), w1 = vf_real("w1"), e1 = vf_real("e1"); bool world = vf_int("world", 0, 1), watch = vf_int("watch", 0, 1);
  EngineParameter p(w0, std::unique_ptr<CoordinateConverter>(new Any()));
  vf_assert(p.getValue() == w0 && p.getEngineValue() == w2e(w0), "a new parameter's two values correspond");
  double told = 0, seen = 0, seen_e = 0;
  if (watch) p.addObserver([&](double v) { told = v; seen = p.getValue(); seen_e = p.getEngineValue(); });
  if (world) p.setValue(w1); else p.setEngineValue(e1);
  double w = world ? w1 : e2w(e1), e = world ? w2e(w1) : e1;
  vf_assert(p.getValue() == w && p.getEngineValue() == e, "both values follow a change of either");
  vf_assert(p.getEngineToWorldDerivative() == vf_rfun1("deriv", w), "the derivative is the one at the current value");
  if (watch) vf_assert(told == w && seen == w && seen_e == e, "observers are told the new value and find both values up to date");
}
