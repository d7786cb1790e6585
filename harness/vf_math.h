// Textbook identities of exp and log on the reals, as lemmas the proofs may use (trusted axioms of the real functions;
// natively they do nothing). Each lemma's premise is checked as an obligation.
#ifndef VF_MATH_H
#define VF_MATH_H
#include "vf.h"
namespace vfm {
inline void lemma_exp_neg(double x) { if (vf_symbolic()) vf_assume(std::exp(x) * std::exp(-x) == 1); }
inline void lemma_log_exp(double a, double x) {          // a == exp(x)  =>  log(a) == x
  if (!vf_symbolic()) return;
  vf_assert(a == std::exp(x), "premise of log(exp(x)) == x"); vf_assume(std::log(a) == x); }
inline void lemma_log_div(double a, double b) {          // a, b > 0  =>  log(a/b) == log(a) - log(b)
  if (!vf_symbolic()) return;
  vf_assert(a > 0 && b > 0, "premise of log(a/b) == log(a)-log(b)"); vf_assume(std::log(a / b) == std::log(a) - std::log(b)); }
inline void lemma_log_mul(double a, double b) {
  if (!vf_symbolic()) return;
  vf_assert(a > 0 && b > 0, "premise of log(a*b) == log(a)+log(b)"); vf_assume(std::log(a * b) == std::log(a) + std::log(b)); }
inline void lemma_exp_log(double x) {                    // x > 0  =>  exp(log(x)) == x
  if (!vf_symbolic()) return;
  vf_assert(x > 0, "premise of exp(log(x)) == x"); vf_assume(std::exp(std::log(x)) == x); }
inline void lemma_exp_mono(double x, double y) {
  if (!vf_symbolic()) return;
  vf_assert(x <= y, "premise of monotonicity of exp"); vf_assume(std::exp(x) <= std::exp(y)); }
}
#endif
