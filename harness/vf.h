// Contract language of the harnesses. A harness states, for one function of /repo, "for all inputs satisfying the
// vf_assume'd precondition, the postconditions named in vf_assert hold". The same text is used twice:
//  * compiled to LLVM IR together with the real headers/sources of /repo, it is what the verifier proves;
//  * compiled natively (vf_native.cpp) it replays counterexamples and searches failing inputs for a failed obligation.
#ifndef VF_H
#define VF_H
#include <cmath>
#include <cstdint>
#include <cstddef>
extern "C" {
int    vf_int(const char* name, int lo, int hi);      // any int in [lo,hi]
long   vf_long(const char* name, long lo, long hi);
double vf_real(const char* name);                      // any real number
bool   vf_bool(const char* name);
void   vf_assume(bool c);                              // precondition
void   vf_assert(bool c, const char* name);            // postcondition / obligation
void   vf_cover(bool c, const char* name);             // must be reachable (vacuity guard)
double vf_fun1(const char* f, long a);                 // an arbitrary function, the same on equal arguments
double vf_fun2(const char* f, long a, long b);
double vf_fun3(const char* f, long a, long b, long c);
double vf_rfun1(const char* f, double a);
double vf_rfun2(const char* f, double a, double b);
int    vf_ifun1(const char* f, long a, int lo, int hi);
int    vf_ifun2(const char* f, long a, long b, int lo, int hi);
bool   vf_bfun1(const char* f, long a);
bool   vf_bfun2(const char* f, long a, long b);
void   vf_fillf(float* p, long n, const char* f);      // p[i] = f(i)
void   vf_filld(double* p, long n, const char* f);
void   vf_fill2f(float* p, long w, long h, const char* f, long x0, long y0);  // p[i+j*w] = f(x0+i, y0+j)
void   vf_fill2d(double* p, long w, long h, const char* f, long x0, long y0);
void   vf_fill2i(int* p, long w, long h, const char* f, long x0, long y0, int lo, int hi);
void   vf_fill2u(unsigned* p, long w, long h, const char* f, long x0, long y0, int lo, int hi);
void   vf_fill2l(long* p, long w, long h, const char* f, long x0, long y0, long lo, long hi);
void   vf_fieldi(int* p, long n, long stride, const char* f, long c, int lo, int hi);   // p[k] = f(c,k), cells stride bytes apart
void   vf_fieldf(float* p, long n, long stride, const char* f, long c);
void   vf_fieldd(double* p, long n, long stride, const char* f, long c);
bool   vf_eq(double a, double b);                      // equality of reals (native: up to rounding)
bool   vf_le(double a, double b);                      // a <= b          (native: up to rounding)
bool   vf_symbolic();                                  // true in the verifier
void   vf_bound(int n);                                // bounded harness: unroll symbolic loops at most n times
// Loop hints: candidates only. The verifier keeps a candidate as loop invariant only if it is inductive.
void   vf_ghost(long g);                               // generic index used in candidate facts about arrays
void   vf_index(long i);                               // array index that candidate facts talk about
void   vf_valuef(double v);                            // value a scalar / array cell may hold
void   vf_valuei(long v);
void   vf_name(long v);                                // a value that joins of paths are simplified to where it is the value on both
void   vf_acc_(void* f, int nidx, ...);                // accumulator candidate: v - f(i.., params..) is invariant
void   vf_inv_(void* f, int nscalar, int nidx, ...);   // candidate predicate f(scalars.., i.., params..)
void   vf_forget_hints();
void   vf_fill2f_spec_(float* p, long w, long h, void* f, int n, ...);
void   vf_spec_unfold(int depth);
}
template <class F, class... A> void vf_acc(F* f, int nidx, A... a) { vf_acc_((void*)f, nidx, a...); }
template <class F, class... A> void vf_inv(F* f, int nsc, int nidx, A... a) { vf_inv_((void*)f, nsc, nidx, a...); }
// p[i + j*w] = f(i, j, a...) for a specification function f
template <class F, class... A> void vf_fill2f_spec(float* p, long w, long h, F* f, A... a) {
#ifdef VF_NATIVE
  for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) p[i + j * w] = (float)f(i, j, a...);
#else
  vf_fill2f_spec_(p, w, h, (void*)f, (int)sizeof...(A), a...);
#endif
}
#ifdef VF_NATIVE
struct VfReg { VfReg(const char* n, void (*f)()); };
#define VF_HARNESS(n) extern "C" void vfh_##n(); static VfReg vfreg_##n(#n, vfh_##n); extern "C" void vfh_##n()
#define SPEC
#else
#define VF_HARNESS(n) extern "C" __attribute__((used)) void vfh_##n()
#endif
#endif
