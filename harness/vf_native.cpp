// Native side of vf.h: replay of a given input, or search for a failing one.
#define VF_NATIVE 1
#include "vf.h"
#include <map>
#include <vector>
#include <string>
#include <random>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
struct Reject {};
struct Shared { long runs, rejected, asserts; char fail[400]; unsigned long seed; int mode; };
static Shared* sh;
static std::vector<std::pair<std::string, void (*)()>>& regs() { static std::vector<std::pair<std::string, void (*)()>> r; return r; }
VfReg::VfReg(const char* n, void (*f)()) { regs().push_back({n, f}); }
static std::mt19937_64 rng;
static std::map<std::string, int> cnt;
static std::map<std::string, std::string> fixed;    // replay values by name#k
static std::map<std::string, std::string> ffixed;       // replay values of arbitrary functions, by name(args)
static unsigned long fseed; static int mode;         // mode: flavour of the generated values
static bool trace = false;
static std::string key(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static void note(const std::string& k, const std::string& v) { if (trace) printf("  %s = %s\n", k.c_str(), v.c_str()); }
static long pick(long lo, long hi) {
  long v;
  unsigned long c = rng() % 16;
  auto clampr = [&](long a, long b) { if (a < lo) a = lo; if (b > hi) b = hi; if (a > b) return lo; return a + (long)(rng() % (unsigned long)(b - a + 1)); };
  long mid = lo > 0 ? lo : (hi < 0 ? hi : 0);
  if (c < 7) v = clampr(mid - 2, mid + 4);
  else if (c < 11) v = clampr(mid - 6, mid + 12);
  else if (c == 11) v = clampr(lo, lo + 2);
  else if (c == 12 && mode % 4 == 3 && hi < 5000) v = clampr(hi - 2, hi);
  else if (c == 13) v = clampr(mid - 100, mid + 100);
  else v = clampr(mid - 20, mid + 30);
  return v;
}
static double pickr(std::mt19937_64& g) {
  switch (g() % 12) {
    case 0: return 0; case 1: return 1; case 2: return -1;
    case 3: case 4: case 5: return (double)(long)(g() % 13) - 4;
    case 6: case 7: return ((double)(long)(g() % 65) - 24) / 8;
    case 8: return ((double)(long)(g() % 65) - 32) / 16;
    case 9: return ((double)(g() % 100000) / 100000);
    case 10: return ((double)(g() % 100000) / 1000) - 50;
    default: return ((double)(g() % 1000000) / 31250) - 16;
  }
}
static unsigned long hash(const char* f, long a, long b, long c) {
  unsigned long h = fseed * 0x9E3779B97F4A7C15ul + 12345;
  for (; *f; f++) h = (h ^ (unsigned char)*f) * 0x100000001B3ul;
  for (long x : {a, b, c}) { h ^= (unsigned long)x + 0x9E3779B97F4A7C15ul + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdul; h ^= h >> 33; }
  h *= 0xc4ceb9fe1a85ec53ul; h ^= h >> 31;
  return h;
}
static double hval(unsigned long h) { h >>= 7; if (mode % 3 == 0) return (double)(long)(h % 9) - 2; if (mode % 3 == 1) return ((double)(long)(h % 4097) - 1024) / 64; return (double)(long)(h % 5) ; }
static bool ffind(const char* f, const std::string& args, double& r) {
  if (ffixed.empty()) return false;
  auto i = ffixed.find(std::string(f) + "(" + args + ")"); if (i == ffixed.end()) return false;
  r = strtod(i->second.c_str(), nullptr); return true;
}
static std::string A(long a) { return std::to_string(a); }
static std::string A(double a) { char b[40]; snprintf(b, sizeof b, "%.9g", a); return b; }
#define FFIX(f, args) { double r_; if (ffind(f, args, r_)) return r_; }
extern "C" {
bool vf_symbolic() { return false; }
void vf_bound(int) {} void vf_ghost(long) {} void vf_index(long) {} void vf_valuef(double) {} void vf_valuei(long) {} void vf_name(long) {} void vf_acc_(void*, int, ...) {} void vf_inv_(void*, int, int, ...) {} void vf_forget_hints() {} void vf_spec_unfold(int) {}
long vf_long(const char* n, long lo, long hi) {
  std::string k = key(n); long v = pick(lo, hi);
  auto i = fixed.find(k); if (i != fixed.end()) v = strtol(i->second.c_str(), nullptr, 10);
  if (v < lo) v = lo; if (v > hi) v = hi;
  note(k, std::to_string(v)); return v;
}
int vf_int(const char* n, int lo, int hi) { return (int)vf_long(n, lo, hi); }
bool vf_bool(const char* n) { std::string k = key(n); bool v = rng() & 1; auto i = fixed.find(k); if (i != fixed.end()) v = i->second[0] == '1' || i->second[0] == 't'; note(k, v ? "1" : "0"); return v; }
double vf_real(const char* n) {
  std::string k = key(n); double v = pickr(rng);
  auto i = fixed.find(k); if (i != fixed.end()) v = strtod(i->second.c_str(), nullptr);
  char b[64]; snprintf(b, sizeof b, "%.17g", v); note(k, b); return v;
}
void vf_assume(bool c) { if (!c) throw Reject(); }
void vf_assert(bool c, const char* name) {
  sh->asserts++;
  if (!c) { snprintf(sh->fail, sizeof sh->fail, "assertion: %s", name); if (trace) printf("FAILED %s\n", sh->fail); fflush(stdout); _exit(77); }
}
void vf_cover(bool, const char*) {}
double vf_fun1(const char* f, long a) { FFIX(f, A(a)) return hval(hash(f, a, 0, 0)); }
double vf_fun2(const char* f, long a, long b) { FFIX(f, A(a) + "," + A(b)) return hval(hash(f, a, b, 0)); }
double vf_fun3(const char* f, long a, long b, long c) { FFIX(f, A(a) + "," + A(b) + "," + A(c)) return hval(hash(f, a, b, c)); }
static long rl(double a) { float f = (float)a; return (long)llround(a * 4096) + (f != f); }
double vf_rfun1(const char* f, double a) { FFIX(f, A(a)) return hval(hash(f, rl(a), 0, 0)); }
double vf_rfun2(const char* f, double a, double b) { FFIX(f, A(a) + "," + A(b)) return hval(hash(f, rl(a), rl(b), 0)); }
static int ifun(const char* f, long a, long b, int lo, int hi) {
  unsigned long h = hash(f, a, b, 7); long n = (long)hi - lo + 1; long mid = lo > 0 ? lo : (hi < 0 ? hi : 0);
  long v = (h >> 9) % 4 ? mid + (long)((h >> 20) % 4) : lo + (long)((h >> 20) % (unsigned long)n);
  return (int)(v < lo ? lo : v > hi ? hi : v);
}
int vf_ifun2(const char* f, long a, long b, int lo, int hi) { FFIX(f, A(a) + "," + A(b)) return ifun(f, a, b, lo, hi); }
int vf_ifun1(const char* f, long a, int lo, int hi) { FFIX(f, A(a)) return ifun(f, a, 0, lo, hi); }
bool vf_bfun1(const char* f, long a) { FFIX(f, A(a)) return (hash(f, a, 0, 3) >> 13) & 1; }
bool vf_bfun2(const char* f, long a, long b) { FFIX(f, A(a) + "," + A(b)) return (hash(f, a, b, 3) >> 13) & 1; }
void vf_fillf(float* p, long n, const char* f) { for (long i = 0; i < n; i++) p[i] = (float)vf_fun1(f, i); }
void vf_filld(double* p, long n, const char* f) { for (long i = 0; i < n; i++) p[i] = vf_fun1(f, i); }
void vf_fill2f(float* p, long w, long h, const char* f, long x0, long y0) { for (long j = 0; j < h; j++) for (long i = 0; i < w; i++) p[i + j * w] = (float)vf_fun2(f, x0 + i, y0 + j); }
void vf_fill2d(double* p, long w, long h, const char* f, long x0, long y0) { for (long j = 0; j < h; j++) for (long i = 0; i < w; i++) p[i + j * w] = vf_fun2(f, x0 + i, y0 + j); }
void vf_fieldi(int* p, long n, long s, const char* f, long c, int lo, int hi) { for (long k = 0; k < n; k++) *(int*)((char*)p + k * s) = vf_ifun2(f, c, k, lo, hi); }
void vf_fieldf(float* p, long n, long s, const char* f, long c) { for (long k = 0; k < n; k++) *(float*)((char*)p + k * s) = (float)vf_fun2(f, c, k); }
void vf_fieldd(double* p, long n, long s, const char* f, long c) { for (long k = 0; k < n; k++) *(double*)((char*)p + k * s) = vf_fun2(f, c, k); }
void vf_fill2i(int* p, long w, long h, const char* f, long x0, long y0, int lo, int hi) { for (long j = 0; j < h; j++) for (long i = 0; i < w; i++) p[i + j * w] = vf_ifun2(f, x0 + i, y0 + j, lo, hi); }
void vf_fill2u(unsigned* p, long w, long h, const char* f, long x0, long y0, int lo, int hi) { for (long j = 0; j < h; j++) for (long i = 0; i < w; i++) p[i + j * w] = (unsigned)vf_ifun2(f, x0 + i, y0 + j, lo, hi); }
void vf_fill2l(long* p, long w, long h, const char* f, long x0, long y0, long lo, long hi) { for (long j = 0; j < h; j++) for (long i = 0; i < w; i++) p[i + j * w] = vf_ifun2(f, x0 + i, y0 + j, (int)lo, (int)hi); }
bool vf_eq(double a, double b) {
  if (a == b) return true;
  if (a != a || b != b) return a != a && b != b;
  double s = std::fabs(a) + std::fabs(b); return std::fabs(a - b) <= 1e-3 * s + 1e-4;
}
bool vf_le(double a, double b) { return a <= b || vf_eq(a, b); }
}
static void once(void (*f)(), unsigned long seed) {
  rng.seed(seed * 7919 + 13); for (int i = 0; i < 3; i++) rng();
  fseed = seed; mode = (int)(seed % 12); cnt.clear(); sh->runs++;
  try { f(); }
  catch (Reject&) { sh->rejected++; if (trace) printf("precondition not satisfied\n"); }
  catch (std::exception& e) { snprintf(sh->fail, sizeof sh->fail, "unexpected exception: %.300s", e.what()); if (trace) printf("FAILED %s\n", sh->fail); fflush(stdout); _exit(77); }
}
int main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string m = argc > 1 ? argv[1] : "";
  auto find = [&](const std::string& n) -> void (*)() { for (auto& r : regs()) if (r.first == n) return r.second; return nullptr; };
  if (m == "list") { for (auto& r : regs()) puts(r.first.c_str()); return 0; }
  if (m == "replay") {   // replay HARNESS FILE: prints the inputs, exit 1 if it fails, 0 if it holds
    auto f = find(argv[2]); if (!f) return 2;
    std::ifstream in(argv[3]); std::string line; unsigned long seed = 1;
    while (std::getline(in, line)) {
      if (line.compare(0, 5, "seed ") == 0) seed = strtoul(line.c_str() + 5, nullptr, 10);
      if (line.compare(0, 4, "val ") == 0) { std::istringstream ss(line.substr(4)); std::string a, b; ss >> a >> b; fixed[a] = b; }
      if (line.compare(0, 4, "fun ") == 0) { std::istringstream ss(line.substr(4)); std::string a, b; ss >> a >> b; ffixed[a] = b; }
    }
    trace = true;
    pid_t p = fork();
    if (!p) { struct rlimit l{60, 60}; setrlimit(RLIMIT_CPU, &l); once(f, seed); fflush(stdout); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { puts("holds on this input"); return 0; }
    if (WIFSIGNALED(st)) printf("FAILED killed by signal %d\n", WTERMSIG(st));
    return 1;
  }
  if (m == "fuzz") {     // fuzz HARNESS SECONDS SEED0 -> "fail SEED TEXT" or "ok RUNS REJECTED ASSERTS"
    auto f = find(argv[2]); if (!f) return 2;
    double secs = atof(argv[3]); unsigned long s0 = strtoul(argv[4], nullptr, 10);
    long maxruns = argc > 5 ? atol(argv[5]) : 2000000;
    sh->seed = s0; 
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    pid_t p = fork();
    if (!p) {
      struct rlimit l{(rlim_t)secs + 20, (rlim_t)secs + 20}; setrlimit(RLIMIT_CPU, &l);
      struct rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
      for (long k = 0; k < maxruns; k++) {
        sh->seed = s0 + k; alarm(10); once(f, s0 + k);
        if (k % 16 == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break; }
      }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("ok %ld %ld %ld\n", sh->runs, sh->rejected, sh->asserts); return 0; }
    if (!sh->fail[0]) { if (WIFSIGNALED(st)) snprintf(sh->fail, sizeof sh->fail, "%s", WTERMSIG(st) == SIGALRM ? "does not terminate" : "crash"); else snprintf(sh->fail, sizeof sh->fail, "memory error reported by the sanitizer or exit %d", WEXITSTATUS(st)); }
    printf("fail %lu %s\n", sh->seed, sh->fail); return 1;
  }
  return 2;
}
