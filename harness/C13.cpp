// C13: flag sets
//@ sources @rt_text.cpp
#include "vf.h"
#include "SEFramework/Source/SourceFlags.h"
using namespace SourceXtractor;
static const int64_t M = (1LL << 62) - 1;
static Flags any(const char* n) { return (Flags)vf_long(n, 0, M); }
static int64_t b(bool x, int i) { return (int64_t)x << i; }
VF_HARNESS(flags_or_and) {
  int64_t va = 0, vb = 0, vor = 0, vand = 0;
  for (int i = 0; i < 62; i++) { bool p = vf_bool("a"), q = vf_bool("b"); va += b(p, i); vb += b(q, i); vor += b(p | q, i); vand += b(p & q, i); }
  Flags x = (Flags)va, y = (Flags)vb, c = x;
  vf_assert((int64_t)(x | y) == vor, "the union holds exactly the flags present in either operand");
  vf_assert((int64_t)(x & y) == vand, "the intersection holds exactly the flags present in both operands");
  Flags& r = (c |= y);
  vf_assert((int64_t)c == vor && &r == &c, "|= is the union");
}
VF_HARNESS(flags_switch) {
  Flags a = any("a"); bool on = vf_bool("on");
  vf_assert((a * on) == (on ? a : Flags::NONE), "a disabled flag contributes nothing, an enabled one everything");
}
VF_HARNESS(flags_to_long) {
  Flags a = any("a"), b = any("b");
  vf_assert(flags2long(a) == (int64_t)a, "the exact integer");
  vf_assert((flags2long(a) == flags2long(b)) == (a == b), "distinct flag sets stay distinct");
}
// --- printing: all combinations of the defined flags, one by one
struct Def { Flags f; const char* name; };
static const Def defs[] = { {Flags::BIASED, "BIASED"}, {Flags::BLENDED, "BLENDED"}, {Flags::SATURATED, "SATURATED"}, {Flags::BOUNDARY, "BOUNDARY"},
  {Flags::NEIGHBORS, "NEIGHBORS"}, {Flags::OUTSIDE, "OUTSIDE"}, {Flags::PARTIAL_FIT, "PARTIAL_FIT"}, {Flags::INSUFFICIENT_DATA, "INSUFFICIENT_DATA"},
  {Flags::ERROR, "ERROR"}, {Flags::MEMORY, "MEMORY"}, {Flags::BAD_PROJECTION, "BAD_PROJECTION"}, {Flags::DOWNSAMPLED, "DOWNSAMPLED"} };
extern "C" { char vf_text[1024]; int vf_text_n; }
#define text vf_text
#define text_n vf_text_n
#ifdef VF_NATIVE
#include <sstream>
static void show(Flags f) { std::ostringstream o; o << f; std::string s = o.str(); text_n = 0; for (char c : s) text[text_n++] = c; }
#else
alignas(16) static char nostream[sizeof(std::ostream)];
static void show(Flags f) { text_n = 0; *(std::ostream*)nostream << f; }
#endif
static bool letter(char c) { return (c >= 'A' && c <= 'Z') || c == '_'; }
static bool is_word(int a, int b, const char* w) { for (; a < b; a++, w++) if (!*w || *w != text[a]) return false; return !*w; }
static void printed(int low) {
  bool on[12]; int64_t v = 0; int nset = 0;
  for (int i = 0; i < 12; i++) {
    if (i < 4) on[i] = (low >> i) & 1; else { on[i] = false; if (vf_bool("flag")) { vf_assume(true); on[i] = true; } }   // one path per combination
    if (on[i]) { v += (int64_t)defs[i].f; nset++; }
  }
  show((Flags)v);
  int found = 0;
  for (int a = 0; a < text_n;) {
    if (!letter(text[a])) { a++; continue; }
    int b = a; while (b < text_n && letter(text[b])) b++;
    bool known = nset == 0 && is_word(a, b, "NONE");
    for (int i = 0; i < 12 && !known; i++) if (on[i] && is_word(a, b, defs[i].name)) { on[i] = false; found++; known = true; }
    vf_assert(known, "every word printed names a flag that is set");
    a = b;
  }
  vf_assert(found == nset, "every flag that is set is named");
}
VF_HARNESS(print_0) { printed(0); }
VF_HARNESS(print_1) { printed(1); }
VF_HARNESS(print_2) { printed(2); }
VF_HARNESS(print_3) { printed(3); }
VF_HARNESS(print_4) { printed(4); }
VF_HARNESS(print_5) { printed(5); }
VF_HARNESS(print_6) { printed(6); }
VF_HARNESS(print_7) { printed(7); }
VF_HARNESS(print_8) { printed(8); }
VF_HARNESS(print_9) { printed(9); }
VF_HARNESS(print_10) { printed(10); }
VF_HARNESS(print_11) { printed(11); }
VF_HARNESS(print_12) { printed(12); }
VF_HARNESS(print_13) { printed(13); }
VF_HARNESS(print_14) { printed(14); }
VF_HARNESS(print_15) { printed(15); }
