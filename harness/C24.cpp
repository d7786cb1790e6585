// C24: integer geometry of pixel coordinates and rectangles
#include "vf.h"
#include <cassert>
#include <vector>
#include "SEUtils/PixelCoordinate.h"
#include "SEUtils/PixelRectangle.h"
using namespace SourceXtractor;
static const int B = 1000000000;   // sums and differences fit an int
static PixelCoordinate coord(const char* x, const char* y) { return PixelCoordinate(vf_int(x, -B, B), vf_int(y, -B, B)); }
VF_HARNESS(coordinate_default) { PixelCoordinate c; vf_assert(c.m_x == 0 && c.m_y == 0, "the default is the origin"); }
VF_HARNESS(coordinate_comparison) {
  PixelCoordinate a = coord("ax", "ay"), b = coord("bx", "by");
  bool eq = a.m_x == b.m_x && a.m_y == b.m_y;
  vf_assert((a == b) == eq, "equal exactly when both parts are equal");
  vf_assert((a != b) == !eq, "different exactly when a part differs");
  vf_assert((a >= b) == (a.m_x >= b.m_x && a.m_y >= b.m_y), ">= in both directions");
  vf_assert((a <= b) == (a.m_x <= b.m_x && a.m_y <= b.m_y), "<= in both directions");
}
VF_HARNESS(coordinate_arithmetic) {
  PixelCoordinate a = coord("ax", "ay"), b = coord("bx", "by"), s = a + b, d = a - b, a1 = a, a2 = a;
  vf_assert(s.m_x == a.m_x + b.m_x && s.m_y == a.m_y + b.m_y, "sum");
  vf_assert(d.m_x == a.m_x - b.m_x && d.m_y == a.m_y - b.m_y, "difference");
  PixelCoordinate& r1 = (a1 += b); PixelCoordinate& r2 = (a2 -= b);
  vf_assert(a1 == s && &r1 == &a1, "+= is the sum");
  vf_assert(a2 == d && &r2 == &a2, "-= is the difference");
  vf_assert((a + b) - b == a && (a - b) + b == a, "sum and difference undo each other");
}
VF_HARNESS(coordinate_scaling) {
  PixelCoordinate a(vf_int("ax", -30000, 30000), vf_int("ay", -30000, 30000));
  double f = vf_real("f"); vf_assume(f >= -30000 && f <= 30000);
  PixelCoordinate p = a * f;
  double ex = a.m_x * f, ey = a.m_y * f;
  vf_assert(ex >= 0 ? p.m_x <= ex && ex < p.m_x + 1 : p.m_x >= ex && ex > p.m_x - 1, "x scaled, rounded towards zero");
  vf_assert(ey >= 0 ? p.m_y <= ey && ey < p.m_y + 1 : p.m_y >= ey && ey > p.m_y - 1, "y scaled, rounded towards zero");
}
VF_HARNESS(coordinate_clip) {
  PixelCoordinate a = coord("ax", "ay"), c = a;
  int w = vf_int("w", 1, B), h = vf_int("h", 1, B), x = vf_int("x", 0, w - 1), y = vf_int("y", 0, h - 1);
  bool moved = c.clip(w, h);
  vf_assert(c.m_x >= 0 && c.m_x < w && c.m_y >= 0 && c.m_y < h, "inside the box");
  vf_assert(moved == (a.m_x < 0 || a.m_y < 0 || a.m_x >= w || a.m_y >= h), "reports exactly whether it was outside");
  if (!moved) vf_assert(c == a, "a position inside the box does not move");
  vf_assert(std::abs((long)c.m_x - a.m_x) <= std::abs((long)x - a.m_x) && std::abs((long)c.m_y - a.m_y) <= std::abs((long)y - a.m_y), "no pixel of the box is closer");
}
VF_HARNESS(coordinate_hash) {
  PixelCoordinate a = coord("ax", "ay"), b(a.m_x, a.m_y);
  vf_assert(std::hash<PixelCoordinate>()(a) == std::hash<PixelCoordinate>()(b), "equal coordinates have equal hashes");
}
VF_HARNESS(rectangle) {
  int x0 = vf_int("x0", 0, B), y0 = vf_int("y0", 0, B), x1 = vf_int("x1", x0, B), y1 = vf_int("y1", y0, B);
  PixelRectangle r(PixelCoordinate(x0, y0), PixelCoordinate(x1, y1)), q(r);
  vf_assert(r.getTopLeft() == PixelCoordinate(x0, y0) && r.getBottomRight() == PixelCoordinate(x1, y1), "corners");
  vf_assert(r.getWidth() == x1 - x0 + 1 && r.getHeight() == y1 - y0 + 1, "number of columns and rows from corner to corner");
  vf_assert(q.getTopLeft() == r.getTopLeft() && q.getBottomRight() == r.getBottomRight() && q.getWidth() == r.getWidth() && q.getHeight() == r.getHeight(), "a copy is the same rectangle");
  PixelRectangle e; q = e;
  vf_assert(q.getWidth() == 0 && q.getHeight() == 0 && r.getWidth() == x1 - x0 + 1, "assignment copies and leaves the other alone");
}
VF_HARNESS(rectangle_empty) { PixelRectangle r; vf_assert(r.getWidth() == 0 && r.getHeight() == 0, "a default rectangle is empty"); }
