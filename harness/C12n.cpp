// C12: the neighbour map
//@ sources SEFramework/src/lib/Aperture/NeighbourInfo.cpp
//@ opt map precisearr=1
//@ opt map_one precisearr=1
//@ opt map_none precisearr=1
#include "vf_images.h"
#include "SEFramework/Aperture/NeighbourInfo.h"
using namespace vfi;
#ifdef VF_NATIVE
#define NAT(a, b) a
#else
#define NAT(a, b) b
#endif
static long lx(long k) { return vf_ifun2("list", 0, k, -NAT(3, 60000), NAT(12, 60000)); }
static long ly(long k) { return vf_ifun2("list", 1, k, -NAT(3, 60000), NAT(12, 60000)); }
// is (x,y) among the first k pixels of the list
#ifdef VF_NATIVE
static double spec_listed(long k, long x, long y) { for (long i = 0; i < k; ++i) if (lx(i) == x && ly(i) == y) return 1; return 0; }
#else
extern "C" double spec_listed(long k, long x, long y) { return k <= 0 ? 0. : lx(k - 1) == x && ly(k - 1) == y ? 1. : spec_listed(k - 1, x, y); }
#endif
static bool cand_marked(int v, long k, long x, long y) { return v == (spec_listed(k, x, y) != 0 ? -1 : 0); }
static void map(int n) {
  int w = side("w"), h = side("h");
  Region r = region(w, h); int gx = r.x + r.gx, gy = r.y + r.gy;
  std::vector<PixelCoordinate> list(n); if (n) { vf_fieldi(&list.data()->m_x, n, sizeof(PixelCoordinate), "list", 0, -NAT(3, 60000), NAT(12, 60000)); vf_fieldi(&list.data()->m_y, n, sizeof(PixelCoordinate), "list", 1, -NAT(3, 60000), NAT(12, 60000)); }
  auto thr = image<float>("thr", w, h);
  vf_spec_unfold(2);
  bool listed = spec_listed(n, gx, gy) != 0; int e = thr->pixel(gx, gy) > 0 && !listed;
  vf_ghost(r.gx); vf_ghost(r.gy); vf_index(r.gx + (long)r.gy * r.cw); vf_valuei(e); vf_valuei(listed ? -1 : 0);
  vf_inv(cand_marked, 1, 1, (long)gx, (long)gy);
  NeighbourInfo info(PixelCoordinate(r.x, r.y), PixelCoordinate(r.x + r.cw - 1, r.y + r.ch - 1), list, thr);
  vf_assert(info.isNeighbourObjectPixel(gx, gy) == (e != 0), "a neighbour pixel is above the threshold and not one of the source's");
  vf_cover(e != 0, "neighbour");
}
VF_HARNESS(map) { map(vf_int("n", 2, NAT(20, 1000000))); }
VF_HARNESS(map_one) { map(1); }
VF_HARNESS(map_none) { map(0); }
