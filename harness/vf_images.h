// Abstract images: the contract of the Image interface.
//   getChunk(x,y,w,h): requires the rectangle to lie inside the image (checked: an obligation of the caller);
//   ensures a chunk of exactly w x h pixels, pixel (i,j) being pixel (x+i,y+j) of the image.
// The pixel values are an arbitrary function of the position.
#ifndef VF_IMAGES_H
#define VF_IMAGES_H
#include "vf.h"
#include <vector>
#include <memory>
#include <string>
#include <cassert>
#include <cmath>
#include <map>
#include <set>
#include <list>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <numeric>
#include <mutex>
#include <thread>
#include <atomic>
#include <unordered_map>
#include <boost/functional/hash.hpp>
#define private public
#define protected public
#include "SEUtils/PixelCoordinate.h"
#include "SEFramework/Image/Image.h"
#include "SEFramework/Image/ImageChunk.h"
#include "SEFramework/Image/ImageAccessor.h"
using namespace SourceXtractor;
namespace vfi {
template <class T> struct AbsImage : public Image<T> {
  const char* name; int w, h; bool universal;   // universal: which of the two chunk classes is handed out
  AbsImage(const char* n, int w_, int h_, bool u = true) : name(n), w(w_), h(h_), universal(u) {}
  std::string getRepr() const override { return std::string(); }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  T pixel(long x, long y) const;
  std::shared_ptr<ImageChunk<T>> getChunk(int x, int y, int cw, int ch) const override;
};
template <> inline float AbsImage<float>::pixel(long x, long y) const { return (float)vf_fun2(name, x, y); }
template <> inline double AbsImage<double>::pixel(long x, long y) const { return vf_fun2(name, x, y); }
template <> inline int AbsImage<int>::pixel(long x, long y) const { return vf_ifun2(name, x, y, -2147483647, 2147483647); }
template <> inline unsigned AbsImage<unsigned>::pixel(long x, long y) const { return (unsigned)vf_ifun2(name, x, y, 0, 2147483647); }
inline void fill2(float* p, long w, long h, const char* f, long x, long y) { vf_fill2f(p, w, h, f, x, y); }
inline void fill2(double* p, long w, long h, const char* f, long x, long y) { vf_fill2d(p, w, h, f, x, y); }
inline void fill2(int* p, long w, long h, const char* f, long x, long y) { vf_fill2i(p, w, h, f, x, y, -2147483647, 2147483647); }
inline void fill2(unsigned* p, long w, long h, const char* f, long x, long y) { vf_fill2u(p, w, h, f, x, y, 0, 2147483647); }
template <class T> std::shared_ptr<ImageChunk<T>> AbsImage<T>::getChunk(int x, int y, int cw, int ch) const {
  vf_assert(cw > 0 && ch > 0, "the requested region is not empty");
  vf_assert(x >= 0 && y >= 0 && x + (long)cw <= w && y + (long)ch <= h, "the requested region lies inside the image");
  std::vector<T> v((size_t)cw * ch);
  fill2(v.data(), cw, ch, name, x, y);
  if (!universal) return ImageChunk<T>::create(std::make_shared<std::vector<T>>(std::move(v)), 0, cw, ch, cw);
  return UniversalImageChunk<T>::create(std::move(v), cw, ch);
}
// largest image side considered: no overflow of int in width*height (see DESIGN.md)
static const int MAXSIDE = 30000;
inline int side(const char* n) { return vf_int(n, 1, MAXSIDE); }
template <class T> std::shared_ptr<AbsImage<T>> image(const char* n, int w, int h, bool universal = true) { return std::make_shared<AbsImage<T>>(n, w, h, universal); }
// any requested region [x,x+cw) x [y,y+ch) inside a w x h image and any position (gx,gy) inside the region
struct Region { int x, y, cw, ch, gx, gy; };
inline Region region(int w, int h) {
  Region r; r.x = vf_int("x", 0, w - 1); r.y = vf_int("y", 0, h - 1); r.cw = vf_int("cw", 1, w - r.x); r.ch = vf_int("ch", 1, h - r.y);
  r.gx = vf_int("gx", 0, r.cw - 1); r.gy = vf_int("gy", 0, r.ch - 1); return r;
}
// hints for a double loop that writes value v to position (gx,gy) of a region stored row by row
inline void hint2(const Region& r, double v) { vf_index(r.gx + (long)r.gy * r.cw); vf_ghost(r.gx); vf_ghost(r.gy); vf_valuef(v); }
// "there is no chunk": what a user of the accessor sees
template <class T> T pixel_of(const Image<T>* im, int x, int y) {
  auto a = dynamic_cast<const AbsImage<T>*>(im);
  if (a) return a->pixel(x, y);
  return im->getChunk(x, y, 1, 1)->getValue(0, 0);
}
}
#if defined(VF_ACCESSOR_CONTRACT) && !defined(VF_NATIVE)
// Contract of ImageAccessor::getValue, proved for its body in harness/C05.cpp:
//   requires (x,y) inside the image; ensures result == pixel (x,y) of the image, whatever was read before.
namespace SourceXtractor {
#define VF_ACC(T) \
template <> __attribute__((used)) inline T ImageAccessor<T>::getValue(int x, int y) { \
  vf_assert(x >= 0 && y >= 0 && x < m_image->getWidth() && y < m_image->getHeight(), "a pixel inside the image is read"); \
  return vfi::pixel_of<T>(m_image, x, y); } \
template <> __attribute__((used)) inline T ImageAccessor<T>::getValue(const PixelCoordinate& c) { \
  vf_assert(c.m_x >= 0 && c.m_y >= 0 && c.m_x < m_image->getWidth() && c.m_y < m_image->getHeight(), "a pixel inside the image is read"); \
  return vfi::pixel_of<T>(m_image, c.m_x, c.m_y); }
VF_ACC(float) VF_ACC(int) VF_ACC(unsigned) VF_ACC(double)
}
#endif
#endif
