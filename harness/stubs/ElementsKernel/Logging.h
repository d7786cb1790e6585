// Stand-in for the Elements library (see Exception.h)
#ifndef VF_ELEMENTS_LOGGING
#define VF_ELEMENTS_LOGGING
#include <string>
namespace Elements {
class Logging {
public:
  struct Out { template <class T> Out& operator<<(const T&) { return *this; } };
  static Logging getLogger(const char*) { return Logging(); }
  Out debug() { return Out(); } Out info() { return Out(); } Out warn() { return Out(); } Out error() { return Out(); } Out fatal() { return Out(); }
};
}
#endif
