// Stand-in for the Elements library, which is not installed here: an exception that accepts << and a logger that drops its text.
#ifndef VF_ELEMENTS_EXCEPTION
#define VF_ELEMENTS_EXCEPTION
#include <exception>
#include <string>
namespace Elements {
class Exception : public std::exception {
public:
  Exception() {}
  explicit Exception(const char*) {}
  explicit Exception(const std::string&) {}
  template <class T> Exception& operator<<(const T&) { return *this; }
  const char* what() const noexcept override { return "Elements::Exception"; }
};
}
#endif
