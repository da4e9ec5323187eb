#ifndef UTIL_H_
#define UTIL_H_
#include <cstring>
#include <memory>
#include <string>
#include <vector>
// An exactly sized heap copy: any read outside it is reported by ASan.
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) {
    if (n) memcpy(p.get(), s.data(), n);
  }
  const char* data() const { return p.get(); }
};
inline std::string str(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.9g", d);
  return b;
}
#endif
