// stands in for pybind11: bytes are memory of exactly their size
#pragma once
#include <cassert>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace pybind11 {
using ssize_t = std::ptrdiff_t;
class bytes {
  char* p_; size_t n_;
  void set(const char* p, size_t n) { p_ = new char[n]; n_ = n; if (n) memcpy(p_, p, n); }
public:
  bytes() { set("", 0); }
  bytes(const char* p) { set(p, strlen(p)); }
  bytes(const char* p, size_t n) { set(p, n); }
  bytes(const std::string& v) { set(v.data(), v.size()); }
  bytes(std::string_view v) { set(v.data(), v.size()); }
  bytes(const bytes& o) { set(o.p_, o.n_); }
  bytes(bytes&& o) : p_(o.p_), n_(o.n_) { o.p_ = nullptr; o.n_ = 0; }
  bytes& operator=(const bytes& o) { if (this != &o) { delete[] p_; set(o.p_, o.n_); } return *this; }
  ~bytes() { delete[] p_; }
  operator std::string() const { return std::string(p_, n_); }
  operator std::string_view() const { return std::string_view(p_, n_); }
  const char* data() const { return p_; }
  size_t size() const { return n_; }
};
inline size_t len(const bytes& b) { return b.size(); }
struct module_ { template <typename... A> module_& def(A&&...) { return *this; } };
}
#define PYBIND11_MODULE(name, m) static inline void init_##name(pybind11::module_& m)
