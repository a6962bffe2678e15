// Stub: the Python binding layer is not under test; the C++ class is.
#pragma once
#include <cassert>
#include <string>
#include <vector>
#include <cstdio>
namespace pybind11 {
struct doc_t { template <class T> doc_t &operator=(const T &) { return *this; } };
struct module_ { doc_t d; doc_t &doc() { return d; } template <class... A> module_ &def(A &&...) { return *this; } };
struct arg { arg(const char *) {} template <class T> arg &operator=(const T &) { return *this; } arg &none(bool = true) { return *this; } };
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class T, class... O> struct class_ {
  template <class... A> class_(A &&...) {}
  template <class... A> class_ &def(A &&...) { return *this; }
  template <class... A> class_ &def_static(A &&...) { return *this; }
  template <class... A> class_ &def_readonly(A &&...) { return *this; }
};
} // namespace pybind11
#define PYBIND11_MODULE(name, var) static inline void stub_module_##name(pybind11::module_ &var)
