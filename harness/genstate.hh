// Element types for state vectors
#pragma once
#include <array>
#include <functional>
#include <ostream>
#include "jutil.hh"

namespace jv {

// a few names, some of them alike
inline std::vector<std::string> name_pool(pbt::Gen &g, int lo, int hi) {
  std::string const lng(60, 'n');
  std::vector<std::string> all = {"a", "b", "", "a b", "density", "Density", "density2", "densit", " a", "a ", "A", "0", "1",
                                  lng + "1", lng + "2", lng, "vol_frac", "vol-frac", "T", "rho", "x/y", "\xc3\xa9", "ab", "ba",
                                  "MATERIAL_NAME", "UNDEFINED"};
  g.shuffle(all);
  all.resize(g.range(lo, hi));
  return all;
}

struct Rec {
  int a = 0;
  double b = 0;
};
inline std::ostream &operator<<(std::ostream &os, Rec const &r) { return os << r.a << ":" << r.b; }

// every element type carries an integer
template <class T> struct Enc {
  static T make(int v) { return static_cast<T>(v); }
  static int read(T const &t) { return static_cast<int>(t); }
};
template <> struct Enc<double> {
  static double make(int v) { return v + (v ? 0.25 : 0); }
  static int read(double t) { return t == 0 ? 0 : t == std::floor(t - 0.25) + 0.25 ? static_cast<int>(std::floor(t)) : -77777; }
};
template <> struct Enc<Rec> {
  static Rec make(int v) { Rec r; r.a = v; r.b = 2.0 * v; return r; }
  static int read(Rec const &r) { return r.b == 2.0 * r.a ? r.a : -77777; }
};
template <std::size_t N> struct Enc<std::array<double, N>> {
  static std::array<double, N> make(int v) {
    std::array<double, N> a;
    for (std::size_t i = 0; i < N; ++i) a[i] = v ? v * (i + 1.0) : 0;
    return a;
  }
  static int read(std::array<double, N> const &a) {
    for (std::size_t i = 0; i < N; ++i) if (a[i] != a[0] * (i + 1.0)) return -77777;
    return static_cast<int>(a[0]);
  }
};
template <class T> struct Tag { using type = T; };
const int kElems = 6;
template <class F> void with_elem(int e, F f) {
  switch (e) {
    case 0: f(Tag<int>()); break;
    case 1: f(Tag<double>()); break;
    case 2: f(Tag<std::array<double, 2>>()); break;
    case 3: f(Tag<std::array<double, 3>>()); break;
    case 4: f(Tag<std::array<double, 6>>()); break;
    default: f(Tag<Rec>());
  }
}
inline char const *elem_name(int e) {
  char const *n[] = {"int", "double", "double[2]", "double[3]", "double[6]", "record"};
  return n[e];
}

}  // namespace jv
