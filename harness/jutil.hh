// Helpers shared by the properties: small vectors, set comparison, random data
#ifndef VERIF_JUTIL_HH
#define VERIF_JUTIL_HH

#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <set>

#include <mpi.h>

#include "pbt.hh"

#include "Mesh.hh"
#include "Point.hh"
#include "errors.hh"
#include "exceptions.hh"

namespace jv {

using pbt::Ctx;
using pbt::Gen;
using JaliGeometry::Point;
using Jali::Entity_ID;
using Jali::Entity_ID_List;
using Jali::Entity_kind;
using Jali::Entity_type;
using Jali::Mesh;

using ints = std::vector<int>;

// An output list that was used before: queries must replace what it holds,
// whether that is more or less than what they return
template <class V> struct Used : V {
  Used() : V(97, typename V::value_type()) {}
  Used &operator=(V const &v) { V::operator=(v); return *this; }
};
using used_ints = Used<ints>;
using used_points = Used<std::vector<Point>>;
using used_dirs = Used<std::vector<Jali::dir_t>>;

inline ints sorted(ints v) {
  std::sort(v.begin(), v.end());
  return v;
}
inline std::string pstr(Point const &p) {
  std::ostringstream os;
  os.precision(12);
  os << "(";
  for (int i = 0; i < p.dim(); ++i) os << (i ? "," : "") << p[i];
  os << ")";
  return os.str();
}

// Independent 3-vector, so that oracles do not lean on JaliGeometry::Point
struct V3 {
  long double x = 0, y = 0, z = 0;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(long double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline V3 operator*(V3 a, long double s) { return s * a; }
inline V3 operator/(V3 a, long double s) { return {a.x / s, a.y / s, a.z / s}; }
inline long double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline long double len(V3 a) { return sqrtl(dot(a, a)); }
inline V3 v3(Point const &p) {
  V3 r;
  int d = p.dim();
  if (d > 0) r.x = p[0];
  if (d > 1) r.y = p[1];
  if (d > 2) r.z = p[2];
  return r;
}
inline std::string pstr(V3 p) {
  std::ostringstream os;
  os.precision(12);
  os << "(" << (double)p.x << "," << (double)p.y << "," << (double)p.z << ")";
  return os.str();
}
inline Point pt(V3 v, int dim) {
  if (dim == 1) { Point p(1); p.set(static_cast<double>(v.x)); return p; }
  if (dim == 2) return Point((double)v.x, (double)v.y);
  return Point((double)v.x, (double)v.y, (double)v.z);
}

// A "nice or arbitrary" real number: small integers and halves are as likely
// as full random mantissas
inline double some_real(Gen &g, double lo, double hi) {
  switch (g.draw(3)) {
    case 0: return std::round(g.real(lo, hi));
    case 1: return std::round(g.real(lo, hi) * 8) / 8;
    default: return g.real(lo, hi);
  }
}

// A length scale: mostly 1, now and then anything from 1e-9 to 1e9
inline double any_scale(Gen &g) { return g.chance(1, 3) ? std::pow(10.0, g.range(0, 18) - 9.0) : 1.0; }

#define CHECK_SET(got, want, tag, msg)                                     \
  do {                                                                     \
    jv::ints g_ = jv::sorted(got), w_ = jv::sorted(want);                  \
    if (g_ != w_) {                                                        \
      std::ostringstream os_;                                              \
      os_ << msg << ": got " << pbt::str(g_) << ", expected " << pbt::str(w_); \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

// same list, in the same order
#define CHECK_LIST(got, want, tag, msg)                                    \
  do {                                                                     \
    jv::ints g_ = got, w_ = want;                                          \
    if (g_ != w_) {                                                        \
      std::ostringstream os_;                                              \
      os_ << msg << ": got " << pbt::str(g_) << ", expected " << pbt::str(w_); \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

#define CHECK_VEC(gotp, wantp, tol, tag, msg)                              \
  do {                                                                     \
    jv::V3 g_ = gotp, w_ = wantp;                                          \
    if (!(jv::len(g_ - w_) <= (tol))) {                                    \
      std::ostringstream os_;                                              \
      os_ << msg << ": got " << jv::pstr(g_) << ", expected "              \
          << jv::pstr(w_) << " (tol " << (double)(tol) << ")";             \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

// List of a kind of entities by parallel type, through the public templates
inline ints entity_list(Mesh const &m, Entity_kind k, Entity_type t) {
#define JV_L(fn)                                                           \
  (t == Entity_type::PARALLEL_OWNED ? m.fn<Entity_type::PARALLEL_OWNED>()  \
   : t == Entity_type::PARALLEL_GHOST ? m.fn<Entity_type::PARALLEL_GHOST>()\
                                      : m.fn<Entity_type::ALL>())
#define JV_LB(fn)                                                          \
  (t == Entity_type::BOUNDARY_GHOST ? m.fn<Entity_type::BOUNDARY_GHOST>() : JV_L(fn))
  switch (k) {
    case Entity_kind::NODE: return t == Entity_type::BOUNDARY_GHOST ? ints() : JV_L(nodes);
    case Entity_kind::EDGE: return t == Entity_type::BOUNDARY_GHOST ? ints() : JV_L(edges);
    case Entity_kind::FACE: return t == Entity_type::BOUNDARY_GHOST ? ints() : JV_L(faces);
    case Entity_kind::CELL: return JV_LB(cells);
    case Entity_kind::SIDE: return JV_LB(sides);
    case Entity_kind::WEDGE: return JV_LB(wedges);
    case Entity_kind::CORNER: return JV_LB(corners);
    default: return ints();
  }
#undef JV_L
#undef JV_LB
}

}  // namespace jv
#endif
