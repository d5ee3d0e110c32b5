// P09: region membership and attributes
#include "BoxRegion.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "jutil.hh"
using namespace jv;
using namespace JaliGeometry;
typedef long double ld;

namespace {

std::string rname(Gen &g) {
  static const std::vector<std::string> n = {"", "a", "ALL", "region 1", "x_y", "Entity_kind::CELL", "é"};
  return g.pick(n);
}
LifeCycle_type cyc(Gen &g) { return g.flip() ? LifeCycle_type::PERMANENT : LifeCycle_type::TEMPORARY; }

void meta(Ctx &c, Region const &r, std::string const &n, unsigned id, unsigned dim, Region_type t,
          LifeCycle_type lc, const char *what) {
  CHECK_EQ(r.name(), n, "meta", "name of " << what);
  CHECK_EQ(r.id(), id, "meta", "ID of " << what);
  CHECK_EQ(r.dimension(), dim, "dimension", "dimension of " << what);
  CHECK(r.type() == t, "meta", "type of " << what);
  CHECK(r.lifecycle() == lc, "meta", "life cycle of " << what);
}
bool eqp(Point const &a, Point const &b) {
  if (a.dim() != b.dim()) return false;
  for (int i = 0; i < a.dim(); ++i) if (a[i] != b[i]) return false;
  return true;
}
Point rnd(Gen &g, int d, double m = 8) {
  Point p(d);
  for (int i = 0; i < d; ++i) p[i] = some_real(g, -m, m);
  return p;
}
V3 dbl(V3 p) { return {(double)p.x, (double)p.y, (double)p.z}; }

// Region kept as the original, a copy, or the region behind the base class
template <class R>
std::vector<std::pair<const R *, const char *>> views(R const &r, R const &copy) {
  return {{&r, "region"}, {&copy, "copy of region"}};
}

void box(Gen &g, Ctx &c) {
  int d = g.range(1, 3);
  Point a = rnd(g, d), b = rnd(g, d);
  unsigned ndeg = 0;
  for (int i = 0; i < d; ++i) if (g.chance(1, 5)) b[i] = a[i];
  for (int i = 0; i < d; ++i) if (a[i] == b[i]) ndeg++;
  std::string n = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  BoxRegion r(n, id, a, b, lc), cp(r);
  c.say() << "box " << pstr(a) << " " << pstr(b) << "; points";
  c.label("box " + std::to_string(d) + "D" + (ndeg ? " degenerate" : ""));
  int in = 0, out = 0;
  for (auto &v : views(r, cp)) {
    meta(c, *v.first, n, id, d - ndeg, Region_type::BOX, lc, v.second);
    int k = -1;
    CHECK_EQ(v.first->is_degenerate(&k), ndeg > 0, "degenerate", "is_degenerate of " << v.second);
    CHECK_EQ(k, (int)ndeg, "degenerate", "degenerate directions");
    Point lo, hi;
    v.first->corners(&lo, &hi);
    CHECK(eqp(lo, a) && eqp(hi, b), "corners", "corners of " << v.second);
    CHECK(eqp(v.first->point0(), a) && eqp(v.first->point1(), b), "corners", "points of " << v.second);
    for (int k = 0; k < 8; ++k) {
      Point p(d);
      bool want = true, skip = false;
      for (int i = 0; i < d; ++i) {
        double lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]);
        switch (g.draw(5)) {
          case 0: p[i] = lo; break;
          case 1: p[i] = hi; break;
          case 2: p[i] = lo + (hi - lo) * g.unit(); break;
          case 3: p[i] = g.chance(1, 3) ? g.real(-10, 10) : lo + (hi - lo) * g.unit(); break;
          default: p[i] = g.chance(1, 2) ? (g.flip() ? hi + 1e-6 : lo - 1e-6) : 0.5 * (lo + hi);
        }
        bool inside = p[i] >= lo && p[i] <= hi;
        double off = std::max(lo - p[i], p[i] - hi);
        if (!inside && off < 1e-7) skip = true;
        want = want && inside;
      }
      if (skip) continue;
      (want ? in : out)++;
      c.say() << " " << pstr(p);
      CHECK_EQ(v.first->inside(p), want, "inside", "point " << pstr(p) << " in box");
    }
  }
  Point q(d % 3 + 1);
  bool threw = false;
  try { r.inside(q); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "a query with a point of another dimension was accepted");
  threw = false;
  try { BoxRegion bad("x", 1, a, q); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "corners of different dimensions were accepted");
  c.nontrivial(in && out);
}

void plane(Gen &g, Ctx &c) {
  int d = g.range(2, 3);
  Point p = rnd(g, d), n(d);
  if (g.flip()) n[g.draw(d)] = g.flip() ? 1 : -1;
  else {
    n = rnd(g, d, 1);
    if (norm(n) < 0.2) throw pbt::Discard();
  }
  std::string nm = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  PlaneRegion r(nm, id, p, n, lc), cp(r);
  c.say() << "plane at " << pstr(p) << " normal " << pstr(n);
  c.label("plane");
  V3 N = v3(n), e1 = d == 2 ? V3{-N.y, N.x, 0} : cross(N, fabsl(N.x) < 0.5L * len(N) ? V3{1, 0, 0} : V3{0, 1, 0});
  e1 = e1 / len(e1);
  V3 e2 = d == 2 ? V3{} : cross(N, e1) / len(N);
  bool off = false;
  for (auto &v : views(r, cp)) {
    meta(c, *v.first, nm, id, d - 1, Region_type::PLANE, lc, v.second);
    CHECK(eqp(v.first->point(), p) && eqp(v.first->normal(), n), "plane data", "point and normal of " << v.second);
    for (int k = 0; k < 5; ++k) {
      ld h = 0;
      if (g.flip()) { h = (g.flip() ? 1 : -1) * std::pow(10.0, g.range(-8, 1)); off = true; }
      V3 q = v3(p) + g.real(-5, 5) * e1 + g.real(-5, 5) * e2 + h * N / len(N);
      CHECK_EQ(v.first->inside(pt(q, d)), h == 0, "inside", "point " << pstr(q) << " at distance " << (double)h
               << " on plane");
    }
  }
  Point q(d % 3 + 1);
  bool threw = false;
  try { r.inside(q); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "a query with a point of another dimension was accepted");
  threw = false;
  try { PlaneRegion bad("x", 1, p, q); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "point and normal of different dimensions were accepted");
  c.nontrivial(off);
}

void point(Gen &g, Ctx &c) {
  int d = g.range(1, 3);
  Point p = rnd(g, d);
  std::string nm = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  PointRegion r(nm, id, p, lc), cp(r);
  c.say() << "point " << pstr(p);
  c.label("point");
  for (auto &v : views(r, cp)) {
    meta(c, *v.first, nm, id, 0, Region_type::POINT, lc, v.second);
    CHECK(eqp(v.first->point(), p), "point data", "point of " << v.second);
    CHECK(v.first->inside(p), "inside", "the point itself");
    Point q = p;
    int i = g.draw(d);
    q[i] += (g.flip() ? 1 : -1) * std::pow(10.0, g.range(-9, 1));
    CHECK(!v.first->inside(q), "inside", "point " << pstr(q) << " is not " << pstr(p));
  }
  Point q(d % 3 + 1);
  bool threw = false;
  try { r.inside(q); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "a query with a point of another dimension was accepted");
  c.nontrivial(d > 1);
}

ld seg(V3 p, V3 a, V3 b) {
  V3 d = b - a;
  ld t = dot(p - a, d) / dot(d, d);
  t = std::min(1.0L, std::max(0.0L, t));
  return len(p - (a + t * d));
}

void polygon(Gen &g, Ctx &c) {
  int n = g.range(3, g.chance(1, 40) ? g.chance(1, 10) ? 120 : 30 : 7);
  // polygon in the plane: star-shaped about the origin, maybe with vertices in the middle of edges
  std::vector<V3> u;
  bool gridded = g.flip() && n <= 7;
  for (int i = 0; i < n; ++i) {
    double a = 2 * M_PI * (i + g.real(-0.3, 0.3)) / n, r = g.real(n > 7 ? 2 : 0.6, 3);
    V3 q = {r * std::cos(a), r * std::sin(a), 0};
    if (gridded) { q.x = roundl(q.x * 2) / 2; q.y = roundl(q.y * 2) / 2; }
    u.push_back(q);
  }
  for (int i = 0; i < n; ++i) {
    V3 a = u[i], b = u[(i + 1) % n];
    if (a.x * b.y - a.y * b.x < 0.05) throw pbt::Discard();
  }
  if (g.chance(1, 3)) {
    int i = g.draw(n);
    u.insert(u.begin() + i + 1, 0.5L * (u[i] + u[(i + 1) % n]));
    n++;
  }
  if (g.flip()) std::reverse(u.begin(), u.end());
  std::rotate(u.begin(), u.begin() + g.draw(n), u.end());
  // placed in space
  V3 e1, e2, o = {some_real(g, -4, 4), some_real(g, -4, 4), some_real(g, -4, 4)};
  if (g.flip()) {
    V3 ax[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    int k = g.draw(3);
    e1 = ax[(k + 1) % 3]; e2 = ax[(k + 2) % 3];
    if (g.flip()) std::swap(e1, e2);
    c.label("polygon on a coordinate plane");
  } else {
    V3 N = {g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)};
    if (len(N) < 0.2) throw pbt::Discard();
    e1 = cross(N, fabsl(N.x) < 0.5L * len(N) ? V3{1, 0, 0} : V3{0, 1, 0});
    e1 = e1 / len(e1);
    e2 = cross(N, e1) / len(N);
    c.label("polygon on any plane");
  }
  V3 en = cross(e1, e2);
  std::vector<Point> pp;
  std::vector<V3> x;
  for (auto &q : u) { x.push_back(dbl(o + q.x * e1 + q.y * e2)); pp.push_back(pt(x.back(), 3)); }
  std::string nm = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  PolygonRegion r(nm, id, n, pp, lc), cp(r);
  c.say() << "polygon";
  for (auto &q : x) c.say() << " " << pstr(q);
  c.say() << "; points";
  int in = 0, out = 0;
  for (auto &v : views(r, cp)) {
    meta(c, *v.first, nm, id, 2, Region_type::POLYGON, lc, v.second);
    CHECK_EQ(v.first->num_points(), (unsigned)n, "polygon data", "number of points of " << v.second);
    for (int i = 0; i < n; ++i) CHECK(eqp(v.first->points()[i], pp[i]), "polygon data", "points of " << v.second);
    V3 nn = v3(v.first->normal());
    CHECK_NEAR((double)len(nn), 1, 1e-12, "normal", "length of normal");
    CHECK_NEAR((double)fabsl(dot(nn, en)), 1, 1e-9, "normal", "direction of normal " << pstr(nn));
    for (int k = 0; k < 8; ++k) {
      V3 q = {g.real(-3.5, 3.5), g.real(-3.5, 3.5), 0};
      if (gridded && g.flip()) { q.x = roundl(q.x * 2) / 2; q.y = roundl(q.y * 2) / 2; }
      bool edge = g.chance(1, 5);
      if (edge) { int i = g.draw(n); q = u[i] + g.real(0.05, 0.95) * (u[(i + 1) % n] - u[i]); }
      ld h = 0;
      if (g.chance(1, 5)) h = (g.flip() ? 1 : -1) * std::pow(10.0, g.range(-8, 0));
      ld dist = 1e30, w = 0;
      for (int i = 0; i < n; ++i) {
        V3 a = u[i] - q, b = u[(i + 1) % n] - q;
        dist = std::min(dist, seg(q, u[i], u[(i + 1) % n]));
        w += atan2l(a.x * b.y - a.y * b.x, dot(a, b));
      }
      bool want = h == 0 && (edge || fabsl(w) > M_PI);
      if (!edge && dist < 1e-6) continue;
      V3 X = o + q.x * e1 + q.y * e2 + h * en;
      (want ? in : out)++;
      c.say() << " " << pstr(X);
      CHECK_EQ(v.first->inside(pt(X, 3)), want, "inside", "point " << pstr(X) << " in polygon ("
               << (edge ? "on an edge" : "off the edges") << ", height " << (double)h << ")");
    }
  }
  bool threw = false;
  try { PolygonRegion bad("x", 1, 2, std::vector<Point>(pp.begin(), pp.begin() + 2)); }
  catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "a polygon of two points in space was accepted");
  c.nontrivial(in && out);
}

void segment2d(Gen &g, Ctx &c) {
  V3 a = v3(rnd(g, 2, 5)), b = v3(rnd(g, 2, 5));
  if (len(b - a) < 0.1) throw pbt::Discard();
  std::string nm = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  PolygonRegion r(nm, id, 2, {pt(a, 2), pt(b, 2)}, lc), cp(r);
  c.say() << "segment " << pstr(a) << pstr(b);
  c.label("segment");
  V3 t = (b - a) / len(b - a), nr = {t.y, -t.x, 0};
  int in = 0, out = 0;
  for (auto &v : views(r, cp)) {
    meta(c, *v.first, nm, id, 1, Region_type::POLYGON, lc, v.second);
    CHECK_NEAR((double)fabsl(dot(v3(v.first->normal()), nr)), 1, 1e-12, "normal", "normal of segment");
    for (int k = 0; k < 5; ++k) {
      ld s = g.real(-0.5, 1.5), h = g.chance(1, 3) ? std::pow(10.0, g.range(-8, 0)) : 0;
      if (fabsl(s) < 1e-6 || fabsl(s - 1) < 1e-6) continue;
      V3 q = a + s * (b - a) + h * nr;
      bool want = s > 0 && s < 1 && h == 0;
      (want ? in : out)++;
      CHECK_EQ(v.first->inside(pt(q, 2)), want, "inside", "point " << pstr(q) << " on segment");
    }
  }
  bool threw = false;
  try { PolygonRegion bad("x", 1, 1, {pt(a, 2)}); } catch (Errors::Message &) { threw = true; }
  CHECK(threw, "refuse", "a segment of one point was accepted");
  c.nontrivial(in && out);
}

void abstract(Gen &g, Ctx &c) {
  std::string nm = rname(g);
  unsigned id = g.draw(1000);
  auto lc = cyc(g);
  std::vector<std::string> names;
  int n = g.range(0, 4);
  for (int i = 0; i < n; ++i) names.push_back(rname(g));
  if (g.flip()) {
    static const std::vector<std::pair<std::string, Bool_type>> ops = {
        {"Complement", Bool_type::COMPLEMENT}, {"Union", Bool_type::UNION},
        {"Intersect", Bool_type::INTERSECT}, {"Subtract", Bool_type::SUBTRACT}};
    auto &op = ops[g.draw(4)];
    bool bystr = g.flip();
    LogicalRegion r = bystr ? LogicalRegion(nm, id, op.first, names, lc) : LogicalRegion(nm, id, op.second, names, lc);
    LogicalRegion cp(r);
    c.say() << "logical region " << op.first << " of " << pbt::str(names);
    c.label("logical");
    for (auto &v : views(r, cp)) {
      meta(c, *v.first, nm, id, 3, Region_type::LOGICAL, lc, v.second);
      CHECK(v.first->operation() == op.second, "logical data", "operation of " << v.second);
      CHECK(v.first->component_regions() == names, "logical data", "components of " << v.second << ": "
            << pbt::str(v.first->component_regions()));
      bool threw = false;
      try { v.first->inside(Point(0.0, 0.0, 0.0)); } catch (Errors::Message &) { threw = true; }
      CHECK(threw, "refuse", "membership in a logical region was answered");
    }
    bool threw = false;
    static const std::vector<std::string> wrong = {"union", "Xor", "", "Unio", "Unions", "NOBOOLEAN"};
    std::string w = g.pick(wrong);
    try { LogicalRegion bad(nm, id, w, names, lc); } catch (Errors::Message &) { threw = true; }
    CHECK(threw, "refuse", "unknown operation \"" << w << "\" was accepted");
  } else {
    std::string e = g.pick(std::vector<std::string>{"CELL", "FACE", "NODE", "EDGE", "Entity_kind::CELL"});
    std::string lab = rname(g);
    LabeledSetRegion r(nm, id, e, "file.exo", "Exodus II", lab, lc), cp(r);
    c.say() << "labelled set " << e << " \"" << lab << "\"";
    c.label("labelled");
    for (auto &v : views(r, cp)) {
      meta(c, *v.first, nm, id, 3, Region_type::LABELEDSET, lc, v.second);
      CHECK_EQ(v.first->label(), lab, "labelled data", "label of " << v.second);
      CHECK_EQ(v.first->entity_str(), e, "labelled data", "entity kind of " << v.second);
      bool threw = false;
      try { v.first->inside(Point(0.0, 0.0, 0.0)); } catch (Errors::Message &) { threw = true; }
      CHECK(threw, "refuse", "membership in a labelled set was answered");
    }
  }
  c.nontrivial(true);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P09",
          "random regions of each type and query points on, near and far; every check repeated on a copy "
          "of the region; non-trivial: points both inside and outside",
          1200000, 24000000,
          {{"box", 3, box}, {"plane", 2, plane}, {"point", 1, point}, {"polygon", 4, polygon},
           {"segment2d", 1, segment2d}, {"abstract", 1, abstract}},
          {"query points closer to a boundary than the tolerances resolve are left out"}};
}
