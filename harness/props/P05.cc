// P05: geometric kernels against exact formulas in long double
#include "Geometry.hh"
#include "jutil.hh"
using namespace jv;
using namespace JaliGeometry;
typedef long double ld;

namespace {

struct Mat { V3 r[3]; V3 t; };
V3 apply(Mat const &m, V3 p) {
  return V3{dot(m.r[0], p), dot(m.r[1], p), dot(m.r[2], p)} + m.t;
}
Mat rigid(Gen &g) {   // rotation from a random quaternion (or an axis permutation) and a shift
  Mat m;
  if (g.chance(1, 3)) {
    m.r[0] = {1, 0, 0}; m.r[1] = {0, 1, 0}; m.r[2] = {0, 0, 1};
    int k = g.draw(3);
    for (int i = 0; i < k; ++i) { V3 t = m.r[0]; m.r[0] = m.r[1]; m.r[1] = m.r[2]; m.r[2] = t; }
    if (g.flip()) { m.r[0] = -1 * m.r[0]; m.r[1] = -1 * m.r[1]; }
  } else {
    ld q[4], s = 0;
    for (auto &x : q) { x = g.real(-1, 1); s += x * x; }
    if (s < 1e-2) throw pbt::Discard();
    s = sqrtl(s);
    for (auto &x : q) x /= s;
    ld w = q[0], x = q[1], y = q[2], z = q[3];
    m.r[0] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)};
    m.r[1] = {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)};
    m.r[2] = {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)};
  }
  if (g.flip()) m.t = {some_real(g, -20, 20), some_real(g, -20, 20), some_real(g, -20, 20)};
  return m;
}
V3 dbl(V3 p) { return {(double)p.x, (double)p.y, (double)p.z}; }

ld cross2(V3 a, V3 b) { return a.x * b.y - a.y * b.x; }
V3 average(std::vector<V3> const &p) {
  V3 a;
  for (auto &q : p) a = a + q;
  return a / p.size();
}

// counterclockwise polygon star-shaped about the average of its vertices
std::vector<V3> star_polygon(Gen &g, int n, ld *minsub) {
  std::vector<V3> p(n);
  double off = g.real(0, 6.28);
  for (int i = 0; i < n; ++i) {
    double a = off + 2 * M_PI * (i + g.real(-0.35, 0.35)) / n, r = g.real(0.5, 2);
    p[i] = dbl({r * std::cos(a), r * std::sin(a), 0});
  }
  V3 c = average(p);
  *minsub = 1e30;
  for (int i = 0; i < n; ++i) *minsub = std::min(*minsub, cross2(p[i] - c, p[(i + 1) % n] - c));
  return p;
}

std::string list(std::vector<V3> const &p) {
  std::string s;
  for (auto &q : p) s += pstr(q) + " ";
  return s;
}

void polygon(Gen &g, Ctx &c) {
  int n = g.range(3, g.chance(1, 50) ? g.chance(1, 10) ? 300 : 60 : 9);
  ld ms;
  std::vector<V3> p = star_polygon(g, n, &ms);
  if (ms < 1e-3) throw pbt::Discard();
  double scale = std::ldexp(1.0, g.chance(1, 4) ? g.range(-40, 40) : g.range(-12, 12));
  bool three = g.flip(), reversed = g.chance(1, 3);
  Mat m = rigid(g);
  if (!three) { m.r[0].z = m.r[1].z = 0; m.t.z = 0;
    double a = g.real(0, 6.28);
    m.r[0] = {cosl(a), -sinl(a), 0}; m.r[1] = {sinl(a), cosl(a), 0}; m.r[2] = {0, 0, 1}; }
  for (auto &q : p) q = dbl(scale * apply(m, q));
  if (reversed) std::reverse(p.begin(), p.end());
  std::rotate(p.begin(), p.begin() + g.draw(n), p.end());
  // exact values from a fan about the first vertex (signed)
  V3 N, mom;
  for (int i = 1; i + 1 < n; ++i) N = N + 0.5L * cross(p[i] - p[0], p[i + 1] - p[0]);
  ld A = len(N);
  V3 u = N / A;
  for (int i = 1; i + 1 < n; ++i)
    mom = mom + 0.5L * dot(cross(p[i] - p[0], p[i + 1] - p[0]), u) * ((p[i] - p[0]) + (p[i + 1] - p[0])) / 3;
  V3 cen = p[0] + mom / A;
  ld L = 0;
  for (auto &q : p) L = std::max(L, len(q));
  c.say() << n << "-gon in " << (three ? 3 : 2) << "D" << (reversed ? " reversed " : " ") << list(p);
  c.nontrivial(n > 3 || three || reversed);
  c.label(std::string(three ? "3D" : "2D") + (n == 3 ? " triangle" : " polygon") + (reversed ? " reversed" : ""));
  int d = three ? 3 : 2;
  std::vector<Point> pp;
  for (auto &q : p) pp.push_back(pt(q, d));
  double area = -7;
  Point ce(d), no(d);
  polygon_get_area_centroid_normal(pp, &area, &ce, &no);
  ld tolA = 2e-14L * (L * scale * 4 + A);
  ld want = (!three && reversed && n > 3) ? -A : A;
  CHECK_NEAR(area, (double)want, tolA, "area", "area");
  CHECK_EQ(ce.dim(), d, "centroid", "dimension of centroid");
  CHECK_VEC(v3(ce), cen, 2e-14L * (L + scale) * (1 + 4 * scale * scale / A), "centroid", "centroid");
  if (three) CHECK_VEC(v3(no), N, tolA, "normal", "normal");
  else CHECK_NEAR(no[0], (double)N.z, tolA, "normal", "normal (2D)");
}

// 2D polygons with a subtriangle turned over are reported negative
void bad_polygon(Gen &g, Ctx &c) {
  int n = g.range(4, 8);
  std::vector<V3> p(n);
  for (auto &q : p) q = {some_real(g, -4, 4), some_real(g, -4, 4), 0};
  V3 a = average(p);
  ld lo = 1e30;
  for (int i = 0; i < n; ++i) lo = std::min(lo, cross2(p[i] - a, p[(i + 1) % n] - a));
  if (std::fabs((double)lo) < 1e-6) throw pbt::Discard();
  std::vector<Point> pp;
  for (auto &q : p) pp.push_back(pt(q, 2));
  double area;
  Point ce(2), no(2);
  polygon_get_area_centroid_normal(pp, &area, &ce, &no);
  c.say() << list(p);
  c.nontrivial(lo < 0);
  CHECK(lo < 0 ? area < 0 : area > 0, "sign", "area " << area << " of a polygon whose smallest subtriangle has "
        << (double)lo);
}

struct Poly { std::vector<V3> x; std::vector<ints> f; };   // outward faces

// The same vertex, reached from another face.  Corners which nearly meet are
// no use: joining them would bend the faces around them.
bool same_vertex(V3 const &a, V3 const &b) {
  ld d = len(a - b);
  if (d > 1e-15 && d < 1e-3) throw pbt::Discard();
  return d <= 1e-15;
}

// Clip a box with random planes
Poly convex(Gen &g) {
  std::vector<std::vector<V3>> F;
  ld a = g.real(0.5, 2), b = g.real(0.5, 2), h = g.real(0.5, 2);
  V3 v[8];
  for (int i = 0; i < 8; ++i) v[i] = {(i & 1) ? a : -a, (i & 2) ? b : -b, (i & 4) ? h : -h};
  int q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  for (auto &f : q) F.push_back({v[f[0]], v[f[1]], v[f[2]], v[f[3]]});
  int cuts = g.range(0, 5);
  for (int k = 0; k < cuts; ++k) {
    V3 n = {g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)};
    if (len(n) < 0.2) throw pbt::Discard();
    n = n / len(n);
    ld d = g.real(0.2, 1.6);
    std::vector<std::vector<V3>> G;
    std::vector<V3> cap;
    for (auto &f : F) {
      std::vector<V3> o;
      int m = f.size();
      for (int i = 0; i < m; ++i) {
        V3 A = f[i], B = f[(i + 1) % m];
        ld da = dot(n, A) - d, db = dot(n, B) - d;
        if (da <= 0) o.push_back(A);
        if ((da <= 0) != (db <= 0)) {
          V3 X = A + (da / (da - db)) * (B - A);
          o.push_back(X);
          cap.push_back(X);
        }
      }
      if (o.size() >= 3) G.push_back(o);
    }
    if (cap.size() >= 3) {
      std::vector<V3> u;
      for (auto &x : cap) {
        bool dup = false;
        for (auto &y : u) dup = dup || same_vertex(x, y);
        if (!dup) u.push_back(x);
      }
      if (u.size() < 3) throw pbt::Discard();
      V3 ce = average(u), e1 = u[0] - ce;
      e1 = e1 / len(e1);
      V3 e2 = cross(n, e1);
      std::sort(u.begin(), u.end(), [&](V3 s, V3 t) {
        return atan2l(dot(s - ce, e2), dot(s - ce, e1)) < atan2l(dot(t - ce, e2), dot(t - ce, e1));
      });
      G.push_back(u);
    }
    F = G;
    if (F.size() < 4) throw pbt::Discard();
  }
  Poly P;
  for (auto &f : F) {
    ints id;
    for (auto &x : f) {
      int k = -1;
      for (size_t i = 0; i < P.x.size(); ++i) if (same_vertex(P.x[i], x)) k = i;
      if (k < 0) { k = P.x.size(); P.x.push_back(x); }
      if (id.empty() || (id.back() != k && id.front() != k)) id.push_back(k);
    }
    if (id.size() < 3) throw pbt::Discard();
    P.f.push_back(id);
  }
  return P;
}

Poly tet(Gen &g) {
  Poly P;
  for (int i = 0; i < 4; ++i) P.x.push_back({g.real(-2, 2), g.real(-2, 2), g.real(-2, 2)});
  ld v = dot(cross(P.x[1] - P.x[0], P.x[2] - P.x[0]), P.x[3] - P.x[0]);
  if (std::fabs((double)v) < 0.2) throw pbt::Discard();
  if (v < 0) std::swap(P.x[0], P.x[1]);
  P.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  return P;
}

// pyramids, prisms, double pyramids over a polygon
Poly cone(Gen &g) {
  int n = g.range(3, g.chance(1, 16) ? 24 : 7), kind = g.draw(3);
  ld ms;
  std::vector<V3> b = star_polygon(g, n, &ms);
  if (ms < (n > 7 ? 1e-4 : 1e-2)) throw pbt::Discard();
  Poly P;
  V3 top = {g.real(-0.4, 0.4), g.real(-0.4, 0.4), g.real(0.5, 2)};
  for (auto &q : b) P.x.push_back(q);
  ints loop, back;
  for (int i = 0; i < n; ++i) { loop.push_back(i); back.push_back(n - 1 - i); }
  if (kind == 1) {
    for (auto &q : b) P.x.push_back(q + top);
    ints up;
    for (int i = 0; i < n; ++i) up.push_back(n + i);
    P.f.push_back(up);
    P.f.push_back(back);
    for (int i = 0; i < n; ++i) P.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
  } else {
    P.x.push_back(top);
    for (int i = 0; i < n; ++i) P.f.push_back({i, (i + 1) % n, n});
    if (kind == 0) {
      P.f.push_back(back);
    } else {
      P.x.push_back({g.real(-0.4, 0.4), g.real(-0.4, 0.4), -g.real(0.5, 2)});
      for (int i = 0; i < n; ++i) P.f.push_back({(i + 1) % n, i, n + 1});
    }
  }
  return P;
}

Poly shape(Gen &g, Ctx &c, bool conv) {
  Poly P;
  switch (g.draw(conv ? 2 : 3)) {
    case 0: P = tet(g); c.label("tet"); break;
    case 1: P = convex(g); c.label("convex"); break;
    default: P = cone(g); c.label("pyramid or prism"); break;
  }
  Mat m = rigid(g);
  ld s = std::ldexp(1.0, g.chance(1, 4) ? g.range(-40, 40) : g.range(-8, 8));
  for (auto &q : P.x) q = dbl(s * apply(m, q));
  return P;
}

struct Args { std::vector<Point> cc, fc; std::vector<unsigned> nfn; };
Args args(Gen &g, Poly const &P, bool reversed) {
  Args a;
  std::vector<V3> x = P.x;
  g.shuffle(x);
  for (auto &q : x) a.cc.push_back(pt(q, 3));
  std::vector<ints> f = P.f;
  g.shuffle(f);
  for (auto &l : f) {
    std::rotate(l.begin(), l.begin() + g.draw(l.size()), l.end());
    if (reversed) std::reverse(l.begin(), l.end());
    a.nfn.push_back(l.size());
    for (int i : l) a.fc.push_back(pt(P.x[i], 3));
  }
  return a;
}
std::string words(Poly const &P) {
  std::ostringstream os;
  os << P.x.size() << " vertices " << list(P.x) << "faces";
  for (auto &f : P.f) os << " " << pbt::str(f);
  return os.str();
}

void polyhedron(Gen &g, Ctx &c) {
  Poly P = shape(g, c, false);
  bool reversed = g.chance(1, 4);
  V3 o = average(P.x), mom;
  ld V = 0, L = 0, S = 0, lo = 1e300;
  for (auto &q : P.x) { L = std::max(L, len(q)); S = std::max(S, len(q - o)); }
  for (auto &f : P.f) {
    V3 fa;
    for (int i : f) fa = fa + P.x[i];
    fa = fa / f.size();
    for (size_t i = 0; i < f.size(); ++i) {
      ld s = dot(cross(P.x[f[i]] - o, P.x[f[(i + 1) % f.size()]] - o), fa - o) / 6;
      lo = std::min(lo, s);
    }
    for (size_t i = 1; i + 1 < f.size(); ++i) {
      V3 a = P.x[f[0]] - o, b = P.x[f[i]] - o, d = P.x[f[i + 1]] - o;
      ld v = dot(cross(a, b), d) / 6;
      V += v;
      mom = mom + v * (a + b + d) / 4;
    }
  }
  if (lo < 1e-6L * S * S * S) throw pbt::Discard();   // not star-shaped about the average
  V3 cen = o + mom / V;
  c.nontrivial(true);
  c.label(reversed ? "inverted" : "positive");
  c.say() << words(P) << (reversed ? "; all faces reversed" : "");
  Args a = args(g, P, reversed);
  double vol = -7;
  Point ce(3);
  polyhed_get_vol_centroid(a.cc, a.nfn.size(), a.nfn, a.fc, &vol, &ce);
  ld tol = 1e-13L * (L + S) * S * S * 8;
  CHECK_NEAR(vol, (double)(reversed ? -V : V), tol, "volume", "volume");
  CHECK_VEC(v3(ce), cen, 1e-13L * (L + S) * (1 + 8 * S * S * S / V), "volume-centroid", "centroid");
}

void in_polyhedron(Gen &g, Ctx &c) {
  Poly P = shape(g, c, true);
  Args a = args(g, P, false);
  V3 o = average(P.x);
  ld S = 0, L = 0;
  for (auto &q : P.x) { S = std::max(S, len(q - o)); L = std::max(L, len(q)); }
  c.say() << words(P) << "; points";
  int in = 0, out = 0;
  for (int k = 0; k < 8; ++k) {
    V3 t;
    if (g.flip()) {
      t = o + V3{g.real(-1, 1) * S, g.real(-1, 1) * S, g.real(-1, 1) * S};
    } else {   // near a face: its average, pushed in or out
      ints const &f = P.f[g.draw(P.f.size())];
      V3 fa;
      ld w = 0;
      for (int i : f) { ld u = g.real(0.1, 1); fa = fa + u * P.x[i]; w += u; }
      fa = fa / w;
      t = fa + g.real(-0.1, 0.1) * (fa - o);
    }
    t = dbl(t);
    ld hi = -1e300L;
    for (auto &f : P.f) {
      V3 n;
      for (size_t i = 1; i + 1 < f.size(); ++i)
        n = n + cross(P.x[f[i]] - P.x[f[0]], P.x[f[i + 1]] - P.x[f[0]]);
      hi = std::max(hi, dot(n, t - P.x[f[0]]) / len(n));
    }
    if (std::fabs((double)hi) < 1e-6L * S + 1e-10L * L) continue;
    bool want = hi < 0;
    (want ? in : out)++;
    c.say() << " " << pstr(t);
    CHECK_EQ(point_in_polyhed(pt(t, 3), a.cc, a.nfn.size(), a.nfn, a.fc), want, "inside",
             "point " << pstr(t) << " in polyhedron, distance to surface " << (double)hi);
  }
  c.nontrivial(in && out);
}

ld dist2seg(V3 p, V3 a, V3 b) {
  V3 d = b - a;
  ld q = dot(d, d), t = q > 0 ? dot(p - a, d) / q : 0;
  t = std::min(1.0L, std::max(0.0L, t));
  return len(p - (a + t * d));
}

void in_polygon(Gen &g, Ctx &c) {
  std::vector<V3> p;
  int kind = g.draw(3);
  bool grid = g.chance(2, 3);
  if (kind == 0) {
    ld ms;
    p = star_polygon(g, g.range(3, g.chance(1, 50) ? 40 : 10), &ms);
    for (auto &q : p) q = 3 * q;
  } else {   // monotone polygon with integer abscissas: teeth up and down
    int n = g.range(2, 6);
    std::vector<V3> up;
    for (int i = 0; i <= n; ++i) {
      double x = i + (grid ? 0 : g.real(0, 0.5));
      p.push_back({x, g.range(-4, 0), 0});
      if (i > 0 || g.flip()) up.push_back({x, g.range(1, 4), 0});
    }
    std::reverse(up.begin(), up.end());
    p.insert(p.end(), up.begin(), up.end());
    if (p.size() < 3) throw pbt::Discard();
    if (kind == 2) for (auto &q : p) std::swap(q.x, q.y);
  }
  if (grid) for (auto &q : p) { q.x = roundl(q.x); q.y = roundl(q.y); }
  for (auto &q : p) q = dbl(q);
  int n = p.size();
  // simple?
  auto orient = [](V3 a, V3 b, V3 d) { return cross2(b - a, d - a); };
  for (int i = 0; i < n; ++i) {
    if (len(p[i] - p[(i + 1) % n]) < 1e-3) throw pbt::Discard();
    for (int j = 0; j < n; ++j) {
      if (j == i || j == (i + 1) % n || i == (j + 1) % n) continue;
      V3 a = p[i], b = p[(i + 1) % n], d = p[j], e = p[(j + 1) % n];
      ld m = std::min({dist2seg(a, d, e), dist2seg(b, d, e), dist2seg(d, a, b), dist2seg(e, a, b)});
      if (m < 1e-3) throw pbt::Discard();
      if (orient(a, b, d) * orient(a, b, e) < 0 && orient(d, e, a) * orient(d, e, b) < 0)
        throw pbt::Discard();
    }
    V3 a = p[i], b = p[(i + 1) % n], d = p[(i + 2) % n];
    if (orient(a, b, d) == 0 && dot(b - a, d - b) < 0) throw pbt::Discard();
  }
  if (g.flip()) std::reverse(p.begin(), p.end());
  std::rotate(p.begin(), p.begin() + g.draw(n), p.end());
  std::vector<Point> pp;
  ld sc = std::ldexp(1.0, g.chance(1, 4) ? g.range(-30, 30) : 0);
  for (auto &q : p) pp.push_back(pt(sc * q, 2));
  c.say() << (double)sc << " times " << list(p) << "; points";
  int in = 0, out = 0;
  for (int k = 0; k < 10; ++k) {
    V3 t = {g.real(-7, 7), g.real(-7, 7), 0};
    if (grid && g.flip()) t = {g.range(-14, 14) / 2.0L, g.range(-14, 14) / 2.0L, 0};
    if (g.chance(1, 4)) { V3 v = p[g.draw(n)]; t.y = v.y; }
    t = dbl(t);
    ld d = 1e30, w = 0;
    for (int i = 0; i < n; ++i) {
      V3 a = p[i] - t, b = p[(i + 1) % n] - t;
      d = std::min(d, dist2seg(t, p[i], p[(i + 1) % n]));
      w += atan2l(cross2(a, b), dot(a, b));
    }
    if (d < 1e-6) continue;
    bool want = fabsl(w) > M_PI;
    (want ? in : out)++;
    c.say() << " " << pstr(t);
    CHECK_EQ(point_in_polygon(pt(sc * t, 2), pp), want, "inside", "point " << pstr(t) << " in polygon");
  }
  c.nontrivial(in && out);
}

void segment(Gen &g, Ctx &c) {
  double sc = any_scale(g), a = sc * some_real(g, -50, 50), b = sc * some_real(g, -50, 50);
  if (a > b) std::swap(a, b);
  bool sph = g.flip();
  if (sph) { a = std::fabs(a); b = a + std::fabs(b); }
  c.nontrivial(b > a);
  c.label(sph ? "spherical" : "cartesian");
  c.say() << (sph ? "spherical" : "cartesian") << " segment " << a << " " << b;
  auto gt = sph ? Geom_type::SPHERICAL : Geom_type::CARTESIAN;
  double v = -3, ar = -3, ar2 = -3;
  Point ce(1);
  segment_get_vol_centroid({pt({a, 0, 0}, 1), pt({b, 0, 0}, 1)}, gt, &v, &ce);
  ld want = sph ? 4 * acosl(-1) * ((ld)b * b * b - (ld)a * a * a) / 3 : (ld)b - a;
  CHECK_NEAR(v, (double)want, 1e-13 * (sph ? 16 * b * b * b : 1e-1 * (std::fabs(a) + std::fabs(b))) + 1e-290,
             "segment", "measure of segment");
  CHECK_NEAR(ce[0], 0.5 * (a + b), 1e-14 * (std::fabs(a) + std::fabs(b)), "segment", "centroid of segment");
  face1d_get_area({pt({a, 0, 0}, 1)}, gt, &ar);
  face1d_get_area({pt({b, 0, 0}, 1)}, gt, &ar2);
  CHECK_NEAR(ar, (double)(sph ? 4 * acosl(-1) * a * a : 1.0L), 1e-13 * (1 - sph + 16 * a * a) + 1e-290, "face1d", "area of point face");
  CHECK_NEAR(ar2, (double)(sph ? 4 * acosl(-1) * b * b : 1.0L), 1e-13 * (1 - sph + 16 * b * b) + 1e-290, "face1d", "area of point face");
  if (!sph) {   // segments anywhere in space
    int d = g.range(2, 3);
    V3 p = {some_real(g, -9, 9), some_real(g, -9, 9), d == 3 ? some_real(g, -9, 9) : 0};
    V3 q = {some_real(g, -9, 9), some_real(g, -9, 9), d == 3 ? some_real(g, -9, 9) : 0};
    p = dbl((ld)sc * p); q = dbl((ld)sc * q);
    Point ce2(d);
    segment_get_vol_centroid({pt(p, d), pt(q, d)}, gt, &v, &ce2);
    CHECK_NEAR(v, (double)len(q - p), 1e-13 * sc, "segment", "length of segment " << pstr(p) << pstr(q));
    CHECK_VEC(v3(ce2), (p + q) / 2, 1e-13 * sc, "segment", "midpoint of segment");
  }
}

void degenerate(Gen &g, Ctx &c) {
  int d = g.range(2, 3);
  auto some = [&](int dim) {
    Point p(dim);
    for (int i = 0; i < dim; ++i) p[i] = some_real(g, -4, 4);
    return p;
  };
  auto zero = [&](Point const &p, char const *what) {
    for (int i = 0; i < p.dim(); ++i) CHECK_EQ(p[i], 0.0, "degenerate", what);
  };
  std::vector<Point> x;
  int n = g.range(0, 2);
  for (int i = 0; i < n; ++i) x.push_back(some(d));
  double a = 7;
  Point cen = some(d), nrm = some(d);
  JaliGeometry::polygon_get_area_centroid_normal(x, &a, &cen, &nrm);
  CHECK_EQ(a, 0.0, "degenerate", "area of " << n << " points");
  zero(cen, "centroid of a degenerate polygon");
  zero(nrm, "normal of a degenerate polygon");
  CHECK(!JaliGeometry::point_in_polygon(some(d), x), "degenerate", "point in a polygon of " << n << " points");
  x.clear();
  n = g.range(0, 3);
  for (int i = 0; i < n; ++i) x.push_back(some(3));
  cen = some(3);
  a = 7;
  JaliGeometry::polyhed_get_vol_centroid(x, n == 3 ? 1 : 0, {3}, x, &a, &cen);
  CHECK_EQ(a, 0.0, "degenerate", "volume of " << n << " points");
  zero(cen, "centroid of a degenerate polyhedron");
  CHECK(!JaliGeometry::point_in_polyhed(some(3), x, n == 3 ? 1 : 0, {3}, x), "degenerate",
        "point in a polyhedron of " << n << " points");
  c.say() << d << "D, " << n << " points";
  c.nontrivial(true);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P05",
          "polygons star-shaped about their average (2D, or moved into space), polyhedra (tets, clipped "
          "boxes, pyramids, prisms, double pyramids) with shuffled vertex and face lists, simple polygons "
          "and convex polyhedra with query points; non-trivial: not a plain 2D triangle / points both "
          "inside and outside",
          1200000, 24000000,
          {{"polygon", 3, polygon}, {"bad_polygon", 1, bad_polygon}, {"polyhedron", 4, polyhedron},
           {"in_polyhedron", 3, in_polyhedron}, {"in_polygon", 3, in_polygon}, {"segment", 1, segment}, {"degenerate", 1, degenerate}},
          {"query points within 1e-6 of a boundary are left out"}};
}
