// P06: Point algebra against plain arrays, as histories over a pool of points
#include "jutil.hh"
using namespace jv;

namespace {

struct M {           // model of a point
  int d = 0;
  double x[3] = {0, 0, 0};
};

double coord(Gen &g) {
  double v = some_real(g, -16, 16);
  switch (g.draw(8)) {
    case 0: return 0.0;
    case 1: return std::ldexp(v, g.range(-40, 40));
    case 3: return std::ldexp(v, g.range(-160, 160));
    case 2: return v * 1e-9;
    default: return v;
  }
}

void same(Ctx &c, Point const &p, M const &m, double tol, std::string const &what) {
  CHECK_EQ(p.dim(), m.d, "dim", "dimension after " << what);
  for (int i = 0; i < m.d; ++i)
    CHECK_NEAR(p[i], m.x[i], tol, "value", "coordinate " << i << " after " << what);
  CHECK(p.x() == p[0] || m.d == 0, "xyz", "x() after " << what);
  CHECK_EQ(p.y(), m.d > 1 ? p[1] : 0.0, "xyz", "y() after " << what);
  CHECK_EQ(p.z(), m.d > 2 ? p[2] : 0.0, "xyz", "z() after " << what);
}

double big(M const &a, double f = 1) {
  double s = 0;
  for (int i = 0; i < 3; ++i) s += std::fabs(a.x[i]);
  return s * f;
}
constexpr double E = 1e-15;

Point make(Gen &g, M *m, int d) {
  m->d = d;
  for (int i = 0; i < d; ++i) m->x[i] = coord(g);
  for (int i = d; i < 3; ++i) m->x[i] = 0;
  switch (g.draw(4)) {
    case 0:
      if (d == 2) return Point(m->x[0], m->x[1]);
      if (d == 3) return Point(m->x[0], m->x[1], m->x[2]);
      // fall through
    case 1: {
      Point p(d);
      for (int i = 0; i < d; ++i) p[i] = m->x[i];
      return p;
    }
    case 2: {
      Point p(d);
      p.set(m->x);
      return p;
    }
    default: {
      Point p;
      p.set(d, m->x);
      return p;
    }
  }
}

void history(Gen &g, Ctx &c) {
  int d0 = g.range(1, 3), n = g.range(2, 4);
  bool mixed = g.chance(1, 3);  // points of the pool differ in dimension and change it
  std::vector<Point> p(n);
  std::vector<M> m(n);
  for (int i = 0; i < n; ++i) p[i] = make(g, &m[i], mixed ? g.range(1, 3) : d0);
  int steps = g.range(1, 24);
  c.label(mixed ? "mixed dims" : "dim " + std::to_string(d0));
  c.nontrivial(steps >= 3);
  c.say() << "dim " << d0 << (mixed ? " (mixed), " : ", ") << n << " points:";
  for (int s = 0; s < steps; ++s) {
    int i = g.draw(n), j = g.draw(n), k = g.draw(n);
    int op = g.draw(19);
    if ((op < 2 || op == 6 || op == 7 || op == 10 || op == 16) && m[j].d != m[i].d) j = i;
    M a = m[i], b = m[j], r;
    int d = a.d;
    if (op == 14 || op > 17) d = mixed ? g.range(1, 3) : d0;
    if (op == 13 || op == 15) d = m[k].d;
    r.d = d;
    double tol = 0, f = coord(g);
    std::ostringstream w;
    w << " ";
    // the number may be a coordinate of the point itself
    double *F = &f;
    if (((op >= 3 && op <= 5) || op == 8 || op == 9 || op == 13) && g.chance(1, 6)) {
      int o = op == 13 ? k : i, q = g.draw(m[o].d);
      if (m[o].x[q] != 0 || op != 9) { f = m[o].x[q]; F = &p[o][q]; w << "own "; }
      if (op == 5 && f == 0) F = &f;
    }
    switch (op) {
      case 0: for (int q = 0; q < d; ++q) r.x[q] = a.x[q] + b.x[q];
        p[k] = p[i] + p[j]; w << "p" << k << "=p" << i << "+p" << j; tol = E * (big(a) + big(b)); break;
      case 1: for (int q = 0; q < d; ++q) r.x[q] = a.x[q] - b.x[q];
        p[k] = p[i] - p[j]; w << "p" << k << "=p" << i << "-p" << j; tol = E * (big(a) + big(b)); break;
      case 2: for (int q = 0; q < d; ++q) r.x[q] = -a.x[q];
        p[k] = -p[i]; w << "p" << k << "=-p" << i; break;
      case 3: for (int q = 0; q < d; ++q) r.x[q] = f * a.x[q];
        p[k] = *F * p[i]; w << "p" << k << "=" << f << "*p" << i; tol = E * big(r); break;
      case 4: for (int q = 0; q < d; ++q) r.x[q] = f * a.x[q];
        p[k] = p[i] * *F; w << "p" << k << "=p" << i << "*" << f; tol = E * big(r); break;
      case 5: if (f == 0) f = 3;
        for (int q = 0; q < d; ++q) r.x[q] = a.x[q] / f;
        p[k] = p[i] / *F; w << "p" << k << "=p" << i << "/" << f; tol = E * big(r); break;
      case 6: k = i; for (int q = 0; q < d; ++q) r.x[q] = a.x[q] + b.x[q];
        p[i] += p[j]; w << "p" << i << "+=p" << j; tol = E * (big(a) + big(b)); break;
      case 7: k = i; for (int q = 0; q < d; ++q) r.x[q] = a.x[q] - b.x[q];
        p[i] -= p[j]; w << "p" << i << "-=p" << j; tol = E * (big(a) + big(b)); break;
      case 8: k = i; for (int q = 0; q < d; ++q) r.x[q] = a.x[q] * f;
        p[i] *= *F; w << "p" << i << "*=" << f; tol = E * big(r); break;
      case 9: k = i; if (f == 0) f = 3;
        for (int q = 0; q < d; ++q) r.x[q] = a.x[q] / f;
        p[i] /= *F; w << "p" << i << "/=" << f; tol = E * big(r); break;
      case 10:
        if (d == 3)
          for (int q = 0; q < 3; ++q)
            r.x[q] = a.x[(q + 1) % 3] * b.x[(q + 2) % 3] - a.x[(q + 2) % 3] * b.x[(q + 1) % 3];
        else if (d == 2) r.x[0] = a.x[0] * b.x[1] - a.x[1] * b.x[0];
        p[k] = p[i] ^ p[j]; w << "p" << k << "=p" << i << "^p" << j;
        tol = 4 * E * big(a) * big(b) + 1e-300; break;
      case 11: r = a; p[k] = p[i]; w << "p" << k << "=p" << i; break;
      case 12: { r = a; Point q(p[i]); p[k].set(q); w << "p" << k << ".set(p" << i << ")"; break; }
      case 13: for (int q = 0; q < d; ++q) r.x[q] = f;
        p[k].set(*F); w << "p" << k << ".set(" << f << ")"; break;
      case 14:
        if (d > 1 && g.chance(1, 6)) {      // its own coordinates in another order
          int e[3];
          for (int &q : e) q = g.draw(m[k].d);
          for (int q = 0; q < d; ++q) r.x[q] = m[k].x[e[q]];
          if (d == 3) p[k].set(p[k][e[0]], p[k][e[1]], p[k][e[2]]);
          else p[k].set(p[k][e[0]], p[k][e[1]]);
          w << "p" << k << ".set(its coordinates " << e[0] << "," << e[1] << "," << e[2] << ")";
          break;
        }
        for (int q = 0; q < d; ++q) r.x[q] = coord(g);
        if (d == 3) p[k].set(r.x[0], r.x[1], r.x[2]);
        else if (d == 2) p[k].set(r.x[0], r.x[1]);
        else p[k].set(1, r.x);
        w << "p" << k << ".set(" << d << " coordinates)"; break;
      case 15: { r = m[k]; int q = g.draw(d); r.x[q] = f; p[k][q] = f;
        w << "p" << k << "[" << q << "]=" << f; break; }
      case 16: { // scalars
        double s2 = 0, n2 = 0, mag = 0;
        for (int q = 0; q < d; ++q) { s2 += a.x[q] * b.x[q]; n2 += a.x[q] * a.x[q];
                                      mag += std::fabs(a.x[q] * b.x[q]); }
        CHECK_NEAR(p[i] * p[j], s2, 4 * E * mag + 1e-300, "dot", "p" << i << "*p" << j);
        CHECK_NEAR(JaliGeometry::L22(p[i]), n2, 4 * E * n2 + 1e-300, "norm", "L22");
        CHECK_NEAR(JaliGeometry::norm(p[i]), std::sqrt(n2), 4 * E * std::sqrt(n2) + 1e-150, "norm", "norm");
        CHECK(p[i].is_valid() == 1, "valid", "is_valid");
        r = m[k]; w << "scalars of p" << i << ",p" << j; break; }
      case 17: { std::ostringstream os, ref;
        os << p[i];
        for (int q = 0; q < d; ++q) ref << (q ? " " : "") << a.x[q];
        CHECK_EQ(os.str(), ref.str(), "print", "printed point");
        r = m[k]; w << "print p" << i; break; }
      default: p[k] = make(g, &r, d); w << "p" << k << "=new"; break;
    }
    for (int q = 0; q < r.d; ++q)
      if (!(std::fabs(r.x[q]) < 1e100) || (r.x[q] != 0 && std::fabs(r.x[q]) < 1e-100)) {
        r.x[q] = 0; p[k][q] = 0;   // stay away from overflow and underflow
      }
    m[k] = r;
    c.say() << w.str();
    for (int q = 0; q < n; ++q) same(c, p[q], m[q], q == k ? tol : 0, w.str());
    for (int q = 0; q < r.d; ++q) m[k].x[q] = p[k][q];
  }
}

// identities between operators, on the same operands
void identities(Gen &g, Ctx &c) {
  int d = g.range(1, 3);
  M ma, mb, mc;
  Point a = make(g, &ma, d), b = make(g, &mb, d), e = make(g, &mc, d);
  double f = coord(g);
  c.nontrivial(d > 1);
  c.say() << "dim " << d << " a=" << pstr(a) << " b=" << pstr(b) << " c=" << pstr(e) << " f=" << f;
  auto eq = [&](Point const &x, Point const &y, double mag, const char *what) {
    CHECK_EQ(x.dim(), y.dim(), "dim", what);
    for (int i = 0; i < x.dim(); ++i) CHECK_NEAR(x[i], y[i], 8 * E * mag + 1e-290, "identity", what);
  };
  double A = big(ma), B = big(mb), C = big(mc);
  eq(a + b, b + a, 0, "a+b=b+a");
  eq(a - b, -(b - a), 0, "a-b=-(b-a)");
  eq(f * (a + b), f * a + f * b, std::fabs(f) * (A + B), "f(a+b)");
  eq(a ^ b, -(b ^ a), A * B, "a^b=-(b^a)");
  eq(a ^ (b + e), (a ^ b) + (a ^ e), A * (B + C), "a^(b+c)");
  CHECK_NEAR((a + b) * e, a * e + b * e, 16 * E * (A + B) * C + 1e-290, "identity", "(a+b)*c");
  if (d == 3) {
    CHECK_NEAR((a ^ b) * a, 0, 32 * E * A * A * B + 1e-290, "identity", "(a^b)*a");
    CHECK_NEAR((a ^ b) * e, (b ^ e) * a, 64 * E * A * B * C + 1e-290, "identity", "triple product");
  }
  Point q = a;
  q += q;
  eq(q, 2.0 * a, 0, "a+=a");
  q -= q;
  eq(q, Point(d), 0, "a-=a");
  same(c, a, ma, 0, "operators on it");
  same(c, b, mb, 0, "operators on it");
}

}  // namespace

pbt::Property pbt::property() {
  return {"P06",
          "random histories of point operations on a pool, and operator identities; non-trivial: "
          "at least three operations / at least two dimensions",
          2000000, 40000000,
          {{"history", 3, history}, {"identities", 1, identities}},
          {"operands of binary operators have one dimension"}};
}
