// P10: mesh sets built from geometric regions
#include "BoxRegion.hh"
#include "LogicalRegion.hh"
#include "Mesh_simple.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "genmesh.hh"
using namespace jv;
using namespace Jali;
using namespace JaliGeometry;
typedef long double ld;

namespace {

enum Tri { OUT, IN, AMB };
const Entity_kind kKinds[] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE, Entity_kind::EDGE};

// What the oracle needs to know of a mesh
struct View {
  int sdim, mdim;
  bool faces;
  std::vector<V3> x;
  std::vector<std::vector<V3>> fx, cx;
  std::vector<V3> fcen, ccen;
  std::vector<std::vector<std::vector<V3>>> cloops;   // 3D: outward face loops
  std::vector<Entity_type> nt, ft, ct;
  ld size = 1;
  int count(Entity_kind k) const {
    return k == Entity_kind::CELL ? cx.size() : k == Entity_kind::FACE ? fx.size()
         : k == Entity_kind::NODE ? x.size() : 0;
  }
  Entity_type type(Entity_kind k, int i) const {
    return k == Entity_kind::CELL ? ct[i] : k == Entity_kind::FACE ? ft[i] : nt[i];
  }
};

View view_of(Topo const &t) {
  View v;
  v.sdim = t.sdim; v.mdim = t.mdim;
  v.x = t.x;
  for (auto &l : t.fn) { v.fx.emplace_back(); for (int n : l) v.fx.back().push_back(t.x[n]); }
  for (auto &l : t.cn) { v.cx.emplace_back(); for (int n : l) v.cx.back().push_back(t.x[n]); }
  for (int f = 0; f < (int)t.fn.size(); ++f) v.fcen.push_back(face_geom(t, f).cen);
  for (int k = 0; k < (int)t.cn.size(); ++k) {
    v.ccen.push_back(cell_geom(t, k).cen);
    v.cloops.emplace_back();
    if (t.mdim == 3)
      for (auto &fd : t.cf[k]) {
        v.cloops.back().emplace_back();
        for (int n : t.out_loop(k, fd)) v.cloops.back().back().push_back(t.x[n]);
      }
  }
  v.nt = t.type[(int)Entity_kind::NODE];
  v.ft = t.type[(int)Entity_kind::FACE];
  v.ct = t.type[(int)Entity_kind::CELL];
  v.size = topo_size(t);
  return v;
}
View view_of(std::vector<double> const &x) {
  View v;
  v.sdim = v.mdim = 1;
  for (double a : x) { v.x.push_back({a, 0, 0}); v.fx.push_back({v.x.back()}); v.fcen.push_back(v.x.back()); }
  for (size_t i = 0; i + 1 < x.size(); ++i) {
    v.cx.push_back({v.x[i], v.x[i + 1]});
    v.ccen.push_back(0.5L * (v.x[i] + v.x[i + 1]));
  }
  v.cloops.resize(v.cx.size());
  v.nt.assign(v.x.size(), Entity_type::PARALLEL_OWNED);
  v.ft = v.nt;
  v.ct.assign(v.cx.size(), Entity_type::PARALLEL_OWNED);
  v.size = std::max(fabsl(x.front()), fabsl(x.back()));
  return v;
}

ld seg(V3 p, V3 a, V3 b) {
  V3 d = b - a;
  ld q = dot(d, d), t = q == 0 ? 0 : dot(p - a, d) / q;
  t = std::min(1.0L, std::max(0.0L, t));
  return len(p - (a + t * d));
}

// A region with what the oracle needs of it
struct Reg {
  std::string name;
  std::unique_ptr<Region> r;
  Region_type type;
  V3 a, b;                          // box corners; plane point and normal; point
  std::vector<V3> poly;
  Bool_type op;
  std::vector<std::string> comp;
  std::string label;
  Entity_kind lkind;
  bool temp = false;
  int dim() const { return r->dimension(); }
};

Tri in_box(Reg const &r, V3 p, int d, ld err) {
  Tri res = IN;
  const ld A[3] = {r.a.x, r.a.y, r.a.z}, B[3] = {r.b.x, r.b.y, r.b.z}, P[3] = {p.x, p.y, p.z};
  for (int i = 0; i < d; ++i) {
    ld off = std::max(std::min(A[i], B[i]) - P[i], P[i] - std::max(A[i], B[i]));
    if (off > 1e-7L + err) return OUT;
    if (off > 1e-9L - err) res = AMB;
  }
  return res;
}
Tri on_plane(V3 p0, V3 n, V3 p) {
  ld r = fabsl(dot(n, p - p0)), err = 4e-16L * len(n) * (len(p) + len(p0) + len(p - p0));
  if (r + err <= 1e-12L * std::min(1.0L, len(n))) return IN;
  return r - err > 1e-9L ? OUT : AMB;
}
Tri in_polygon3(std::vector<V3> const &q, V3 p) {
  V3 n = {};
  for (size_t i = 0; i < q.size(); ++i) n = n + cross(q[i] - q[0], q[(i + 1) % q.size()] - q[0]);
  n = n / len(n);
  ld dist = 1e30L, w = 0;
  for (size_t i = 0; i < q.size(); ++i) {
    V3 a = q[i] - p, b = q[(i + 1) % q.size()] - p;
    a = a - dot(a, n) * n;
    b = b - dot(b, n) * n;
    V3 pp = p - dot(p - q[0], n) * n;
    dist = std::min(dist, seg(pp, q[i], q[(i + 1) % q.size()]));
    w += atan2l(dot(cross(a, b), n), dot(a, b));
  }
  Tri pl = on_plane(q[0], n, p);
  if (pl == OUT) return OUT;
  if (dist < 1e-6L) return AMB;
  if (fabsl(w) < 3) return OUT;
  return pl;
}
Tri on_segment(V3 a, V3 b, V3 p) {
  V3 d = (b - a) / len(b - a), n = {d.y, -d.x, 0};
  Tri pl = on_plane(a, n, p);
  if (pl == OUT) return OUT;
  ld s = dot(p - a, d);
  if (s < -1e-6L || s > len(b - a) + 1e-6L) return OUT;
  if (s < 1e-6L || s > len(b - a) - 1e-6L) return AMB;
  return pl;
}
Tri in_cell(View const &v, int k, V3 p) {
  if (v.mdim == 1) {
    ld lo = v.cx[k][0].x, hi = v.cx[k][1].x;
    return p.x < lo || p.x > hi ? OUT : IN;
  }
  ld h = 0;
  for (auto &q : v.cx[k]) h = std::max(h, len(q - v.cx[k][0]));
  ld eps = 1e-9L * (h + v.size);
  if (v.mdim == 2) {
    ld w = 0, dist = 1e30L;
    int n = v.cx[k].size();
    for (int i = 0; i < n; ++i) {
      V3 a = v.cx[k][i] - p, b = v.cx[k][(i + 1) % n] - p;
      dist = std::min(dist, seg(p, v.cx[k][i], v.cx[k][(i + 1) % n]));
      w += atan2l(a.x * b.y - a.y * b.x, dot(a, b));
    }
    if (dist < eps) return AMB;
    return fabsl(w) > 3 ? IN : OUT;
  }
  // solid angle over the triangulated surface, and visibility of every triangle
  ld om = 0;
  bool all = true, near = false;
  for (auto &l : v.cloops[k]) {
    V3 m = {};
    int n = l.size();
    for (auto &q : l) m = m + q / n;
    for (int i = 0; i < n; ++i) {
      V3 T[3] = {m, l[i], l[(i + 1) % n]};
      if (n == 3) { if (i) break; T[0] = l[0]; T[1] = l[1]; T[2] = l[2]; }
      V3 a = T[0] - p, b = T[1] - p, c = T[2] - p, nn = cross(T[1] - T[0], T[2] - T[0]);
      if (len(nn) == 0) continue;
      ld hgt = dot(a, nn) / len(nn);
      all = all && hgt > eps;
      // is the point next to the triangle?
      V3 q = p + hgt * nn / len(nn);
      bool over = true;
      for (int j = 0; j < 3; ++j) over = over && dot(cross(T[(j + 1) % 3] - T[j], q - T[j]), nn) >= -eps * len(nn);
      if (fabsl(hgt) < eps && over) near = true;
      for (int j = 0; j < 3; ++j) if (seg(p, T[j], T[(j + 1) % 3]) < eps) near = true;
      ld la = len(a), lb = len(b), lc = len(c);
      om += 2 * atan2l(dot(a, cross(b, c)), la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb);
    }
  }
  if (near) return AMB;
  if (fabsl(om) < 1) return OUT;
  return all ? IN : AMB;
}

struct World {
  View v;
  std::map<std::string, Reg *> by;
  Topo const *t = nullptr;
};

struct Eval { std::vector<Tri> e; bool bad = false; bool null = false; };   // bad: cannot be selected

Eval eval(World const &w, std::string const &name, Entity_kind k) {
  View const &v = w.v;
  Eval r;
  r.e.assign(v.count(k), OUT);
  auto it = w.by.find(name);
  if (it == w.by.end() || k == Entity_kind::EDGE || (k == Entity_kind::FACE && !v.faces)) { r.bad = true; return r; }
  Reg const &g = *it->second;
  int n = v.count(k);
  ld err = 1e-10L * (1 + v.size);
  auto on_all = [&](std::function<Tri(V3)> f) {
    for (int i = 0; i < n; ++i) {
      Tri s = IN;
      std::vector<V3> one(1);
      if (k == Entity_kind::NODE) one[0] = v.x[i];
      std::vector<V3> const &pts = k == Entity_kind::NODE ? one : k == Entity_kind::FACE ? v.fx[i] : v.cx[i];
      for (auto &p : pts) {
        Tri q = f(p);
        if (q == OUT) s = OUT;
        else if (q == AMB && s == IN) s = AMB;
      }
      r.e[i] = s;
    }
  };
  switch (g.type) {
    case Region_type::BOX:
      for (int i = 0; i < n; ++i)
        r.e[i] = in_box(g, k == Entity_kind::NODE ? v.x[i] : k == Entity_kind::FACE ? v.fcen[i] : v.ccen[i],
                        v.sdim, k == Entity_kind::NODE || v.mdim == 1 ? 1e-15L * (1 + v.size) : err);
      break;
    case Region_type::PLANE:
      if (k == Entity_kind::CELL && v.mdim != 2) break;
      on_all([&](V3 p) { return on_plane(g.a, g.b, p); });
      break;
    case Region_type::POLYGON:
      if (k == Entity_kind::CELL) { r.bad = true; break; }
      on_all([&](V3 p) { return v.sdim == 2 ? on_segment(g.poly[0], g.poly[1], p) : in_polygon3(g.poly, p); });
      break;
    case Region_type::POINT:
      if (k == Entity_kind::FACE) { r.bad = true; break; }
      if (k == Entity_kind::CELL) {
        if (v.mdim == 2 && v.sdim == 3) { for (auto &e : r.e) e = AMB; break; }
        for (int i = 0; i < n; ++i) r.e[i] = in_cell(v, i, g.a);
      } else {
        for (int i = 0; i < n; ++i) {
          ld d = len(v.x[i] - g.a);
          r.e[i] = d == 0 ? IN : d > 1e-6L ? OUT : AMB;
        }
      }
      break;
    case Region_type::LABELEDSET: {
      if (g.lkind != k) { r.bad = true; break; }
      if (!w.t) break;
      auto l = w.t->labels.find({g.label, (int)k});
      if (l != w.t->labels.end()) for (int i : l->second) r.e[i] = IN;
      break;
    }
    default: {
      std::vector<Eval> a;
      for (auto &s : g.comp) a.push_back(eval(w, s, k));
      for (auto &x : a) r.bad = r.bad || x.bad;
      auto n3 = [](Tri x) { return x == IN ? OUT : x == OUT ? IN : AMB; };
      auto or3 = [](Tri x, Tri y) { return x == IN || y == IN ? IN : x == AMB || y == AMB ? AMB : OUT; };
      auto and3 = [&](Tri x, Tri y) { return n3(or3(n3(x), n3(y))); };
      for (int i = 0; i < n; ++i) {
        Tri s = a[0].e[i];
        for (size_t j = 1; j < a.size(); ++j) {
          Tri y = a[j].e[i];
          if (g.op == Bool_type::INTERSECT) s = and3(s, y);
          else if (g.op == Bool_type::SUBTRACT) s = and3(s, n3(y));
          else s = or3(s, y);
        }
        // the same ambiguous entity in a term and its complement stays ambiguous: fine
        if (g.op == Bool_type::COMPLEMENT) s = n3(s);
        r.e[i] = s;
      }
    }
  }
  return r;
}

V3 spot(Gen &g, View const &v) {     // a place worth looking at
  switch (g.draw(5)) {
    case 0: return v.x[g.draw(v.x.size())];
    case 1: {
      auto &l = v.cx[g.draw(v.cx.size())];
      V3 s = {};
      for (auto &q : l) s = s + q / (ld)l.size();
      return s;
    }
    case 2: {
      auto &l = v.cx[g.draw(v.cx.size())];
      V3 s = {};
      ld W = 0;
      for (auto &q : l) { ld w = 0.02 + g.unit(); s = s + w * q; W += w; }
      return s / W;
    }
    default: {
      V3 lo = v.x[0], hi = v.x[0];
      for (auto &q : v.x) {
        lo = {std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z)};
        hi = {std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z)};
      }
      auto f = [&](ld a, ld b) { return a + g.real(-0.1, 1.1) * (b - a); };
      return {f(lo.x, hi.x), f(lo.y, hi.y), f(lo.z, hi.z)};
    }
  }
}
V3 dbl(V3 p) { return {(double)p.x, (double)p.y, (double)p.z}; }

std::unique_ptr<Reg> gen_region(Gen &g, View const &v, Topo *t, std::vector<std::string> const &earlier,
                                std::vector<std::string> const &plain, std::string const &name, int id) {
  std::unique_ptr<Reg> r(new Reg);
  r->name = name;
  int d = v.sdim;
  auto lc = g.chance(1, 6) ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
  r->temp = lc == LifeCycle_type::TEMPORARY;
  int what = g.draw(8);
  if (earlier.empty() && what >= 6) what = 0;
  if (d == 1 && what >= 2 && what <= 4) what = g.draw(2);
  if (!t && what == 5) what = 0;
  switch (what) {
    case 0:
      r->type = Region_type::BOX;
      r->a = dbl(spot(g, v));
      r->b = dbl(spot(g, v));
      r->r.reset(new BoxRegion(name, id, pt(r->a, d), pt(r->b, d), lc));
      break;
    case 1:
      r->type = Region_type::POINT;
      r->a = dbl(spot(g, v));
      r->r.reset(new PointRegion(name, id, pt(r->a, d), lc));
      break;
    case 2: case 3: {     // plane, usually one with something on it
      r->type = Region_type::PLANE;
      V3 n;
      if (g.flip()) {
        n = {0, 0, 0};
        int k = g.draw(d);
        (k == 0 ? n.x : k == 1 ? n.y : n.z) = g.flip() ? 1 : -1;
        r->a = dbl(v.x[g.draw(v.x.size())]);
      } else if (v.mdim == 2 && d == 3) {
        auto &l = v.cx[g.draw(v.cx.size())];
        n = cross(l[1] - l[0], l[2] - l[0]);
        r->a = dbl(l[0]);
      } else if (d == 2) {
        auto &l = v.fx[g.draw(v.fx.size())];
        n = {l[1].y - l[0].y, l[0].x - l[1].x, 0};
        r->a = dbl(l[0]);
      } else {
        auto &l = v.fx[g.draw(v.fx.size())];
        n = cross(l[1] - l[0], l[2] - l[0]);
        r->a = dbl(l[0]);
      }
      if (len(n) == 0) throw pbt::Discard();
      r->b = dbl(n / len(n));
      r->r.reset(new PlaneRegion(name, id, pt(r->a, d), pt(r->b, d), lc));
      break;
    }
    case 4: {
      r->type = Region_type::POLYGON;
      if (d == 2) {
        auto &l = v.fx[g.draw(v.fx.size())];
        V3 e = l[1] - l[0];
        r->poly = {dbl(l[0] - g.real(0.01, 2) * e), dbl(l[1] + g.real(0.01, 2) * e)};
      } else {
        V3 o, e1, e2;
        if (g.flip()) {
          V3 ax[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
          int k = g.draw(3);
          e1 = ax[(k + 1) % 3];
          e2 = ax[(k + 2) % 3];
          o = v.x[g.draw(v.x.size())];
        } else {
          auto &l = v.mdim == 2 ? v.cx[g.draw(v.cx.size())] : v.fx[g.draw(v.fx.size())];
          e1 = l[1] - l[0];
          V3 nn = cross(e1, l[2] - l[0]);
          if (len(nn) == 0 || len(e1) == 0) throw pbt::Discard();
          e1 = e1 / len(e1);
          nn = nn / len(nn);
          e2 = cross(nn, e1);
          o = l[0];
        }
        if (g.flip()) std::swap(e1, e2);
        int n = g.range(3, 6);
        ld s = 0;
        for (auto &q : v.x) s = std::max(s, len(q - v.x[0]));
        for (int i = 0; i < n; ++i) {
          double a = 2 * M_PI * (i + g.real(-0.2, 0.2)) / n, q = g.real(0.3, 1.2);
          r->poly.push_back(dbl(o + s * q * (cos(a) * e1 + sin(a) * e2)));
        }
      }
      std::vector<Point> pp;
      for (auto &q : r->poly) pp.push_back(pt(q, d));
      r->r.reset(new PolygonRegion(name, id, pp.size(), pp, lc));
      break;
    }
    case 5: {
      r->type = Region_type::LABELEDSET;
      r->label = "label" + std::to_string(g.draw(3));
      r->lkind = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE});
      if (r->lkind == Entity_kind::FACE && !v.faces) r->lkind = Entity_kind::CELL;
      auto key = std::make_pair(r->label, (int)r->lkind);
      if (!t->labels.count(key) && !g.chance(1, 8)) {
        ints all;
        for (int i = 0; i < v.count(r->lkind); ++i) {
          auto ty = v.type(r->lkind, i);
          if (ty == Entity_type::PARALLEL_OWNED || ty == Entity_type::PARALLEL_GHOST) all.push_back(i);
        }
        t->labels[key] = g.subset(all, g.range(1, 3), 4);
      }
      std::string s = r->lkind == Entity_kind::CELL ? "CELL" : r->lkind == Entity_kind::FACE ? "FACE" : "NODE";
      if (g.flip()) s = "Entity_kind::" + s;
      r->r.reset(new LabeledSetRegion(name, id, s, "mesh.exo", "Exodus II", r->label, lc));
      break;
    }
    default: {
      r->type = Region_type::LOGICAL;
      r->op = g.pick(std::vector<Bool_type>{Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT,
                                            Bool_type::COMPLEMENT});
      int n = g.range(1, 3);
      bool tame = g.chance(3, 4);
      for (int i = 0; i < n; ++i) r->comp.push_back(g.pick(!plain.empty() && tame ? plain : earlier));
      if (g.chance(1, 25)) r->comp[g.draw(n)] = "nowhere";
      r->r.reset(new LogicalRegion(name, id, r->op, r->comp, lc));
    }
  }
  return r;
}

bool has_label(World const &w, std::string const &n) {
  auto it = w.by.find(n);
  if (it == w.by.end()) return false;
  return it->second->type == Region_type::LABELEDSET;
}

// Compare a set with the rule
void content(Ctx &c, World const &w, MeshSet const &s, std::string const &name, Entity_kind k, bool *rich,
             const char *when) {
  Eval e = eval(w, name, k);
  ints o = s.entities<Entity_type::PARALLEL_OWNED>(), gh = s.entities<Entity_type::PARALLEL_GHOST>(),
       all = s.entities<Entity_type::ALL>();
  std::ostringstream os;
  os << "set of " << k << " on " << name << " " << when;
  ints cat = o;
  cat.insert(cat.end(), gh.begin(), gh.end());
  CHECK(cat == all, "all", os.str() << ": owned " << pbt::str(o) << " and ghost " << pbt::str(gh) << " against all "
        << pbt::str(all));
  CHECK(s.name() == name && s.kind() == k, "meta", os.str() << ": name or kind");
  std::vector<int> seen(w.v.count(k), 0);
  for (int pass = 0; pass < 2; ++pass)
    for (int i : pass ? gh : o) {
      CHECK(i >= 0 && i < (int)seen.size(), "range", os.str() << " has entity " << i);
      CHECK(!seen[i]++, "twice", os.str() << " has entity " << i << " twice");
      CHECK(w.v.type(k, i) == (pass ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED), "type",
            os.str() << " has entity " << i << " of another parallel type among its "
            << (pass ? "ghosts" : "owned"));
    }
  int in = 0, out = 0;
  for (int i = 0; i < (int)seen.size(); ++i) {
    if (e.e[i] == AMB) continue;
    bool want = e.e[i] == IN && w.v.type(k, i) != Entity_type::BOUNDARY_GHOST;
    // a point selects one node only; nodes do not coincide
    CHECK_EQ(seen[i], (int)want, "content", "entity " << i << " in " << os.str() << " (" << pbt::str(cat) << ")");
    (want ? in : out)++;
  }
  if (in && out) *rich = true;
}

void sets(Gen &g, Ctx &c, int dim, int mdim) {
  World w;
  Topo t;
  std::vector<double> xs;
  bool line = dim == 1;
  if (line) {
    int n = g.range(1, 8);
    double x = some_real(g, -4, 4);
    for (int i = 0; i <= n; ++i) { xs.push_back(x); x += 0.05 + 2 * g.unit() * g.unit(); }
    w.v = view_of(xs);
    w.v.faces = true;
  } else {
    GenOpts go;
    go.sdim = dim;
    go.mdim = mdim;
    go.maxcells = g.chance(1, 40) ? 90 : 14;
    t = gen_topo(g, c, go);
    w.v = view_of(t);
    w.v.faces = !(mdim == 2 && g.chance(1, 8));
  }
  View &v = w.v;
  c.say() << (line ? "1D mesh of " + std::to_string(xs.size() - 1) + " cells" : topo_summary(t)) << "; regions:";
  int nr = g.range(1, g.chance(1, 30) ? 16 : 6);
  std::vector<std::unique_ptr<Reg>> regs;
  std::vector<std::string> names, plain;   // plain: selects cells, faces and nodes
  for (int i = 0; i < nr; ++i) {
    std::string n = "r" + std::to_string(i);
    regs.push_back(gen_region(g, v, line ? nullptr : &t, names, plain, n, i + 1));
    names.push_back(n);
    Reg &r = *regs.back();
    bool pl = r.type == Region_type::BOX || r.type == Region_type::PLANE;
    if (r.type == Region_type::LOGICAL) {
      pl = true;
      for (auto &q : r.comp) pl = pl && std::count(plain.begin(), plain.end(), q);
    }
    if (pl) plain.push_back(n);
    c.say() << " " << n << "=";
    switch (r.type) {
      case Region_type::BOX: c.say() << "box" << pstr(r.a) << pstr(r.b); c.label("box"); break;
      case Region_type::POINT: c.say() << "point" << pstr(r.a); c.label("point"); break;
      case Region_type::PLANE: c.say() << "plane" << pstr(r.a) << "n" << pstr(r.b); c.label("plane"); break;
      case Region_type::POLYGON:
        c.say() << "polygon";
        for (auto &q : r.poly) c.say() << pstr(q);
        c.label("polygon");
        break;
      case Region_type::LABELEDSET: c.say() << "label " << r.label << " " << r.lkind; c.label("labelled"); break;
      default: {
        static const char *n[] = {"?", "UNION", "INTERSECT", "SUBTRACT", "COMPLEMENT"};
        (void)n;
        c.say() << "logical" << (int)r.op << pbt::str(r.comp) << (r.temp ? " temporary" : "");
        c.label("logical");
      }
    }
  }
  for (auto &r : regs) w.by[r->name] = r.get();
  w.t = line ? nullptr : &t;
  // the order in which the model holds them is free
  std::vector<RegionPtr> order;
  for (auto &r : regs) order.push_back(r->r.get());
  if (g.flip()) g.shuffle(order);
  GeometricModel gm(v.sdim, order);
  std::unique_ptr<Mesh> mp;
  GenMesh *gmesh = nullptr;
  // some meshes are made elsewhere, moved into place and updated before any set is asked for
  bool moved = g.chance(1, 6);
  double grow = moved ? g.real(0.5, 2) : 1, off = moved ? g.real(-3, 3) : 0;
  std::vector<double> xs0 = xs;
  if (moved) for (double &q : xs0) q = grow * q + off;
  if (line) mp.reset(new Mesh_simple(xs0, MPI_COMM_WORLD, &gm, true, false, false, false, false, 0, 0, 0, false,
                                     Partitioner_type::INDEX, Geom_type::CARTESIAN));
  else {
    MeshOpts mo;
    mo.faces = v.faces;
    mo.gm = &gm;
    mo.edges = v.faces && g.chance(1, 4);
    if (v.faces && v.mdim == v.sdim && g.chance(1, 6)) mo.sides = mo.wedges = mo.corners = mo.edges = true;
    Topo t0 = t;
    if (moved) for (auto &q : t0.x) q = {grow * q.x + off, grow * q.y - off, dim == 3 ? grow * q.z + off : q.z};
    gmesh = new GenMesh(t0, mo);
    mp.reset(gmesh);
  }
  Mesh &m = *mp;
  if (moved) {
    c.say() << "; moved into place";
    for (size_t i = 0; i < v.x.size(); ++i) m.node_set_coordinates(i, pt(v.x[i], dim));
    m.update_geometric_quantities();
    c.label("moved");
  }
  bool rich = false;
  // sets that must be there
  std::set<std::pair<std::string, int>> must;
  std::map<std::pair<std::string, int>, MeshSet *> first;
  auto verify = [&](const char *when) {
    std::vector<std::string> all = names;
    all.push_back("nowhere");
    for (auto &n : all)
      for (Entity_kind k : kKinds) {
        auto s = m.find_meshset(n, k);
        auto key = std::make_pair(n, (int)k);
        if (must.count(key))
          CHECK(s != nullptr, "missing", "no set of " << k << " on " << n << " " << when);
        std::shared_ptr<MeshSet> s2 = static_cast<Mesh const &>(m).find_meshset_from_region(n, k);
        if (!s) CHECK(s2 == nullptr, "lookup", "a set of " << k << " on " << n << " found by region only, " << when);
        if (s2) CHECK(s2 == s, "lookup", "two sets of " << k << " on " << n << ", " << when);
        for (Entity_type ty : {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL,
                               Entity_type::BOUNDARY_GHOST}) {
          used_ints l;
          m.get_set_entities(n, k, ty, &l);
          ints want;
          if (s && ty == Entity_type::PARALLEL_OWNED) want = s->entities<Entity_type::PARALLEL_OWNED>();
          if (s && ty == Entity_type::PARALLEL_GHOST) want = s->entities<Entity_type::PARALLEL_GHOST>();
          if (s && ty == Entity_type::ALL) want = s->entities<Entity_type::ALL>();
          CHECK(l == want, "query", "get_set_entities of " << n << " " << k << " " << ty << " " << when << ": "
                << pbt::str(l) << " against " << pbt::str(want));
          CHECK_EQ(m.get_set_size(n, k, ty), (unsigned)want.size(), "size", "get_set_size of " << n << " " << k
                   << " " << ty << " " << when);
          CHECK_EQ(static_cast<Mesh const &>(m).get_set_size(n, k, ty), (unsigned)want.size(), "size",
                   "const get_set_size of " << n << " " << k << " " << ty << " " << when);
        }
        if (!s) continue;
        CHECK(w.by.count(n) && k != Entity_kind::EDGE, "invented", "a set of " << k << " on " << n << " " << when);
        if (first.count(key)) CHECK(first[key] == s.get(), "changed", "the set of " << k << " on " << n
                                    << " is another one " << when);
        first[key] = s.get();
        content(c, w, *s, n, k, &rich, when);
      }
  };
  verify("at first");
  int steps = g.range(1, 4);
  std::vector<Entity_kind> ok = {Entity_kind::CELL, Entity_kind::NODE};
  if (v.faces) ok.push_back(Entity_kind::FACE);
  for (int s = 0; s < steps; ++s) {
    int act = g.draw(5);
    std::string when;
    if (act < 2) {
      std::map<std::string, std::vector<Entity_kind>> map;
      if (act == 1)
        for (auto &n : names)
          if (g.flip()) {
            std::vector<Entity_kind> ks;
            for (auto k : ok) if (g.flip() && (!eval(w, n, k).bad || g.chance(1, 8))) ks.push_back(k);
            map[n] = ks;
          }
      when = act ? "after set-up of chosen kinds" : "after set-up";
      c.say() << "; " << when;
      for (auto &q : map) { c.say() << " " << q.first << ":"; for (auto k : q.second) c.say() << k << ","; }
      // which sets should this make, and may any be refused?
      bool may = false;
      std::vector<std::pair<std::string, int>> add;
      for (auto &r : regs) {
        std::vector<Entity_kind> ks;
        if (r->type == Region_type::LABELEDSET) ks = {r->lkind};
        else {
          bool lab = false;
          if (r->type == Region_type::LOGICAL)
            for (auto &q : r->comp) {
              lab = lab || has_label(w, q);
              if (!w.by.count(q)) may = true;
            }
          bool def = !map.count(r->name);
          if (!def) ks = map[r->name];
          else {
            if (r->dim() == v.sdim) ks.push_back(Entity_kind::CELL);
            if (v.faces && r->dim() >= v.sdim - 1) ks.push_back(Entity_kind::FACE);
            ks.push_back(Entity_kind::NODE);
          }
          if (lab) {     // one kind only
            for (auto k : ok) if (eval(w, r->name, k).bad) may = true;
            std::vector<Entity_kind> k2;
            for (auto k : ok) {
              bool all = true;
              for (auto &q : r->comp) if (has_label(w, q) && w.by[q]->lkind != k) all = false;
              if (all) k2.push_back(k);
            }
            ks = k2;
          }
          // sets a region cannot have are only refused when asked for, not by default
          if (def && r->type != Region_type::LOGICAL) {
            std::vector<Entity_kind> k2;
            for (auto k : ks) if (!eval(w, r->name, k).bad) k2.push_back(k);
            ks = k2;
          }
        }
        for (auto k : ks) {
          if (eval(w, r->name, k).bad) may = true;
          else if (!(r->type == Region_type::LOGICAL && r->temp)) add.push_back({r->name, (int)k});
        }
      }
      bool threw = false;
      std::string msg;
      try {
        if (map.empty() && g.flip()) m.init_sets_from_geometric_model();
        else m.init_sets_from_geometric_model(map);
      } catch (Errors::Message &e) { threw = true; msg = e.what(); }
      if (threw) {
        CHECK(may, "refused", "setting up sets failed: " << msg);
        c.label("set-up refused");
      } else must.insert(add.begin(), add.end());
    } else {
      std::string n = g.chance(1, 12) ? "nowhere" : g.pick(names);
      Entity_kind k = g.chance(1, 10) ? Entity_kind::EDGE : g.pick(ok);
      Eval e = eval(w, n, k);
      bool there = m.find_meshset(n, k) != nullptr;
      auto key = std::make_pair(n, (int)k);
      bool temp = w.by.count(n) && w.by[n]->type == Region_type::LOGICAL && w.by[n]->temp;
      std::ostringstream os;
      bool threw = false;
      std::shared_ptr<MeshSet> res;
      bool build = act < 4 && !there;
      os << "after " << (build ? "building" : "finding") << " " << n << " " << k;
      when = os.str();
      c.say() << "; " << when;
      bool map = g.flip();
      bool valid = m.valid_region_name(n, k);
      if (!w.by.count(n)) CHECK(!valid, "valid", n << " is not a region");
      if (w.by.count(n) && w.by[n]->type != Region_type::LOGICAL && w.by[n]->type != Region_type::LABELEDSET) {
        unsigned rd = w.by[n]->r->dimension(), md = m.manifold_dimension();
        CHECK_EQ(m.valid_region_name(n, Entity_kind::CELL), rd >= md || rd == 0, "valid", "validity of " << n << " for cells");
        CHECK_EQ(m.valid_region_name(n, Entity_kind::FACE), rd + 1 >= md, "valid", "validity of " << n << " for faces");
        CHECK_EQ(m.valid_region_name(n, Entity_kind::NODE), true, "valid", "validity of " << n << " for nodes");
        CHECK_EQ(m.valid_region_name(n, Entity_kind::EDGE), false, "valid", "validity of " << n << " for edges");
      }
      if (w.by.count(n) && w.by[n]->type == Region_type::LABELEDSET)
        for (auto q : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::NODE})
          CHECK_EQ(m.valid_region_name(n, q), q == w.by[n]->lkind, "valid", "validity of labelled region " << n << " for" << q);
      try {
        res = build ? m.build_set_from_region(n, k, map) : m.find_meshset_from_region(n, k, true);
      } catch (Errors::Message &) { threw = true; }
      if (threw) {
        CHECK(e.bad, "refused", "refused " << when.substr(6));
        CHECK(!there, "refused", "refused " << when.substr(6) << " though the set exists");
      } else if (res) {
        CHECK(w.by.count(n), "invented", "a set on an unknown region");
        content(c, w, *res, n, k, &rich, when.c_str());
        if (!temp) {
          must.insert(key);
          CHECK(m.find_meshset(n, k) == res, "lookup", "the set just given is not the one found " << when);
        }
      } else {
        // nothing: unknown, or a kind the region is not valid for
        CHECK(e.bad || (!build && !valid), "null", "no set " << when);
        if (!e.bad && w.by.count(n) && w.by[n]->type == Region_type::LABELEDSET)
          c.fail("valid", "labelled region " + n + " is said not to be valid for its own kind");
      }
    }
    verify(when.c_str());
  }
  c.label(line ? "1D" : dim == 2 ? "2D" : mdim == 2 ? "surface" : "3D");
  c.nontrivial(rich);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P10",
          "random meshes with ghosts, geometric models of up to six regions of every type (boolean regions "
          "nested), and histories of up-front and single set creation; non-trivial: some set with entities both "
          "inside and outside",
          60000, 1200000,
          {{"planar", 3, [](Gen &g, Ctx &c) { sets(g, c, 2, 2); }},
           {"solid", 4, [](Gen &g, Ctx &c) { sets(g, c, 3, 3); }},
           {"surface", 1, [](Gen &g, Ctx &c) { sets(g, c, 3, 2); }},
           {"line", 1, [](Gen &g, Ctx &c) { sets(g, c, 1, 1); }}},
          {"entities within rounding of a region's boundary are not judged",
           "boolean regions do not contain themselves"}};
}
