// P04: geometry after node motion and update, against a freshly built mesh
#include "genmesh.hh"
#include <random>
#include "Mesh_simple.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Has { bool faces, edges, sides, wedges, corners; };
Has has(MeshOpts const &o) {
  bool w = o.wedges || o.corners, s = o.sides || w;
  return {o.faces || s, o.edges || s, s, w, o.corners};
}

using Snap = std::vector<std::pair<std::string, std::vector<double>>>;

struct Taker {
  Snap out;
  std::vector<double> *cur = nullptr;
  Taker &at(std::string const &what, int id) {
    out.push_back({what + " " + std::to_string(id), {}});
    return *this;
  }
  Taker &operator<<(double d) { out.back().second.push_back(d); return *this; }
  Taker &operator<<(Point const &p) {
    for (int i = 0; i < p.dim(); ++i) out.back().second.push_back(p[i]);
    return *this;
  }
  Taker &operator<<(std::vector<Point> const &v) { for (auto &p : v) *this << p; return *this; }
};

// The order in which a pass visits the entities of each kind: what a query returns does not depend on
// what was asked before, so passes in different orders see the same values.
std::mt19937 order_rng;
int order_mode = 0;
std::vector<int> visit(std::vector<int> v) {
  if (order_mode == 3) return v.empty() ? v : std::vector<int>(1, v[v.size() - 1]);  // just the last
  if (order_mode == 1) std::reverse(v.begin(), v.end());
  if (order_mode == 2) std::shuffle(v.begin(), v.end(), order_rng);
  return v;
}
Snap canonical(Snap s) {
  std::stable_sort(s.begin(), s.end(), [](Snap::value_type const &a, Snap::value_type const &b) { return a.first < b.first; });
  return s;
}

// Quantities that are cached: only an update may change them
Snap cached(Mesh const &m, Has h) {
  Taker t;
  for (int c : visit(m.cells())) {
    t.at("volume of cell", c) << m.cell_volume(c);
    t.at("centroid of cell", c) << m.cell_centroid(c);
    if (h.faces) {
      ints fs;
      m.cell_get_faces(c, &fs);
      t.at("outward face normals of cell", c);
      for (int f : fs) t << m.face_normal(f, false, c);
    }
  }
  if (h.faces)
    for (int f : visit(m.faces())) {
      t.at("area of face", f) << m.face_area(f);
      t.at("centroid of face", f) << m.face_centroid(f);
      if (m.manifold_dimension() == m.space_dimension() && (int)m.space_dimension() > 1)
        t.at("normal of face", f) << m.face_normal(f);
    }
  if (h.edges)
    for (int e : visit(m.edges())) {
      t.at("length of edge", e) << m.edge_length(e);
      int a, b;
      m.edge_get_nodes(e, &a, &b);
      Point v[3];
      for (int i = 0; i < 3; ++i) {
        int k = order_mode == 0 ? i : 2 - i;
        v[k] = k == 0 ? m.edge_vector(e) : m.edge_vector(e, false, k == 1 ? a : b);
      }
      t.at("vector of edge", e) << v[0] << v[1] << v[2];
    }
  if (h.sides)
    for (int s : visit(m.sides())) {
      t.at("volume of side", s) << m.side_volume(s);
      t.at("normal of side", s) << m.side_facet_normal(s);
    }
  if (h.wedges)
    for (int w : visit(m.wedges())) {
      t.at("volume of wedge", w) << m.wedge_volume(w);
      t.at("normals of wedge", w) << m.wedge_facet_normal(w, 0) << m.wedge_facet_normal(w, 1);
    }
  if (h.corners)
    for (int k : visit(m.corners())) t.at("volume of corner", k) << m.corner_volume(k);
  return canonical(t.out);
}

// Quantities that always reflect the current coordinates
Snap current(Mesh const &m, Has h) {
  Taker t;
  std::vector<Point> xy;
  Point p;
  for (int n : visit(m.nodes())) { m.node_get_coordinates(n, &p); t.at("coordinates of node", n) << p; }
  for (int c : visit(m.cells())) {
    m.cell_get_coordinates(c, &xy);
    t.at("coordinates of cell", c) << xy;
    if (m.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST) continue;
    t.at("recomputed volume of cell", c) << m.cell_volume(c, true);
    t.at("recomputed centroid of cell", c) << m.cell_centroid(c, true);
  }
  if (h.faces)
    for (int f : visit(m.faces())) {
      m.face_get_coordinates(f, &xy);
      t.at("coordinates of face", f) << xy;
      t.at("recomputed area of face", f) << m.face_area(f, true);
      t.at("recomputed normal of face", f) << m.face_normal(f, true);
      t.at("recomputed centroid of face", f) << m.face_centroid(f, true);
      ints fc;
      m.face_get_cells(f, Entity_type::ALL, &fc);
      for (int c : sorted(fc)) t.at("recomputed normal of face", f) << m.face_normal(f, true, c);
    }
  if (h.edges)
    for (int e : visit(m.edges())) {
      t.at("recomputed length of edge", e) << m.edge_length(e, true);
      int a, b;
      m.edge_get_nodes(e, &a, &b);
      Point v[3];
      for (int i = 0; i < 3; ++i) {
        int k = order_mode == 0 ? i : 2 - i;
        v[k] = k == 0 ? m.edge_vector(e, true) : m.edge_vector(e, true, k == 1 ? a : b);
      }
      t.at("recomputed vector of edge", e) << v[0] << v[1] << v[2];
      t.at("centre of edge", e) << m.edge_centroid(e);
    }
  return canonical(t.out);
}

// Quantities derived from both: compared after an update only
Snap derived(Mesh const &m, Has h) {
  Taker t;
  std::vector<Point> xy;
  if (h.sides)
    for (int s : visit(m.sides())) {
      m.side_get_coordinates(s, &xy);
      t.at("coordinates of side", s) << xy;
      if (m.entity_get_type(Entity_kind::SIDE, s) != Entity_type::BOUNDARY_GHOST) {
        t.at("recomputed volume of side", s) << m.side_volume(s, true);
        t.at("recomputed normal of side", s) << m.side_facet_normal(s, true);
      }
    }
  if (h.wedges)
    for (int w : visit(m.wedges())) {
      m.wedge_get_coordinates(w, &xy, true);
      t.at("coordinates of wedge", w) << xy;
      if (m.entity_get_type(Entity_kind::WEDGE, w) != Entity_type::BOUNDARY_GHOST) {
        t.at("recomputed volume of wedge", w) << m.wedge_volume(w, true);
        t.at("recomputed normals of wedge", w) << m.wedge_facet_normal(w, 0, true) << m.wedge_facet_normal(w, 1, true);
      }
    }
  if (h.corners)
    for (int k : visit(m.corners()))
      if (m.entity_get_type(Entity_kind::CORNER, k) != Entity_type::BOUNDARY_GHOST) {
        m.corner_get_coordinates(k, &xy);
        t.at("coordinates of corner", k) << xy;
        t.at("recomputed volume of corner", k) << m.corner_volume(k, true);
      }
  return canonical(t.out);
}

void same(Ctx &c, Snap const &a, Snap const &b, double tol, char const *tag, std::string const &when) {
  CHECK_EQ(a.size(), b.size(), tag, "number of quantities");
  // equal up to rounding, relative to the largest value of that quantity anywhere on the mesh
  auto what = [](std::string const &s) { return s.substr(0, s.rfind(' ')); };
  std::map<std::string, double> big;
  for (auto &q : b) {
    double &m = big[what(q.first)];
    for (double v : q.second) m = std::max(m, std::fabs(v));
  }
  for (size_t i = 0; i < a.size(); ++i) {
    CHECK(a[i].first == b[i].first && a[i].second.size() == b[i].second.size(), tag,
          when << ": " << a[i].first << " and " << b[i].first);
    double eps = a[i].second == b[i].second ? 0 : tol * big[what(a[i].first)];
    for (size_t k = 0; k < a[i].second.size(); ++k) {
      double x = a[i].second[k], y = b[i].second[k];
      CHECK(std::fabs(x - y) <= eps, tag,
            when << ": component " << k << " of the " << a[i].first << " is " << x << " and should be " << y);
    }
  }
}

// Runs a history of moves and updates.  fresh() builds a new mesh where the nodes are now.
template <class Move, class Fresh>
void history(Gen &g, Ctx &c, Mesh &m, Has h, Move move, Fresh fresh) {
  order_mode = 0;
  Snap old = cached(m, h);
  bool stale = false;
  int updates = 0, moves = 0;
  int n = g.range(1, g.chance(1, 20) ? 15 : 5);
  for (int step = 0; step <= n; ++step) {
    order_mode = g.draw(3);
    order_rng.seed(step);
    // ask for the last entity of each kind just before the change, and first of all just after it
    bool again = g.flip();
    if (again) {
      order_mode = 3;
      cached(m, h);
      current(m, h);
      derived(m, h);
      order_mode = 1;
    }
    if (step == n || g.chance(2, 5)) {
      m.update_geometric_quantities();
      Snap cu = current(m, h), ca = cached(m, h), de = derived(m, h);
      auto f = fresh();
      c.say() << " update";
      updates++;
      same(c, cu, current(*f, h), 1e-13, "after", "after update");
      same(c, ca, cached(*f, h), 1e-13, "after", "after update");
      same(c, de, derived(*f, h), 1e-13, "after", "after update");
      old = ca;
      stale = false;
    } else {
      bool moved = move();
      c.say() << (moved ? " move" : " stay");
      if (moved) { moves++; stale = true; }
      Snap ca = cached(m, h), cu = current(m, h);
      auto f = fresh();
      same(c, ca, old, 0, "stale", "before update");
      same(c, cu, current(*f, h), 1e-13, "before", "before update");
    }
  }
  c.nontrivial(moves > 0);
  if (moves > 1 && updates > 1) c.label("several moves and updates");
}

void set_node(Gen &g, Mesh &m, int i, V3 x, int dim) {
  if (g.flip()) {
    double d[3] = {(double)x.x, (double)x.y, (double)x.z};
    m.node_set_coordinates(i, d);
  } else {
    m.node_set_coordinates(i, pt(x, dim));
  }
}

void gen(Gen &g, Ctx &c, int mdim, int sdim) {
  GenOpts go;
  go.scales = true;
  go.mdim = mdim;
  go.sdim = sdim;
  Topo t = gen_topo(g, c, go);
  MeshOpts o;
  if (sdim == mdim && g.chance(2, 3)) o = g.flip() ? MeshOpts::all() : gen_mesh_opts(g);
  else o.edges = g.flip();
  c.say() << topo_summary(t);
  GenMesh m(t, o);
  c.label(mdim == 3 ? "solid" : sdim == 2 ? "planar" : "surface");
  history(g, c, m, has(o),
          [&]() {
            std::vector<V3> x0 = t.x;
            if (!move_nodes(g, &t, false)) return false;
            for (size_t i = 0; i < x0.size(); ++i)
              if (len(t.x[i] - x0[i]) > 0 || g.chance(1, 8)) set_node(g, m, i, t.x[i], sdim);
            return true;
          },
          [&]() { return std::make_shared<GenMesh>(t, o); });
  // topology is not affected
  GenMesh f(t, o);
  for (auto k : {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::CELL, Entity_kind::SIDE,
                 Entity_kind::WEDGE, Entity_kind::CORNER})
    for (auto ty : {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL}) {
      CHECK_SET(entity_list(m, k, ty), entity_list(f, k, ty), "topology", "entities" << k << ty);
    }
  if (has(o).sides)
    for (auto s : m.sides())
      CHECK(m.side_get_cell(s) == f.side_get_cell(s) && m.side_get_node(s, 0) == f.side_get_node(s, 0) &&
            m.side_get_opposite_side(s) == f.side_get_opposite_side(s), "topology", "side " << s);
}

// The structured mesh, moved from one box to another or bent
void box(Gen &g, Ctx &c) {
  int nmax = g.chance(1, 40) ? 7 : 3;
  int n[3] = {g.range(1, nmax), g.range(1, nmax), g.range(1, nmax)};
  double lo[3], hi[3], scale = any_scale(g);
  auto extents = [&]() {
    for (int d = 0; d < 3; ++d) { lo[d] = some_real(g, -4, 4) * scale; hi[d] = lo[d] + (0.5 + 3 * g.unit()) * scale; }
  };
  extents();
  Mesh_simple m(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2], MPI_COMM_WORLD, nullptr, true, false,
                false, false, false);
  c.say() << "Mesh_simple " << n[0] << "x" << n[1] << "x" << n[2];
  c.label("structured box");
  // the same mesh as tables
  Topo t;
  int nc = m.num_cells(), nn = m.num_nodes(), nf = m.num_faces();
  t.x.resize(nn);
  for (int i = 0; i < nn; ++i) { Point p; m.node_get_coordinates(i, &p); t.x[i] = v3(p); }
  t.fn.resize(nf);
  for (int f = 0; f < nf; ++f) m.face_get_nodes(f, &t.fn[f]);
  t.cn.resize(nc); t.cf.resize(nc); t.ct.assign(nc, Cell_type::HEX); t.ce.resize(nc);
  t.fe.resize(nf);
  t.fc.resize(nf); t.nc.resize(nn); t.nf.resize(nn);
  for (int k = 0; k < nc; ++k) {
    m.cell_get_nodes(k, &t.cn[k]);
    ints fs;
    std::vector<dir_t> ds;
    m.cell_get_faces_and_dirs(k, &fs, &ds);
    for (size_t i = 0; i < fs.size(); ++i) { t.cf[k].push_back({fs[i], ds[i]}); t.fc[fs[i]].push_back(k); }
    for (int v : t.cn[k]) t.nc[v].push_back(k);
  }
  for (int f = 0; f < nf; ++f) for (int v : t.fn[f]) t.nf[v].push_back(f);
  t.cfo = t.cf;
  int cnt[4] = {nn, 0, nf, nc};
  for (int k = 0; k < 4; ++k) {
    t.type[k].assign(cnt[k], Entity_type::PARALLEL_OWNED);
    for (int i = 0; i < cnt[k]; ++i) t.gid[k].push_back(i);
  }
  MeshOpts o;
  history(g, c, m, has(o),
          [&]() {
            std::vector<V3> x0 = t.x;
            if (g.chance(1, 3)) {
              extents();
              for (int i = 0; i < nn; ++i) {
                int ix = i % (n[0] + 1), iy = i / (n[0] + 1) % (n[1] + 1), iz = i / (n[0] + 1) / (n[1] + 1);
                t.x[i] = {lo[0] + ix * (hi[0] - lo[0]) / n[0], lo[1] + iy * (hi[1] - lo[1]) / n[1],
                          lo[2] + iz * (hi[2] - lo[2]) / n[2]};
                for (auto p : {&t.x[i].x, &t.x[i].y, &t.x[i].z}) *p = static_cast<double>(*p);
              }
            } else if (!move_nodes(g, &t, false)) {
              return false;
            }
            for (int i = 0; i < nn; ++i)
              if (len(t.x[i] - x0[i]) > 0) set_node(g, m, i, t.x[i], 3);
            return true;
          },
          [&]() { return std::make_shared<GenMesh>(t, o); });
}

void line(Gen &g, Ctx &c) {
  int n = g.range(1, g.chance(1, 20) ? 60 : 6);
  bool sph = g.flip();
  double scale = any_scale(g);
  std::vector<double> x;
  auto coords = [&]() {
    double x0 = scale * some_real(g, sph ? 0 : -4, 4);
    x.clear();
    for (int i = 0; i <= n; ++i) { x.push_back(x0); x0 += scale * (0.05 + g.unit()); }
  };
  coords();
  MeshOpts o = g.chance(2, 3) ? MeshOpts::all() : gen_mesh_opts(g);
  Has h = has(o);
  auto make = [&]() {
    return std::make_shared<Mesh_simple>(x, MPI_COMM_WORLD, nullptr, h.faces, h.edges, h.sides, h.wedges, h.corners,
                                         0, 0, 0, false, Partitioner_type::INDEX,
                                         sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN);
  };
  auto m = make();
  c.say() << (sph ? "spherical" : "cartesian") << " line of " << n << " cells";
  c.label("line");
  history(g, c, *m, h,
          [&]() {
            if (g.flip()) {
              coords();
            } else {
              int i = g.draw(n + 1);
              double a = i ? x[i - 1] : std::max(sph ? 0.0 : -1e19, x[0] - 0.3 * scale), b = i < n ? x[i + 1] : x[n] + 0.3 * scale;
              x[i] = a + (b - a) * g.real(0.2, 0.8);
            }
            for (int i = 0; i <= n; ++i) set_node(g, *m, i, V3{x[i], 0, 0}, 1);
            return true;
          },
          make);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P04",
          "Case: a 1D, planar, solid, surface or structured box mesh with random requested entities, and a history "
          "of 1-6 node moves (local, scattered or affine) and updates; after each step every geometric query is "
          "compared to a mesh built anew from the moved coordinates. Non-trivial: at least one move.",
          8000, 160000,
          {{"planar", 3, [](Gen &g, Ctx &c) { gen(g, c, 2, 2); }},
           {"solid", 3, [](Gen &g, Ctx &c) { gen(g, c, 3, 3); }},
           {"surface", 1, [](Gen &g, Ctx &c) { gen(g, c, 2, 3); }},
           {"box", 1, box},
           {"line", 1, line}},
          {"Moves keep the mesh valid; tolerance 1e-13."}};
}
