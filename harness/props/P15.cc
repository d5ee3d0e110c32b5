// P15: mesh factory options and creation
#include <fstream>
#include "BoxRegion.hh"
#include "GeometricModel.hh"
#include "MeshFactory.hh"
#include "Mesh_simple.hh"
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

// The number of ranks a creation sees (through MPI's profiling interface)
static int fake_ranks = 0;
extern "C" int MPI_Comm_size(MPI_Comm comm, int *n) {
  int rc = PMPI_Comm_size(comm, n);
  if (fake_ranks) *n = fake_ranks;
  return rc;
}
using JaliGeometry::Geom_type;
using JaliGeometry::GeometricModel;

namespace {

const Entity_type kOwn = Entity_type::PARALLEL_OWNED, kGho = Entity_type::PARALLEL_GHOST,
                  kBnd = Entity_type::BOUNDARY_GHOST, kAll = Entity_type::ALL;
const std::vector<Entity_kind> kKinds = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE,
                                         Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL};

std::vector<Entity_kind> some_kinds(Gen &g) {
  std::vector<Entity_kind> l;
  for (auto k : kKinds) if (g.chance(1, 3)) l.push_back(k);
  return l;
}

struct Opts {
  MeshFramework_t fw = MSTK;
  bool edges = false, faces = true, sides = false, wedges = false, corners = false, cells = true, bghosts = false;
  int tiles = 0, tlayers = 0, dlayers = 1;
  Partitioner_type part = Partitioner_type::INDEX;
  Geom_type geom = Geom_type::CARTESIAN;
  GeometricModel *gm = nullptr;
  MPI_Comm comm = MPI_COMM_WORLD;
  bool *flag(Entity_kind k) {
    switch (k) {
      case Entity_kind::EDGE: return &edges;
      case Entity_kind::FACE: return &faces;
      case Entity_kind::SIDE: return &sides;
      case Entity_kind::WEDGE: return &wedges;
      case Entity_kind::CORNER: return &corners;
      case Entity_kind::CELL: return &cells;
      default: return nullptr;
    }
  }
};

void readback(Ctx &c, MeshFactory const &f, Opts o, int i) {
  CHECK(f.framework() == o.fw, "framework", "framework of factory " << i);
  CHECK(f.partitioner() == o.part, "partitioner", "partitioner of factory " << i);
  CHECK(f.mesh_geometry() == o.geom, "geometry", "geometry of factory " << i);
  CHECK_EQ(f.num_ghost_layers_distmesh(), o.dlayers, "dlayers", "ghost layers of factory " << i);
  CHECK_EQ(f.boundary_ghosts_requested(), o.bghosts, "bghosts", "boundary ghosts of factory " << i);
  CHECK_EQ(f.num_tiles(), o.tiles, "tiles", "tiles of factory " << i);
  CHECK_EQ(f.num_ghost_layers_tile(), o.tlayers, "tlayers", "tile ghost layers of factory " << i);
  CHECK(f.geometric_model() == o.gm, "model", "geometric model of factory " << i);
  ints got, want;
  for (auto k : f.included_entities()) got.push_back((int)k);
  for (auto k : kKinds) if (!o.flag(k) || *o.flag(k)) want.push_back((int)k);
  CHECK_SET(got, want, "entities", "entities included by factory " << i);
}

// everything observable about a mesh, as text
template <class L> void put(std::ostream &os, L const &l) {
  for (auto const &v : l) os << v << ' ';
  os << '\n';
}
std::string dump(Mesh &m) {
  std::ostringstream os;
  os.precision(17);
  os << m.space_dimension() << m.manifold_dimension() << (int)m.geom_type() << (int)m.mesh_type() << ' '
     << m.geometric_model() << '\n';
  for (auto k : kKinds) {
    os << k;
    for (auto t : {kOwn, kGho, kBnd, kAll}) { os << '|'; put(os, entity_list(m, k, t)); }
  }
  Point p;
  for (int n : entity_list(m, Entity_kind::NODE, kAll)) { m.node_get_coordinates(n, &p); os << pstr(p) << '\n'; }
  for (int k : entity_list(m, Entity_kind::CELL, kAll)) {
    ints l;
    std::vector<dir_t> d;
    m.cell_get_faces_and_dirs(k, &l, &d);
    put(os, l); put(os, ints(d.begin(), d.end()));
    m.cell_get_nodes(k, &l);
    put(os, l);
    os << m.cell_volume(k) << ' ' << pstr(m.cell_centroid(k)) << '\n';
    if (m.num_entities(Entity_kind::CORNER, kAll)) { m.cell_get_corners(k, &l); put(os, l); }
    if (m.num_entities(Entity_kind::WEDGE, kAll)) { m.cell_get_wedges(k, &l); put(os, l); }
    if (m.num_entities(Entity_kind::SIDE, kAll)) { m.cell_get_sides(k, &l); put(os, l); }
  }
  for (int f : entity_list(m, Entity_kind::FACE, kAll)) os << m.face_area(f) << pstr(m.face_normal(f)) << '\n';
  os << m.num_tiles() << " tiles\n";
  for (auto const &t : m.tiles()) {
    os << t->ID() << ':';
    put(os, t->cells<Entity_type::PARALLEL_OWNED>()); put(os, t->cells<Entity_type::PARALLEL_GHOST>());
    put(os, t->nodes<Entity_type::PARALLEL_OWNED>()); put(os, t->nodes<Entity_type::PARALLEL_GHOST>());
    put(os, t->faces<Entity_type::PARALLEL_OWNED>()); put(os, t->faces<Entity_type::PARALLEL_GHOST>());
    put(os, t->edges<Entity_type::ALL>()); put(os, t->sides<Entity_type::ALL>());
    put(os, t->wedges<Entity_type::ALL>()); put(os, t->corners<Entity_type::ALL>());
  }
  return os.str();
}

// the mesh has what the options ask for, derived here and not by building another mesh
void as_asked(Ctx &c, Mesh &m, Opts const &o, int dim, int const *n, double const *lo, double const *hi) {
  int cells = 1, nodes = 1, faces = 0;
  for (int d = 0; d < dim; ++d) {
    cells *= n[d];
    nodes *= n[d] + 1;
    int f = n[d] + 1;
    for (int e = 0; e < dim; ++e) if (e != d) f *= n[e];
    faces += f;
  }
  CHECK_EQ((int)m.space_dimension(), dim, "dimension", "space dimension");
  CHECK_EQ((int)m.manifold_dimension(), dim, "dimension", "manifold dimension");
  CHECK(m.geom_type() == (dim == 1 ? o.geom : Geom_type::CARTESIAN), "geometry", "geometry of the mesh");
  CHECK(m.geometric_model() == o.gm, "model", "geometric model of the mesh");
  CHECK(m.get_comm() == o.comm, "comm", "communicator of the mesh");
  bool wedges = o.wedges || o.corners, sides = o.sides || wedges, edges = o.edges || sides;
  struct { Entity_kind k; int n; } want[] = {
      {Entity_kind::NODE, nodes}, {Entity_kind::CELL, cells}, {Entity_kind::FACE, faces},
      {Entity_kind::EDGE, edges ? nodes : 0}, {Entity_kind::SIDE, sides ? 2 * cells : 0},
      {Entity_kind::WEDGE, wedges ? 4 * cells : 0}, {Entity_kind::CORNER, o.corners ? 2 * cells : 0}};
  for (auto &w : want) {
    CHECK_EQ((int)m.num_entities(w.k, kAll), w.n, "count", "number of" << w.k);
    CHECK_EQ((int)m.num_entities(w.k, kOwn), w.n, "count", "number of owned" << w.k);
  }
  double a[3] = {1e300, 1e300, 1e300}, b[3] = {-1e300, -1e300, -1e300};
  for (int i = 0; i < nodes; ++i) {
    Point p;
    m.node_get_coordinates(i, &p);
    for (int d = 0; d < dim; ++d) { a[d] = std::min(a[d], p[d]); b[d] = std::max(b[d], p[d]); }
  }
  for (int d = 0; d < dim; ++d) {
    CHECK_NEAR(a[d], lo[d], 1e-12 * (1 + std::fabs(lo[d])), "extent", "low limit in direction " << d);
    CHECK_NEAR(b[d], hi[d], 1e-12 * (1 + std::fabs(hi[d])), "extent", "high limit in direction " << d);
  }
  CHECK_EQ((int)m.num_tiles(), o.tiles, "tiles", "number of tiles");
  int total = 0;
  for (auto const &t : m.tiles()) {
    ints own = t->cells<Entity_type::PARALLEL_OWNED>(), gho = t->cells<Entity_type::PARALLEL_GHOST>();
    total += own.size();
    std::set<int> halo(own.begin(), own.end());
    for (int l = 0; l < o.tlayers; ++l) {
      std::set<int> more = halo;
      for (int k : halo) {
        ints nb;
        m.cell_get_node_adj_cells(k, kAll, &nb);
        more.insert(nb.begin(), nb.end());
      }
      halo = more;
    }
    CHECK_EQ(own.size() + gho.size(), halo.size(), "halo", "cells of a tile with " << o.tlayers << " layers");
  }
  if (o.tiles) CHECK_EQ(total, cells, "tiles", "cells of all tiles");
}

struct Made { std::shared_ptr<Mesh> m; std::string text; };

template <class F> std::shared_ptr<Mesh> attempt(F f, bool *threw) {
  *threw = false;
  try {
    return f();
  } catch (Errors::Message const &) {
    *threw = true;
  }
  return nullptr;
}

void create(Gen &g, Ctx &c, MeshFactory &f, Opts const &o, std::vector<Made> *made, std::vector<int> *done) {
  int what = g.range(0, 9), dim, n[3] = {1, 1, 1};
  double lo[3], hi[3];
  bool threw = false;
  std::shared_ptr<Mesh> m, ref;
  if (what == 0) {
    std::string name = g.pick(std::vector<std::string>{"/nonexistent/mesh.exo", "", "no_such_file.exo", "/dev/null"});
    c.say() << "; read '" << name << "'";
    m = attempt([&] { return f(name); }, &threw);
    CHECK(threw && !m, "refuse", "reading a mesh file no framework here can read");
    return;
  }
  if (what == 1) {
    std::shared_ptr<Mesh> in = made->empty() ? nullptr : (*made)[g.draw(made->size())].m;
    if (!in) return;
    bool flat = g.flip();
    c.say() << "; extract";
    m = attempt([&] { return f(in, {"a", "b"}, Entity_kind::CELL, flat, false); }, &threw);
    CHECK(threw && !m, "refuse", "extracting a mesh, which no framework here can");
    return;
  }
  bool good = true;
  auto extent = [&](int k) {
    lo[k] = some_real(g, -4, 4);
    double len = g.flip() ? g.range(1, 4) : 0.05 + 4 * g.unit();
    if (g.chance(1, 20)) { len = g.flip() ? 0 : -len; good = false; }
    hi[k] = lo[k] + len;
    n[k] = g.range(1, g.chance(1, 40) ? 12 : 4);
    if (g.chance(1, 24)) { n[k] = -(int)g.draw(3); good = false; }
  };
  std::vector<double> x;
  if (what == 2) {
    dim = 2;
    extent(0); extent(1);
    c.say() << "; make 2D";
    m = attempt([&] { return f(lo[0], lo[1], hi[0], hi[1], n[0], n[1]); }, &threw);
    CHECK(threw && !m, "refuse", "making a 2D mesh, which no framework here can");
    return;
  }
  if (what <= 5) {
    dim = 3;
    extent(0); extent(1); extent(2);
    if (o.edges || o.sides || o.wedges || o.corners) good = false;  // the simple framework has none in 3D
  } else {
    dim = 1;
    extent(0);
    if (what <= 7) {  // from nodes
      if (good) {
        x.push_back(lo[0]);
        for (int i = 0; i < n[0]; ++i) x.push_back(x.back() + 0.05 + g.unit());
        if (g.chance(1, 6)) {
          good = false;
          int at = g.range(1, n[0]);
          switch (g.draw(6)) {
            case 0: x.clear(); break;
            case 1: x.resize(1); break;
            case 2: x[1 + g.draw(n[0])] = x[0]; break;
            case 3: x[at] = x[at - 1]; break;                      // one empty interval
            case 4: std::swap(x[at], x[at - 1]); break;            // one inverted interval
            default: x[g.draw(n[0])] = x.back() + 1; break;
          }
        }
        if (good) hi[0] = x.back();
      } else
        x = {lo[0], lo[0] - 1};
    }
  }
  int cells = n[0] * n[1] * n[2];
  if (o.tiles && o.part == Partitioner_type::BLOCK && o.tiles > cells) return;
  if (dim == 1 && good && o.geom == Geom_type::SPHERICAL && lo[0] < 0) return;
  if (o.fw != Simple || o.bghosts) good = false;
  struct Ranks { Ranks(int n) { fake_ranks = n; } ~Ranks() { fake_ranks = 0; } } ranks(g.chance(1, 12) ? g.range(2, 5) : 0);
  if (fake_ranks) { good = false; c.say() << "; on " << fake_ranks << " ranks"; c.label("parallel"); }
  if (o.gm && (int)o.gm->dimension() != dim) good = false;
  c.say() << "; make " << dim << "D " << n[0] << "x" << n[1] << "x" << n[2] << (good ? "" : " (bad)");
  m = attempt([&] {
    if (dim == 3) return f(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2]);
    if (what > 7) return f(lo[0], hi[0], n[0]);
    return f(x);
  }, &threw);
  if (!good) {
    CHECK(threw && !m, "refuse", "a mesh that cannot be made");
    return;
  }
  CHECK(!threw && m, "refused", "a mesh that can be made");
  as_asked(c, *m, o, dim, n, lo, hi);
  // the same from the framework itself
  if (dim == 3)
    ref = std::make_shared<Mesh_simple>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2], o.comm,
                                        o.gm, o.faces, o.edges, o.sides, o.wedges, o.corners, o.tiles, o.tlayers,
                                        o.dlayers, o.bghosts, o.part);
  else {
    if (what > 7) {
      Point p;
      for (int i = 0; i <= n[0]; ++i) {
        m->node_get_coordinates(i, &p);
        CHECK_NEAR(p[0], lo[0] + (hi[0] - lo[0]) * i / n[0], 1e-12 * (1 + std::fabs(hi[0])), "spacing", "node " << i);
        x.push_back(p[0]);
      }
    }
    ref = std::make_shared<Mesh_simple>(x, o.comm, o.gm, o.faces, o.edges, o.sides, o.wedges, o.corners,
                                        o.tiles, o.tlayers, o.dlayers, o.bghosts, o.part, o.geom);
  }
  std::string a = dump(*m), b = dump(*ref);
  CHECK(a == b, "different", "mesh of the factory and of the framework: " << a << "\n against\n" << b);
  made->push_back({m, a});
  ++(*done)[dim];
  c.label("made " + std::to_string(dim) + "D");
}

void history(Gen &g, Ctx &c) {
  std::vector<std::unique_ptr<GeometricModel>> gms;
  for (int d = 2; d <= 3; ++d) gms.emplace_back(new GeometricModel(d));
  int nf = g.chance(1, 3) ? 2 : 1, nops = g.range(1, g.chance(1, 3) ? 30 : 12);
  std::vector<std::unique_ptr<MeshFactory>> f;
  std::vector<Opts> o(nf);
  for (int i = 0; i < nf; ++i) {
    o[i].comm = g.chance(1, 3) ? MPI_COMM_SELF : MPI_COMM_WORLD;
    f.emplace_back(new MeshFactory(o[i].comm));
  }
  std::vector<Made> made;
  std::vector<int> done(4);
  int sets = 0;
  for (int op = 0; op < nops; ++op) {
    int i = g.draw(nf);
    MeshFactory &F = *f[i];
    Opts &O = o[i];
    if (nf > 1) c.say() << " #" << i;
    int kind = g.range(0, 17);
    if (kind > 0 && kind < 12) ++sets;
    switch (kind) {
      case 0: {
        MeshFramework_t w = g.pick(std::vector<MeshFramework_t>{MSTK, MOAB, STKMESH, (MeshFramework_t)17});
        c.say() << "; framework " << (int)w;
        bool threw = false;
        try { F.framework(w); } catch (Errors::Message const &) { threw = true; }
        CHECK_EQ(threw, w != MSTK, "framework", "setting framework " << (int)w << " refused");
        if (w == MSTK) O.fw = w;
        break;
      }
      case 1:
        O.part = g.pick(std::vector<Partitioner_type>{Partitioner_type::INDEX, Partitioner_type::BLOCK,
            Partitioner_type::METIS, Partitioner_type::ZOLTAN_GRAPH, Partitioner_type::ZOLTAN_RCB});
        c.say() << "; partitioner " << (int)O.part;
        F.partitioner(O.part);
        break;
      case 2:
        O.geom = g.flip() ? Geom_type::SPHERICAL : Geom_type::CARTESIAN;
        c.say() << "; geometry " << (int)O.geom;
        F.mesh_geometry(O.geom);
        break;
      case 3: F.num_ghost_layers_distmesh(O.dlayers = g.draw(g.chance(1, 8) ? 20 : 4)); c.say() << "; dlayers " << O.dlayers; break;
      case 4:
        O.bghosts = g.chance(1, 3);
        c.say() << "; bghosts " << O.bghosts;
        F.boundary_ghosts_requested(O.bghosts);
        break;
      case 5: F.num_tiles(O.tiles = g.draw(g.chance(1, 8) ? 16 : 5)); c.say() << "; tiles " << O.tiles; break;
      case 6: F.num_ghost_layers_tile(O.tlayers = g.draw(g.chance(1, 8) ? 12 : 3)); c.say() << "; tlayers " << O.tlayers; break;
      case 7: {
        Entity_kind k = g.chance(1, 8) ? Entity_kind::ALL_KIND : g.pick(kKinds);
        c.say() << "; include" << k;
        F.included_entities(k);
        for (auto q : kKinds) if (O.flag(q) && (q == k || k == Entity_kind::ALL_KIND)) *O.flag(q) = true;
        break;
      }
      case 8: {
        std::vector<Entity_kind> l = some_kinds(g);
        c.say() << "; include {";
        for (auto k : l) { c.say() << k; if (O.flag(k)) *O.flag(k) = true; }
        c.say() << "}";
        F.included_entities(l);
        break;
      }
      case 9: case 10: {
        std::vector<Entity_kind> l = kind == 9 ? some_kinds(g) : kKinds;
        c.say() << "; exclude {";
        for (auto k : l) {
          c.say() << k;
          if (O.flag(k) && k != Entity_kind::FACE && k != Entity_kind::CELL) *O.flag(k) = false;
        }
        c.say() << "}";
        F.excluded_entities(l);
        break;
      }
      case 11:
        O.gm = g.chance(1, 2) ? nullptr : gms[g.draw(2)].get();
        c.say() << "; model " << (O.gm ? (int)O.gm->dimension() : 0);
        F.geometric_model(O.gm);
        break;
      case 12:
        F.contiguous_gids(g.flip());
        break;
      case 13:
        if (g.flip()) break;
        c.say() << "; reset";
        F.reset_options();
        { MPI_Comm comm = O.comm; O = Opts(); O.comm = comm; }
        break;
      default:
        if (g.chance(5, 6)) { F.framework(Simple); O.fw = Simple; c.say() << "; simple"; }
        if (O.gm && g.chance(1, 2)) { O.gm = nullptr; F.geometric_model(nullptr); c.say() << "; no model"; }
        if (O.bghosts && g.chance(2, 3)) { F.boundary_ghosts_requested(O.bghosts = false); c.say() << "; no bghosts"; }
        create(g, c, F, O, &made, &done);
    }
    for (int j = 0; j < nf; ++j) readback(c, *f[j], o[j], j);
  }
  f.clear();
  for (size_t i = 0; i < made.size(); ++i)
    CHECK(dump(*made[i].m) == made[i].text, "changed", "mesh " << i << " changed after it was made");
  c.nontrivial(made.size() && sets);
}

void frameworks(Gen &g, Ctx &c) {
  MeshFramework_t w = g.pick(std::vector<MeshFramework_t>{Simple, MSTK, MOAB, STKMESH});
  bool par = g.flip();
  int dim = g.range(0, 4);
  MeshFormat_t fmt = g.pick(std::vector<MeshFormat_t>{ExodusII, MOABHDF5, FLAGX3D});
  c.say() << "framework " << (int)w << (par ? " parallel" : "") << " dim " << dim << " format " << (int)fmt;
  char const *names[] = {"", "Simple", "MSTK", "MOAB", "stk::mesh"};
  CHECK_EQ(framework_name(w), std::string(names[(int)w]), "name", "name of framework " << (int)w);
  CHECK_EQ(framework_available(w), w == Simple, "available", "framework " << (int)w << " available");
  bool gen = w == Simple ? !par && (dim == 1 || dim == 3) : w == MSTK ? dim == 2 || dim == 3
           : w == STKMESH ? dim == 3 && !par : false;
  CHECK_EQ(framework_generates(w, par, dim), gen, "generates", "framework " << (int)w << " generates");
  bool rd = w == MSTK ? fmt == ExodusII : w == STKMESH ? fmt == ExodusII && !par : w == MOAB ? fmt == MOABHDF5 : false;
  CHECK_EQ(framework_reads(w, par, fmt), rd, "reads", "framework " << (int)w << " reads");
  CHECK_EQ(framework_extracts(w, par, dim), w == MSTK && (dim == 2 || dim == 3), "extracts", "framework " << (int)w);
  // available frameworks do what they say they generate
  if (framework_available(w)) {
    MeshFactory f(MPI_COMM_WORLD);
    f.framework(w);
    bool threw = false;
    std::shared_ptr<Mesh> m;
    int n = g.range(1, 3);
    if (dim == 1) m = attempt([&] { return f(0, 1, n); }, &threw);
    else if (dim == 2) m = attempt([&] { return f(0, 0, 1, 1, n, n); }, &threw);
    else if (dim == 3) m = attempt([&] { return f(0, 0, 0, 1, 1, 1, n, n, n); }, &threw);
    else return;
    CHECK_EQ(!threw && m, framework_generates(w, false, dim), "generated", dim << "D mesh made");
    CHECK_EQ(threw, !m, "generated", "error raised exactly when there is no mesh");
    if (m && w == Simple) {   // which cannot make meshes from others
      ints ids = {0};
      int how = g.draw(3);
      auto x = attempt([&]() -> std::shared_ptr<Mesh> {
        if (how == 0) return std::make_shared<Mesh_simple>(m, std::vector<std::string>{"a"}, Entity_kind::CELL);
        if (how == 1) return std::make_shared<Mesh_simple>(*m, std::vector<std::string>{"a"}, Entity_kind::CELL);
        return std::make_shared<Mesh_simple>(*m, ids, Entity_kind::CELL);
      }, &threw);
      CHECK(threw && !x, "extracted", "extraction by the simple framework");
    }
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P15",
          "random histories of option settings, resets and creations (1D by nodes, 1D by count, 2D, 3D, files, "
          "extraction; good and bad arguments) on one or two factories; non-trivial: at least one option set and one "
          "mesh made",
          80000, 1600000,
          {{"history", 12, history}, {"frameworks", 1, frameworks}},
          {"only the simple framework is built here, so requests needing another one must be refused"}};
}
