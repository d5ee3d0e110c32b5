// P22: cached connectivity and ownership against the framework's own tables
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

const Entity_type kTypes[] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                              Entity_type::BOUNDARY_GHOST, Entity_type::ALL};

void lists(Ctx &c, GenMesh const &m, MeshOpts const &o) {
  Topo const &t = m.topo();
  bool sides = o.sides || o.wedges || o.corners, wedges = o.wedges || o.corners;
  bool faces = o.faces || sides, edges = o.edges || sides;
  struct { Entity_kind k; bool on; } kinds[] = {
      {Entity_kind::NODE, true}, {Entity_kind::EDGE, edges}, {Entity_kind::FACE, faces},
      {Entity_kind::CELL, true}, {Entity_kind::SIDE, sides}, {Entity_kind::WEDGE, wedges},
      {Entity_kind::CORNER, o.corners}};
  for (auto &kk : kinds) {
    Entity_kind k = kk.k;
    ints all = entity_list(m, k, Entity_type::ALL), sum;
    for (auto ty : kTypes) {
      ints l = entity_list(m, k, ty);
      CHECK_EQ((int)m.num_entities(k, ty), (int)l.size(), "count", "count of" << k << "of type" << ty);
      if (ty != Entity_type::ALL) {
        sum.insert(sum.end(), l.begin(), l.end());
        if (kk.on)
          for (int i : l)
            CHECK(m.entity_get_type(k, i) == ty, "type", "type of" << k << i << " is"
                  << m.entity_get_type(k, i) << "but it is listed as" << ty);
      }
    }
    CHECK_SET(sum, all, "lists", "lists by type of" << k << "against the full list");
    if (!kk.on) {
      CHECK(all.empty(), "lists", "entities of" << k << "that were not requested");
      if (k != Entity_kind::NODE && k != Entity_kind::CELL)
        CHECK(m.entity_get_type(k, 0) == Entity_type::TYPE_UNKNOWN, "type",
              "type of" << k << "that was not requested");
    } else if (static_cast<int>(k) <= 3) {
      for (auto ty : kTypes)
        CHECK_SET(entity_list(m, k, ty), t.list(k, ty), "lists", "list of" << k << "of type" << ty);
    } else {
      std::set<int> s(all.begin(), all.end());
      CHECK_EQ(s.size(), all.size(), "lists", "distinct entities of" << k);
    }
  }
  // the counts by template
  CHECK_EQ(m.num_nodes(), (unsigned)t.x.size(), "count", "num_nodes");
  CHECK_EQ(m.num_cells(), (unsigned)t.cn.size(), "count", "num_cells");
  CHECK_EQ(m.num_cells<Entity_type::BOUNDARY_GHOST>(),
           (unsigned)t.list(Entity_kind::CELL, Entity_type::BOUNDARY_GHOST).size(), "count",
           "boundary ghost cells");
  if (faces) CHECK_EQ(m.num_faces(), (unsigned)t.fn.size(), "count", "num_faces");
  if (edges) CHECK_EQ(m.num_edges(), (unsigned)t.en.size(), "count", "num_edges");
}

template <class A>
std::string pairs(std::vector<A> const &v) {
  std::ostringstream os;
  for (auto &p : v) os << " " << p.first << "/" << p.second;
  return os.str();
}

void connectivity(Gen &g, Ctx &c) {
  GenOpts go;
  if (g.chance(1, 5)) { go.mdim = 2; go.sdim = 3; }
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  if (t.mdim != t.sdim) o.sides = o.wedges = o.corners = false;
  if (!o.faces && !o.sides && !o.wedges && !o.corners) o.faces = true;
  c.say() << topo_summary(t) << "; requested edges " << o.edges << " sides " << o.sides
          << " wedges " << o.wedges << " corners " << o.corners;
  GenMesh m(t, o);
  int nown = t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size();
  c.nontrivial(t.cn.size() > 1);
  c.label(nown == (int)t.cn.size() ? "all owned" : "with ghosts");
  c.label(t.mdim != t.sdim ? "surface" : "planar or solid");

  lists(c, m, o);
  bool edges = o.edges || o.sides || o.wedges || o.corners;

  int nc = t.cn.size(), nf = t.fn.size();
  ints order(nc);
  for (int i = 0; i < nc; ++i) order[i] = i;
  g.shuffle(order);
  for (int k : order) {
    for (bool ordered : {false, true}) {
      used_ints f, f2;
      used_dirs d;
      m.cell_get_faces_and_dirs(k, &f, &d, ordered);
      std::vector<std::pair<int, int>> got, want = ordered ? t.cfo[k] : t.cf[k];
      CHECK_EQ(f.size(), d.size(), "cellfaces", "lengths of faces and directions");
      for (size_t i = 0; i < f.size(); ++i) got.push_back({f[i], d[i]});
      if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
      CHECK(got == want, "cellfaces", "faces/directions of cell " << k << " ordered " << ordered
            << ": got" << pairs(got) << ", expected" << pairs(want));
      m.cell_get_faces(k, &f2, ordered);
      CHECK(f2 == f, "cellfaces", "cell_get_faces of cell " << k);
    }
    CHECK_EQ(m.cell_get_num_faces(k), (unsigned)t.cf[k].size(), "cellfaces", "number of faces of cell " << k);
    CHECK(m.cell_get_type(k) == t.ct[k], "celltype", "cell type");
    if (edges) {
      used_ints e, e2;
      Entity_ID_List want;
      m.cell_get_edges(k, &e);
      for (auto &p : t.ce[k]) want.push_back(p.first);
      CHECK_SET(e, want, "celledges", "edges of cell " << k);
      if (t.mdim == 2) {
        used_dirs d;
        m.cell_2D_get_edges_and_dirs(k, &e2, &d);
        CHECK_EQ(e2.size(), d.size(), "celledges", "lengths of edges and directions");
        std::vector<std::pair<int, int>> got;
        for (size_t i = 0; i < e2.size(); ++i) got.push_back({e2[i], d[i]});
        CHECK(got == t.ce[k], "celledges", "edges/directions of cell " << k << ": got" << pairs(got)
              << ", expected" << pairs(t.ce[k]));
      }
      for (auto &fd : t.cf[k]) {
        used_ints map, fe;
        m.face_to_cell_edge_map(fd.first, k, &map);
        m.face_get_edges_and_dirs(fd.first, &fe, nullptr);
        CHECK_EQ(map.size(), fe.size(), "edgemap", "length of edge map");
        for (size_t i = 0; i < map.size(); ++i)
          CHECK(map[i] >= 0 && map[i] < (int)e.size() && e[map[i]] == fe[i], "edgemap",
                "edge " << i << " of face " << fd.first << " in cell " << k << ": position " << map[i]);
      }
    }
  }
  for (int f = 0; f < nf; ++f) {
    for (auto ty : {Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST}) {
      used_ints r;
      Entity_ID_List want;
      m.face_get_cells(f, ty, &r);
      for (int k : t.fc[f]) if (t.of_type(Entity_kind::CELL, k, ty)) want.push_back(k);
      CHECK_SET(r, want, "facecells", "cells of type" << ty << "of face " << f);
    }
    if (edges) {
      used_ints e;
      used_dirs d;
      m.face_get_edges_and_dirs(f, &e, &d, true);
      CHECK_EQ(e.size(), d.size(), "faceedges", "lengths of edges and directions");
      std::vector<std::pair<int, int>> got;
      for (size_t i = 0; i < e.size(); ++i) got.push_back({e[i], d[i]});
      CHECK(got == t.fe[f], "faceedges", "edges/directions of face " << f << ": got" << pairs(got)
            << ", expected" << pairs(t.fe[f]));
    }
  }
  if (edges)
    for (size_t e = 0; e < t.en.size(); ++e) {
      int a = -5, b = -5;
      m.edge_get_nodes(e, &a, &b);
      CHECK(a == t.en[e][0] && b == t.en[e][1], "edgenodes", "nodes of edge " << e << ": got " << a
            << " " << b << ", expected " << t.en[e][0] << " " << t.en[e][1]);
    }
  for (size_t n = 0; n < t.x.size(); ++n) {
    Point p;
    m.node_get_coordinates(n, &p);
    if (t.sdim == 3) {
      std::array<double, 3> a;
      m.node_get_coordinates(n, &a);
      for (int d = 0; d < 3; ++d) CHECK_EQ(a[d], p[d], "coords", "coordinates of node " << n);
    } else {
      std::array<double, 2> a;
      m.node_get_coordinates(n, &a);
      for (int d = 0; d < 2; ++d) CHECK_EQ(a[d], p[d], "coords", "coordinates of node " << n);
    }
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P22",
          "random planar, solid and surface meshes (grids with split, merged, coned, bent cells; "
          "random numbering, orientation, ownership) x subset of requested entities; non-trivial: "
          "more than one cell",
          60000, 1200000,
          {{"connectivity", 1, connectivity}},
          {"framework tables are those of the generated mesh"}};
}
