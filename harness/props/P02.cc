// P02: 1D meshes
#include "jutil.hh"
#include "Mesh_simple.hh"
using namespace jv;
using namespace Jali;
using JaliGeometry::Geom_type;

namespace {

const Entity_type kAll = Entity_type::ALL, kOwn = Entity_type::PARALLEL_OWNED;
const Entity_type kGhosts[] = {Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST};

double shell(double a, double b) {
  return (double)(4.0L / 3 * M_PIl * ((long double)b * b * b - (long double)a * a * a));
}

void line(Gen &g, Ctx &c) {
  int n = g.range(1, g.chance(1, 60) ? 300 : g.chance(1, 4) ? 14 : 5);
  bool vast = g.chance(1, 12000);     // numbers of entities beyond 16 bits
  if (vast) n = g.range(30000, 70000);
  bool sph = g.flip();
  double scale = g.chance(1, 6) ? any_scale(g) : std::pow(10.0, g.range(0, 4) - 2.0);
  std::vector<double> x;
  double x0 = scale * some_real(g, sph ? 0 : -4, 4);
  bool uniform = g.chance(1, 4);
  double step = scale * (0.05 + g.unit());
  if (vast) uniform = true;
  for (int i = 0; i <= n; ++i) {
    x.push_back(x0);
    x0 += uniform ? step : scale * (0.05 + 2 * g.unit());
  }
  bool faces = g.chance(4, 5), edges = g.flip(), sides = g.flip(), wedges = g.flip(), corners = g.flip();
  int tiles = g.chance(1, 6) ? g.range(1, vast ? 3 : n) : 0;
  c.say() << (sph ? "spherical" : "cartesian") << " x = [";
  if (!vast) for (double v : x) c.say() << v << " ";
  else c.say() << n << " equal cells from " << x[0] << " to " << x[n];
  c.say() << "]" << (faces ? " faces" : "") << (edges ? " edges" : "") << (sides ? " sides" : "")
          << (wedges ? " wedges" : "") << (corners ? " corners" : "") << " tiles " << tiles;
  c.nontrivial(n > 1);
  c.label(sph ? "spherical" : "cartesian");
  Mesh_simple m(x, MPI_COMM_WORLD, nullptr, faces, edges, sides, wedges, corners, tiles, tiles ? 1 : 0, 0,
                false, Partitioner_type::INDEX, sph ? Geom_type::SPHERICAL : Geom_type::CARTESIAN);
  wedges = wedges || corners;
  sides = sides || wedges;
  faces = faces || sides;
  edges = edges || sides;

  double L = std::max(std::fabs(x[0]), std::fabs(x[n]));
  double tx = 1e-13 * L, tv = sph ? 1e-12 * 20 * L * L * L : tx * 4, ta = sph ? 1e-12 * 20 * L * L : 1e-13;
  auto area = [&](int i) { return sph ? 4 * M_PI * x[i] * x[i] : 1.0; };
  auto vol = [&](double a, double b) { return sph ? shell(a, b) : b - a; };
  auto mid = [&](int i) { return 0.5 * (x[i] + x[i + 1]); };
  auto is1 = [&](Point const &p, double v, double tol, char const *tag, std::string const &what) {
    CHECK_EQ(p.dim(), 1, tag, "dimension of " << what);
    CHECK_NEAR(p[0], v, tol, tag, what);
  };
  auto nm = [&](char const *what, int i) { return std::string(what) + " " + std::to_string(i); };

  CHECK_EQ(m.space_dimension(), 1u, "dim", "space dimension");
  CHECK_EQ(m.manifold_dimension(), 1u, "dim", "manifold dimension");
  CHECK(m.geom_type() == (sph ? Geom_type::SPHERICAL : Geom_type::CARTESIAN), "type", "geometry type");
  struct { Entity_kind k; int n; } kinds[] = {
      {Entity_kind::NODE, n + 1}, {Entity_kind::CELL, n}, {Entity_kind::FACE, faces ? n + 1 : 0},
      {Entity_kind::EDGE, edges ? n + 1 : 0}, {Entity_kind::SIDE, sides ? 2 * n : 0},
      {Entity_kind::WEDGE, wedges ? 4 * n : 0}, {Entity_kind::CORNER, corners ? 2 * n : 0}};
  for (auto &k : kinds) {
    ints want(k.n);
    for (int i = 0; i < k.n; ++i) want[i] = i;
    for (auto ty : {kOwn, kAll}) {
      CHECK_EQ((int)m.num_entities(k.k, ty), k.n, "count", "number of" << k.k << ty);
      CHECK_SET(entity_list(m, k.k, ty), want, "list", "list of" << k.k << ty);
    }
    for (auto ty : kGhosts) {
      CHECK_EQ((int)m.num_entities(k.k, ty), 0, "count", "number of" << k.k << ty);
      CHECK_SET(entity_list(m, k.k, ty), ints(), "list", "list of" << k.k << ty);
    }
    for (int i = 0; i < k.n; ++i) CHECK(m.entity_get_type(k.k, i) == kOwn, "type", "type of" << k.k << i);
  }

  for (int i = 0; i <= n; ++i) {
    Point p;
    m.node_get_coordinates(i, &p);
    is1(p, x[i], 0, "coords", nm("node", i));
    double d = -1;
    m.node_get_coordinates(i, &d);
    CHECK_EQ(d, x[i], "coords", "node " << i);
    ints want;
    used_ints got;
    if (i > 0) want.push_back(i - 1);
    if (i < n) want.push_back(i);
    for (auto ty : {kOwn, kAll}) {
      m.node_get_cells(i, ty, &got);
      CHECK_SET(got, want, "node-cells", "cells of node " << i);
    }
    for (auto ty : kGhosts) {
      m.node_get_cells(i, ty, &got);
      CHECK_SET(got, ints(), "node-cells", "ghost cells of node " << i);
    }
    if (faces) {
      for (auto ty : {kOwn, kAll}) {
        m.node_get_faces(i, ty, &got);
        CHECK_SET(got, ints{i}, "node-faces", "faces of node " << i);
        for (int k : want) {
          m.node_get_cell_faces(i, k, ty, &got);
          CHECK_SET(got, ints{i}, "node-cell-faces", "faces of node " << i << " and cell " << k);
        }
        m.face_get_cells(i, ty, &got);
        CHECK_SET(got, want, "face-cells", "cells of face " << i);
      }
      for (auto ty : kGhosts) {
        m.face_get_cells(i, ty, &got);
        CHECK_SET(got, ints(), "face-cells", "ghost cells of face " << i);
      }
      m.face_get_nodes(i, &got);
      CHECK_SET(got, ints{i}, "face-nodes", "nodes of face " << i);
      used_points xy;
      m.face_get_coordinates(i, &xy);
      CHECK_EQ(xy.size(), 1u, "face-coords", "coordinates of face " << i);
      is1(xy[0], x[i], 0, "face-coords", nm("face", i));
      for (bool re : {false, true}) {
        CHECK_NEAR(m.face_area(i, re), area(i), ta, "area", "area of face " << i);
        is1(m.face_centroid(i, re), x[i], tx, "face-centroid", nm("face", i));
        for (int k : want) {
          int o = 0;
          is1(m.face_normal(i, re, k, &o), k == i ? -area(i) : area(i), ta, "normal", nm("normal of face", i));
          CHECK_EQ(o, k == i ? -1 : 1, "normal", "orientation of face " << i << " in cell " << k);
        }
      }
    }
    if (edges) {
      int a = -1, b = -1;
      m.edge_get_nodes(i, &a, &b);
      CHECK(a == i && b == i, "edge", "nodes of edge " << i << ": " << a << " " << b);
      CHECK_EQ(m.edge_length(i), 0.0, "edge", "length of edge " << i);
      is1(m.edge_centroid(i), x[i], tx, "edge", nm("edge", i));
    }
  }

  double total = 0;
  for (int k = 0; k < n; ++k) {
    used_ints got;
    m.cell_get_nodes(k, &got);
    CHECK(got == ints({k, k + 1}), "cell-nodes", "nodes of cell " << k << ": " << pbt::str(got));
    used_points xy;
    m.cell_get_coordinates(k, &xy);
    CHECK_EQ(xy.size(), 2u, "cell-coords", "coordinates of cell " << k);
    is1(xy[0], x[k], 0, "cell-coords", nm("cell", k));
    is1(xy[1], x[k + 1], 0, "cell-coords", nm("cell", k));
    for (bool re : {false, true}) {
      CHECK_NEAR(m.cell_volume(k, re), vol(x[k], x[k + 1]), tv, "volume", "volume of cell " << k);
      is1(m.cell_centroid(k, re), mid(k), tx, "centroid", nm("cell", k));
    }
    total += m.cell_volume(k);
    for (int q = 0; q < (vast && k % 50 ? 0 : 3); ++q) {       // points well inside this cell, another cell or outside the line
      int other = g.range(-1, n);
      double w = g.real(0.01, 0.99), at = other < 0 ? x[0] - scale * w : other == n ? x[n] + scale * w
                                          : x[other] + w * (x[other + 1] - x[other]);
      Point pp(1);
      pp.set(at);
      CHECK_EQ(m.point_in_cell(pp, k), other == k, "point", "point " << at << " in cell " << k);
    }
    ints adj;
    if (k > 0) adj.push_back(k - 1);
    if (k < n - 1) adj.push_back(k + 1);
    for (auto ty : {kOwn, kAll}) {
      m.cell_get_node_adj_cells(k, ty, &got);
      CHECK_SET(got, adj, "node-adj", "cells sharing a node with cell " << k);
    }
    if (faces) {
      used_dirs dirs;
      for (bool ord : {false, true}) {
        m.cell_get_faces_and_dirs(k, &got, &dirs, ord);
        CHECK(got == ints({k, k + 1}), "cell-faces", "faces of cell " << k << ": " << pbt::str(got));
        CHECK(dirs.size() == 2 && dirs[0] == -1 && dirs[1] == 1, "cell-faces", "face directions of cell " << k);
        m.cell_get_faces(k, &got, ord);
        CHECK(got == ints({k, k + 1}), "cell-faces", "faces of cell " << k << ": " << pbt::str(got));
      }
      CHECK_EQ(m.cell_get_num_faces(k), 2u, "cell-faces", "number of faces of cell " << k);
      for (auto ty : {kOwn, kAll}) {
        m.cell_get_face_adj_cells(k, ty, &got);
        CHECK(got == adj, "face-adj", "cells across the faces of cell " << k << ": " << pbt::str(got));
      }
    }
    if (edges) {
      m.cell_get_edges(k, &got);
      CHECK_SET(got, (ints{k, k + 1}), "cell-edges", "edges of cell " << k);
    }
    if (!sides) continue;

    used_ints ss, wws, cns;
    m.cell_get_sides(k, &ss);
    CHECK_EQ(ss.size(), 2u, "sides", "sides of cell " << k);
    std::map<int, int> at;                // node -> side
    for (int s : ss) at[m.side_get_node(s, 0)] = s;
    CHECK(at.size() == 2 && at.count(k) && at.count(k + 1), "sides", "sides of cell " << k << " are not at its two nodes");
    double sv = 0;
    ints all_wedges;
    for (int e = 0; e < 2; ++e) {
      int node = k + e, s = at[node];
      double lo = e ? mid(k) : x[k], hi = e ? x[k + 1] : mid(k);
      CHECK(m.side_get_cell(s) == k && m.side_get_face(s) == node && m.side_get_edge(s) == node &&
            m.side_get_node(s, 1) == node, "side", "cell, face, edge or second node of side " << s);
      CHECK_NEAR(m.side_volume(s), vol(lo, hi), tv, "side-volume", "volume of side " << s);
      CHECK(m.side_volume(s) > 0, "side-volume", "volume of side " << s << " is " << m.side_volume(s));
      CHECK_NEAR(m.side_volume(s, true), m.side_volume(s), tv, "side-volume", "recomputed volume of side " << s);
      sv += m.side_volume(s);
      for (bool re : {false, true})
        is1(m.side_facet_normal(s, re), e ? area(node) : -area(node), ta, "side-normal", nm("normal of side", s));
      int opp = m.side_get_opposite_side(s);
      if (node == 0 || node == n) {
        CHECK_EQ(opp, -1, "opposite", "side opposite to " << s << " at the end of the mesh");
      } else {
        CHECK(opp >= 0 && m.side_get_cell(opp) == (e ? k + 1 : k - 1) && m.side_get_node(opp, 0) == node,
              "opposite", "side opposite to " << s << " is " << opp);
      }
      m.side_get_coordinates(s, &xy);
      CHECK_EQ(xy.size(), 2u, "side-coords", "coordinates of side " << s);
      is1(xy[0], x[node], tx, "side-coords", nm("node end of side", s));
      is1(xy[1], mid(k), tx, "side-coords", nm("centre end of side", s));
      m.side_get_coordinates(s, &xy, true);
      is1(xy[0], lo, tx, "side-coords", nm("low end of side", s));
      is1(xy[1], hi, tx, "side-coords", nm("high end of side", s));
      if (!wedges) continue;
      double wv = 0;
      for (int i = 0; i < 2; ++i) {
        int w = m.side_get_wedge(s, i);
        all_wedges.push_back(w);
        CHECK(m.wedge_get_node(w) == node && m.wedge_get_cell(w) == k && m.wedge_get_face(w) == node &&
              m.wedge_get_edge(w) == node && m.wedge_get_side(w) == s, "wedge",
              "node, cell, face, edge or side of wedge " << w);
        CHECK_EQ(m.wedge_get_adjacent_wedge(w), m.side_get_wedge(s, 1 - i), "wedge", "wedge adjacent to " << w);
        int wo = m.wedge_get_opposite_wedge(w);
        CHECK(opp < 0 ? wo == -1 : (wo >= 0 && m.wedge_get_side(wo) == opp && m.wedge_get_opposite_wedge(wo) == w),
              "opposite", "wedge opposite to " << w << " is " << wo);
        CHECK_NEAR(m.wedge_volume(w), vol(lo, hi) / 2, tv, "wedge-volume", "volume of wedge " << w);
        CHECK_NEAR(m.wedge_volume(w, true), vol(lo, hi) / 2, tv, "wedge-volume", "recomputed volume of wedge " << w);
        wv += m.wedge_volume(w);
        is1(m.wedge_facet_normal(w, 0), (e ? 0.5 : -0.5) * area(node), ta, "wedge-normal", nm("normal of wedge", w));
        m.wedge_get_coordinates(w, &xy);
        CHECK_EQ(xy.size(), 2u, "wedge-coords", "coordinates of wedge " << w);
        is1(xy[0], x[node], tx, "wedge-coords", nm("node end of wedge", w));
        is1(xy[1], mid(k), tx, "wedge-coords", nm("centre end of wedge", w));
        m.wedge_get_coordinates(w, &xy, true);
        is1(xy[0], lo, tx, "wedge-coords", nm("low end of wedge", w));
        is1(xy[1], hi, tx, "wedge-coords", nm("high end of wedge", w));
      }
      CHECK_NEAR(wv, m.side_volume(s), tv, "wedge-volume", "volume of the wedges of side " << s);
      if (!corners) continue;
      int cn = m.cell_get_corner_at_node(k, node);
      CHECK(cn >= 0 && m.corner_get_node(cn) == node && m.corner_get_cell(cn) == k, "corner", "corner of cell " << k << " at node " << node);
      used_ints ws;
      m.corner_get_wedges(cn, &ws);
      CHECK_SET(ws, (ints{m.side_get_wedge(s, 0), m.side_get_wedge(s, 1)}), "corner", "wedges of corner " << cn);
      for (int w : ws) CHECK_EQ(m.wedge_get_corner(w), cn, "corner", "corner of wedge " << w);
      CHECK_NEAR(m.corner_volume(cn), vol(lo, hi), tv, "corner-volume", "volume of corner " << cn);
      CHECK_NEAR(m.corner_volume(cn, true), vol(lo, hi), tv, "corner-volume", "recomputed volume of corner " << cn);
      m.corner_get_coordinates(cn, &xy);
      CHECK_EQ(xy.size(), 2u, "corner-coords", "coordinates of corner " << cn);
      is1(xy[0], lo, tx, "corner-coords", nm("low end of corner", cn));
      is1(xy[1], hi, tx, "corner-coords", nm("high end of corner", cn));
      std::vector<std::array<Entity_ID, 1>> fp(g.draw(3));
      m.corner_get_facetization(cn, &xy, &fp);
      CHECK(xy.size() == 2 && fp.size() == 2, "corner-facets", "corner " << cn << " has " << fp.size() << " facets");
      double want[2] = {x[node], mid(k)};
      for (int i = 0; i < 2; ++i)
        is1(xy[fp[i][0]], want[i], tx, "corner-facets", nm("facet of corner", cn));
      used_ints at_node;
      ints want_cn;
      m.node_get_corners(node, kAll, &at_node);
      CHECK_EQ(at_node.size(), node == 0 || node == n ? 1u : 2u, "node-corners", "corners of node " << node);
      CHECK(std::count(at_node.begin(), at_node.end(), cn) == 1, "node-corners", "corners of node " << node);
      m.node_get_wedges(node, kAll, &at_node);
      CHECK_EQ(at_node.size(), node == 0 || node == n ? 2u : 4u, "node-wedges", "wedges of node " << node);
    }
    CHECK_NEAR(sv, m.cell_volume(k), tv, "partition", "volume of the sides of cell " << k);
    if (wedges) {
      m.cell_get_wedges(k, &wws);
      CHECK_SET(wws, all_wedges, "wedges", "wedges of cell " << k);
    }
    if (corners) {
      m.cell_get_corners(k, &cns);
      CHECK_SET(cns, (ints{m.cell_get_corner_at_node(k, k), m.cell_get_corner_at_node(k, k + 1)}), "corners",
                "corners of cell " << k);
    }
  }
  CHECK_NEAR(total, vol(x[0], x[n]), tv * n, "total", "volume of the mesh");
}

}  // namespace

pbt::Property pbt::property() {
  return {"P02",
          "Case: a strictly increasing list of 2 to 15 coordinates (uniform or not, any scale, from r = 0 in "
          "spherical geometry), a geometry type and a random set of requested entities; every entity is queried. "
          "Non-trivial: more than one cell.",
          100000, 2000000,
          {{"line", 1, line}},
          {"Tolerance 1e-13 relative to coordinates (1e-11 for spherical volumes and areas)."}};
}
