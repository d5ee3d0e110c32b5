// P07: sides, wedges and corners against a direct enumeration of the pairs of
// a face of a cell and an edge of that face
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

const Entity_type kTypes[] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                              Entity_type::BOUNDARY_GHOST, Entity_type::ALL};

struct Side { int c, f, e, n0, n1; };

// The sides a cell must have, with their nodes in the documented order
std::vector<Side> want_sides(Topo const &t, int c) {
  std::vector<Side> r;
  for (auto &fd : t.cf[c]) {
    ints l = t.out_loop(c, fd);
    if (t.mdim == 2) {         // ccw along the cell
      r.push_back({c, fd.first, t.fe[fd.first][0].first, l[0], l[1]});
      continue;
    }
    for (auto &ed : t.fe[fd.first]) {
      auto en = t.en[ed.first];
      for (size_t i = 0; i < l.size(); ++i) {
        int a = l[i], b = l[(i + 1) % l.size()];
        if ((a == en[0] && b == en[1]) || (a == en[1] && b == en[0]))
          r.push_back({c, fd.first, ed.first, b, a});   // against the outward loop
      }
    }
  }
  return r;
}

void run(Gen &g, Ctx &c, int mdim) {
  GenOpts go;
  go.scales = true;
  go.mdim = go.sdim = mdim;
  Topo topo = gen_topo(g, c, go);
  MeshOpts mo;
  int level = g.draw(5);
  mo.sides = true;
  mo.edges = g.flip();
  mo.wedges = level != 0;
  mo.corners = level > 1;
  mo.faces = g.flip();
  GenMesh m(topo, mo);
  Topo const &t = m.topo();
  c.say() << topo_summary(t) << " sides" << (mo.wedges ? " wedges" : "") << (mo.corners ? " corners" : "");
  int nc = t.cn.size();
  std::map<std::pair<int, std::pair<int, int>>, int> byfe;    // (cell, (face, edge)) -> side
  std::set<int> seen;
  for (int C = 0; C < nc; ++C) {
    used_ints sides;
    m.cell_get_sides(C, &sides);
    std::vector<Side> want = want_sides(t, C);
    CHECK_EQ(sides.size(), want.size(), "cell-sides", "sides of cell " << C);
    std::map<std::pair<int, int>, Side> w;
    for (auto &s : want) w[{s.f, s.e}] = s;
    for (int s : sides) {
      CHECK(seen.insert(s).second, "cell-sides", "side " << s << " is listed in two places");
      CHECK_EQ(m.side_get_cell(s), C, "side-cell", "cell of side " << s);
      int f = m.side_get_face(s), e = m.side_get_edge(s);
      auto it = w.find({f, e});
      CHECK(it != w.end(), "side-face-edge", "side " << s << " of cell " << C << " has face " << f
            << " and edge " << e << " that are no such pair of the cell, or for the second time");
      CHECK_EQ(m.side_get_node(s, 0), it->second.n0, "side-node", "node 0 of side " << s << " of cell " << C);
      CHECK_EQ(m.side_get_node(s, 1), it->second.n1, "side-node", "node 1 of side " << s << " of cell " << C);
      CHECK_EQ(m.side_get_edge_use(s), (int)(t.en[e][0] == it->second.n0), "side-edge-use",
               "edge use of side " << s);
      CHECK(m.entity_get_type(Entity_kind::SIDE, s) == t.etype(Entity_kind::CELL, C), "side-type", "type of side " << s << " of cell " << C);
      byfe[{C, {f, e}}] = s;
      w.erase(it);
    }
  }
  int inner = 0, mixed = 0;
  for (auto &kv : byfe) {
    int C = kv.first.first, f = kv.first.second.first, e = kv.first.second.second, s = kv.second;
    int want = -1;
    for (int o : t.fc[f]) if (o != C) { want = byfe[{o, {f, e}}]; inner++; }
    int got = m.side_get_opposite_side(s);
    CHECK_EQ(got, want, "side-opposite", "side opposite to side " << s << " of cell " << C);
    if (want >= 0) {
      CHECK_EQ(m.side_get_node(got, 0), m.side_get_node(s, 1), "side-opposite", "node 0 of the opposite of side " << s);
      if (t.etype(Entity_kind::CELL, C) != t.etype(Entity_kind::CELL, m.side_get_cell(got))) mixed++;
    }
  }
  for (auto ty : kTypes) {
    ints want;
    for (auto &kv : byfe)
      if (t.of_type(Entity_kind::CELL, kv.first.first, ty)) want.push_back(kv.second);
    CHECK_SET(entity_list(m, Entity_kind::SIDE, ty), want, "side-list", "sides of type " << ty);
    CHECK_EQ((int)m.num_entities(Entity_kind::SIDE, ty), (int)want.size(), "side-list", "number of sides of type " << ty);
  }
  c.nontrivial(inner > 0);
  if (mixed) c.label("opposite sides of different ownership");
  if (mdim == 3) c.label("solid"); else c.label("planar");
  if (!mo.wedges) return;

  std::map<std::pair<int, int>, ints> at;       // (cell, node) -> wedges
  std::map<int, int> wcell;
  for (auto &kv : byfe) {
    int s = kv.second, C = kv.first.first;
    int opp = m.side_get_opposite_side(s);
    int w[2] = {m.side_get_wedge(s, 0), m.side_get_wedge(s, 1)};
    for (int i = 0; i < 2; ++i) {
      CHECK(wcell.insert({w[i], C}).second, "wedge", "wedge " << w[i] << " is in two sides");
      CHECK_EQ(m.wedge_get_side(w[i]), s, "wedge", "side of wedge " << w[i]);
      CHECK_EQ(m.wedge_get_cell(w[i]), C, "wedge", "cell of wedge " << w[i]);
      CHECK_EQ(m.wedge_get_face(w[i]), kv.first.second.first, "wedge", "face of wedge " << w[i]);
      CHECK_EQ(m.wedge_get_edge(w[i]), kv.first.second.second, "wedge", "edge of wedge " << w[i]);
      CHECK_EQ(m.wedge_get_node(w[i]), m.side_get_node(s, i), "wedge-node", "node of wedge " << w[i]);
      CHECK_EQ(m.wedge_get_adjacent_wedge(w[i]), w[1 - i], "wedge-adjacent", "wedge adjacent to " << w[i]);
      CHECK(m.entity_get_type(Entity_kind::WEDGE, w[i]) == t.etype(Entity_kind::CELL, C), "wedge-type",
            "type of wedge " << w[i]);
      at[{C, m.wedge_get_node(w[i])}].push_back(w[i]);
      int o = m.wedge_get_opposite_wedge(w[i]);
      if (opp < 0) {
        CHECK_EQ(o, -1, "wedge-opposite", "opposite of wedge " << w[i] << " on the boundary");
      } else {
        CHECK_EQ(m.wedge_get_side(o), opp, "wedge-opposite", "side of the opposite of wedge " << w[i]);
        CHECK_EQ(m.wedge_get_node(o), m.wedge_get_node(w[i]), "wedge-opposite", "node of the opposite of wedge " << w[i]);
        CHECK_EQ(m.wedge_get_opposite_wedge(o), w[i], "wedge-opposite", "opposite of the opposite of wedge " << w[i]);
      }
    }
  }
  for (int C = 0; C < nc; ++C) {
    used_ints got;
    ints want;
    m.cell_get_wedges(C, &got);
    for (auto &kv : wcell) if (kv.second == C) want.push_back(kv.first);
    CHECK_SET(got, want, "cell-wedges", "wedges of cell " << C);
  }
  for (auto ty : kTypes) {
    ints want;
    for (auto &kv : wcell) if (t.of_type(Entity_kind::CELL, kv.second, ty)) want.push_back(kv.first);
    CHECK_SET(entity_list(m, Entity_kind::WEDGE, ty), want, "wedge-list", "wedges of type " << ty);
    CHECK_EQ((int)m.num_entities(Entity_kind::WEDGE, ty), (int)want.size(), "wedge-list", "number of wedges of type " << ty);
  }
  if (!mo.corners) return;

  std::map<int, std::pair<int, int>> corner;
  for (int C = 0; C < nc; ++C) {
    used_ints cns;
    m.cell_get_corners(C, &cns);
    CHECK_EQ(cns.size(), t.cn[C].size(), "cell-corners", "number of corners of cell " << C);
    ints nodes;
    for (int cn : cns) {
      int n = m.corner_get_node(cn);
      nodes.push_back(n);
      CHECK(corner.insert({cn, {C, n}}).second, "cell-corners", "corner " << cn << " is in two cells");
      CHECK_EQ(m.corner_get_cell(cn), C, "corner-cell", "cell of corner " << cn);
      CHECK(m.entity_get_type(Entity_kind::CORNER, cn) == t.etype(Entity_kind::CELL, C), "corner-type",
            "type of corner " << cn);
      used_ints ws;
      m.corner_get_wedges(cn, &ws);
      CHECK_SET(ws, (at[{C, n}]), "corner-wedges", "wedges of the corner of cell " << C << " at node " << n);
      for (int w : ws) CHECK_EQ(m.wedge_get_corner(w), cn, "wedge-corner", "corner of wedge " << w);
    }
    CHECK_SET(nodes, t.cn[C], "cell-corners", "nodes of the corners of cell " << C);
    for (size_t i = 0; i < cns.size(); ++i)
      CHECK_EQ(m.cell_get_corner_at_node(C, nodes[i]), cns[i], "corner-at-node",
               "corner of cell " << C << " at node " << nodes[i]);
    for (int n = 0; n < (int)t.x.size(); ++n)
      if (!std::count(nodes.begin(), nodes.end(), n))
        CHECK_EQ(m.cell_get_corner_at_node(C, n), -1, "corner-at-node",
                 "corner of cell " << C << " at node " << n << " of another cell");
  }
  for (int n = 0; n < (int)t.x.size(); ++n)
    for (auto ty : kTypes) {
      used_ints got, gotw;
      ints want, wantw;
      for (auto &kv : corner)
        if (kv.second.second == n && t.of_type(Entity_kind::CELL, kv.second.first, ty)) {
          want.push_back(kv.first);
          ints &a = at[kv.second];
          wantw.insert(wantw.end(), a.begin(), a.end());
        }
      m.node_get_corners(n, ty, &got);
      CHECK_SET(got, want, "node-corners", "corners of type " << ty << " at node " << n);
      m.node_get_wedges(n, ty, &gotw);
      CHECK_SET(gotw, wantw, "node-wedges", "wedges of type " << ty << " at node " << n);
    }
  for (auto ty : kTypes) {
    ints want;
    for (auto &kv : corner) if (t.of_type(Entity_kind::CELL, kv.second.first, ty)) want.push_back(kv.first);
    CHECK_SET(entity_list(m, Entity_kind::CORNER, ty), want, "corner-list", "corners of type " << ty);
    CHECK_EQ((int)m.num_entities(Entity_kind::CORNER, ty), (int)want.size(), "corner-list", "number of corners of type " << ty);
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P07",
          "Case: a generated planar (mixed polygons) or solid (mixed polyhedra) mesh with random cell "
          "ownership, entity numbering and face/edge orientation, and a random choice of subcell entities; "
          "every side, wedge, corner, cell and node is queried. Non-trivial: some side has an opposite side.",
          40000, 800000,
          {{"planar", 1, [](Gen &g, Ctx &c) { run(g, c, 2); }},
           {"solid", 1, [](Gen &g, Ctx &c) { run(g, c, 3); }}},
          {"Meshes are conforming and their cells are numbered owned, ghost, boundary ghost, as the "
           "frameworks number them."}};
}
