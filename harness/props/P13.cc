// P13: mesh tiles
#include "Mesh_simple.hh"
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

const Entity_type kOwn = Entity_type::PARALLEL_OWNED, kGho = Entity_type::PARALLEL_GHOST, kAll = Entity_type::ALL;

ints tile_list(MeshTile const &t, Entity_kind k, Entity_type p) {
#define L(fn) (p == kOwn ? t.fn<Entity_type::PARALLEL_OWNED>() : p == kGho ? t.fn<Entity_type::PARALLEL_GHOST>() \
                                                                          : t.fn<Entity_type::ALL>())
  switch (k) {
    case Entity_kind::NODE: return L(nodes);
    case Entity_kind::EDGE: return L(edges);
    case Entity_kind::FACE: return L(faces);
    case Entity_kind::SIDE: return L(sides);
    case Entity_kind::WEDGE: return L(wedges);
    case Entity_kind::CORNER: return L(corners);
    default: return L(cells);
  }
#undef L
}
unsigned tile_count(MeshTile const &t, Entity_kind k, Entity_type p) {
#define L(fn) (p == kOwn ? t.fn<Entity_type::PARALLEL_OWNED>() : p == kGho ? t.fn<Entity_type::PARALLEL_GHOST>() \
                                                                          : t.fn<Entity_type::ALL>())
  switch (k) {
    case Entity_kind::NODE: return L(num_nodes);
    case Entity_kind::EDGE: return L(num_edges);
    case Entity_kind::FACE: return L(num_faces);
    case Entity_kind::SIDE: return L(num_sides);
    case Entity_kind::WEDGE: return L(num_wedges);
    case Entity_kind::CORNER: return L(num_corners);
    default: return L(num_cells);
  }
#undef L
}

struct Req { bool faces, edges, sides, wedges, corners; int layers; };

ints of_cell(Mesh const &m, Entity_kind k, int cell) {
  used_ints l;
  switch (k) {
    case Entity_kind::NODE: m.cell_get_nodes(cell, &l); break;
    case Entity_kind::EDGE: m.cell_get_edges(cell, &l); break;
    case Entity_kind::FACE: m.cell_get_faces(cell, &l); break;
    case Entity_kind::SIDE: m.cell_get_sides(cell, &l); break;
    case Entity_kind::WEDGE: m.cell_get_wedges(cell, &l); break;
    case Entity_kind::CORNER: m.cell_get_corners(cell, &l); break;
    default: l = {cell};
  }
  return l;
}
int master(Mesh const &m, Entity_kind k, int e) {
  switch (k) {
    case Entity_kind::NODE: return m.master_tile_ID_of_node(e);
    case Entity_kind::EDGE: return m.master_tile_ID_of_edge(e);
    case Entity_kind::FACE: return m.master_tile_ID_of_face(e);
    case Entity_kind::SIDE: return m.master_tile_ID_of_side(e);
    case Entity_kind::WEDGE: return m.master_tile_ID_of_wedge(e);
    case Entity_kind::CORNER: return m.master_tile_ID_of_corner(e);
    default: return m.master_tile_ID_of_cell(e);
  }
}

// Everything about the tiles of a mesh; want: owned cells of each tile where the caller chose them
void check_tiles(Gen &g, Ctx &c, Mesh &m, std::vector<Req> const &req, std::vector<ints> const *want, bool cover) {
  auto const &tiles = m.tiles();
  CHECK_EQ(tiles.size(), req.size(), "count", "number of tiles");
  CHECK_EQ(m.num_tiles(), (int)req.size(), "count", "num_tiles");
  int nc = m.num_entities(Entity_kind::CELL, kAll);
  std::vector<ints> cn(nc), nc2(m.num_entities(Entity_kind::NODE, kAll));
  for (int k = 0; k < nc; ++k) {
    m.cell_get_nodes(k, &cn[k]);
    for (int n : cn[k]) nc2[n].push_back(k);
  }
  std::vector<int> owner(nc, -1);
  bool halo = false;
  for (size_t i = 0; i < tiles.size(); ++i) {
    MeshTile &t = *tiles[i];
    CHECK_EQ(t.ID(), (int)i, "id", "ID of tile " << i);
    CHECK(&t.mesh() == &m, "mesh", "mesh of tile " << i);
    ints own = tile_list(t, Entity_kind::CELL, kOwn);
    if (want) CHECK_SET(own, (*want)[i], "cells", "owned cells of tile " << i);
    for (int k : own) {
      CHECK(k >= 0 && k < nc && owner[k] == -1, "owner", "cell " << k << " is owned by tile " << i << " and another");
      owner[k] = i;
    }
  }
  for (int k = 0; k < nc; ++k) {
    if (cover && m.entity_get_type(Entity_kind::CELL, k) == kOwn)
      CHECK(owner[k] >= 0, "cover", "cell " << k << " belongs to no tile");
    if (cover && m.entity_get_type(Entity_kind::CELL, k) != kOwn)
      CHECK_EQ(owner[k], -1, "cover", "tile of cell " << k << " which the mesh does not own");
    CHECK_EQ(master(m, Entity_kind::CELL, k), owner[k], "master", "master tile of cell " << k);
  }
  std::vector<std::set<int>> allcells;
  for (size_t i = 0; i < tiles.size(); ++i) {
    ints own = tile_list(*tiles[i], Entity_kind::CELL, kOwn);
    std::set<int> in(own.begin(), own.end());
    for (int l = 0; l < req[i].layers; ++l) {
      std::set<int> next = in;
      for (int k : in) for (int n : cn[k]) for (int q : nc2[n]) next.insert(q);
      in = next;
    }
    if (in.size() > own.size() && (int)in.size() < nc) halo = true;
    allcells.push_back(in);
    ints gh;
    for (int k : in) if (owner[k] != (int)i) gh.push_back(k);
    CHECK_SET(tile_list(*tiles[i], Entity_kind::CELL, kGho), gh, "halo", "ghost cells of tile " << i << " with "
              << req[i].layers << " layers");
  }
  struct { Entity_kind k; bool Req::*on; } kinds[] = {
      {Entity_kind::NODE, nullptr}, {Entity_kind::EDGE, &Req::edges}, {Entity_kind::FACE, &Req::faces},
      {Entity_kind::SIDE, &Req::sides}, {Entity_kind::WEDGE, &Req::wedges}, {Entity_kind::CORNER, &Req::corners}};
  for (auto &kk : kinds) {
    Entity_kind k = kk.k;
    bool any = !kk.on, every = true;
    for (auto &r : req) { bool on = !kk.on || r.*kk.on; any = any || on; every = every && on; }
    std::map<int, std::set<int>> cand;      // entity -> tiles with an owned cell that has it
    if (any)
      for (size_t i = 0; i < tiles.size(); ++i)
        if (!kk.on || req[i].*kk.on)
          for (int q : tile_list(*tiles[i], Entity_kind::CELL, kOwn))
            for (int e : of_cell(m, k, q)) cand[e].insert(i);
    if (every && any && !req.empty()) {
      int n = m.num_entities(k, kAll);
      for (int e = 0; e < n; ++e) {
        int ms = master(m, k, e);
        if (!cand.count(e)) CHECK_EQ(ms, -1, "master", "master tile of " << k << e << " of no tile");
        else CHECK(cand[e].count(ms), "master", "master tile of " << k << e << " is " << ms << ", which owns no cell with it");
      }
    }
    for (size_t i = 0; i < tiles.size(); ++i) {
      if (kk.on && !(req[i].*kk.on)) {
        // nothing was promised, but nothing wrong either
        if (k != Entity_kind::SIDE)
          CHECK(tile_list(*tiles[i], k, kAll).empty() && tile_count(*tiles[i], k, kAll) == 0, "unasked",
                "tile " << i << " has " << k << " nobody asked for");
        continue;
      }
      ints own, gho;
      std::set<int> in;
      for (int q : allcells[i]) for (int e : of_cell(m, k, q)) in.insert(e);
      for (int e : in) (master(m, k, e) == (int)i ? own : gho).push_back(e);
      CHECK_SET(tile_list(*tiles[i], k, kOwn), own, "owned", k << "owned by tile " << i);
      CHECK_SET(tile_list(*tiles[i], k, kGho), gho, "ghost", k << "ghosts of tile " << i);
    }
  }
  // full lists and counts
  for (size_t i = 0; i < tiles.size(); ++i)
    for (Entity_kind k : {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE,
                          Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL}) {
      ints o = tile_list(*tiles[i], k, kOwn), gh = tile_list(*tiles[i], k, kGho), a = o;
      a.insert(a.end(), gh.begin(), gh.end());
      CHECK(tile_list(*tiles[i], k, kAll) == a, "all", "full list of " << k << "of tile " << i);
      struct { Entity_type p; size_t n; } ty[] = {{kOwn, o.size()}, {kGho, gh.size()}, {kAll, a.size()}};
      for (auto &q : ty) {
        CHECK_EQ(tile_count(*tiles[i], k, q.p), (unsigned)q.n, "num", "count of " << q.p << k << "of tile " << i);
        CHECK_EQ(tiles[i]->num_entities(k, q.p), (unsigned)q.n, "num", "num_entities of " << q.p << k << "of tile " << i);
      }
      CHECK_EQ(tiles[i]->num_entities(k, Entity_type::BOUNDARY_GHOST), 0u, "num", "boundary ghosts of tile");
    }
  // sets through tiles
  bool seen = false;
  int ns = g.range(1, 3);
  for (int q = 0; q < ns; ++q) {
    Entity_kind k = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE,
        Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER});
    bool on = true;
    for (auto &kk : kinds) if (kk.k == k && kk.on) for (auto &r : req) on = on && r.*kk.on;
    if (!on) k = Entity_kind::CELL;
    ints own = g.subset(entity_list(m, k, kOwn), 1, 2), gho = g.subset(entity_list(m, k, kGho), 1, 2);
    std::string name = "set" + std::to_string(g.draw(2)) + std::to_string(q);
    make_meshset(name, m, k, own, gho, g.flip());
    std::set<int> all(own.begin(), own.end());
    all.insert(gho.begin(), gho.end());
    for (size_t i = 0; i < tiles.size(); ++i) {
      for (Entity_type p : {kOwn, kGho, kAll}) {
        ints w;
        used_ints got;
        for (int e : tile_list(*tiles[i], k, p)) if (all.count(e)) w.push_back(e);
        tiles[i]->get_set_entities(name, k, p, &got);
        CHECK_SET(got, w, "set", "entities " << p << k << "of set " << pbt::str(ints(all.begin(), all.end()))
                  << " in tile " << i << " " << pbt::str(tile_list(*tiles[i], k, p)));
        if (p != kAll && !w.empty()) seen = true;
        got = used_ints();
        tiles[i]->get_set_entities("no such set", k, p, &got);
        CHECK(got.empty(), "set", "entities of an unknown set");
      }
    }
  }
  if (halo) c.label("halo is part of the mesh");
  if (seen) c.label("set seen by ownership");
  c.nontrivial(tiles.size() > 1 && (halo || seen));
}

void describe(Ctx &c, std::vector<Req> const &req) {
  c.say() << "; tiles with layers";
  for (auto &r : req) c.say() << " " << r.layers;
  if (!req.empty())
    c.say() << (req[0].faces ? " faces" : "") << (req[0].edges ? " edges" : "") << (req[0].sides ? " sides" : "")
            << (req[0].wedges ? " wedges" : "") << (req[0].corners ? " corners" : "");
}

void built(Gen &g, Ctx &c) {
  GenOpts go;
  bool many = g.chance(1, 50);
  go.maxcells = many ? 90 : g.chance(1, 4) ? 30 : 14;
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  int own = t.list(Entity_kind::CELL, kOwn).size();
  o.tiles = g.range(1, many ? g.chance(1, 3) ? 300 : 75 : g.chance(1, 20) ? 20 : 5);
  o.tile_layers = g.range(0, g.chance(1, 20) ? 9 : 3);
  o.part = Partitioner_type::INDEX;
  if (own > 1 && g.chance(1, 3)) { o.part = Partitioner_type::METIS; o.faces = true; o.tiles = std::min(o.tiles, own); }
  c.say() << topo_summary(t);
  GenMesh m(t, o);
  o.wedges = o.wedges || o.corners;
  o.sides = o.sides || o.wedges;
  o.faces = o.faces || o.sides;
  o.edges = o.edges || o.sides;
  std::vector<Req> req(o.tiles, Req{o.faces, o.edges, o.sides, o.wedges, o.corners, o.tile_layers});
  describe(c, req);
  c.label(o.part == Partitioner_type::METIS ? "built, METIS" : "built, index");
  check_tiles(g, c, m, req, nullptr, true);
}

void made(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 4) ? 30 : 14;
  Topo t = gen_topo(g, c, go);
  GenMesh m(t, MeshOpts::all());
  c.say() << topo_summary(t);
  int n = g.range(0, g.chance(1, 20) ? g.chance(1, 5) ? 200 : 16 : 5);
  ints own = t.list(Entity_kind::CELL, kOwn);
  std::vector<ints> want(n);
  bool some = g.flip(), cover = n > 0;
  for (int k : own) {
    int i = g.draw(n + (some ? 1 : 0));
    if (i < n) want[i].push_back(k);
    else cover = false;
  }
  Req r{g.chance(3, 4), g.flip(), g.flip(), g.flip(), g.flip(), 0};
  std::vector<Req> req;
  for (Entity_kind k : {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::CELL})
    if (t.count(k)) CHECK_EQ(master(m, k, 0), -1, "master", "master tile without tiles");
  for (int i = 0; i < n; ++i) {
    r.layers = g.range(0, g.chance(1, 20) ? 9 : 3);
    g.shuffle(want[i]);
    auto tile = make_meshtile(m, want[i], r.layers, r.faces, r.edges, r.sides, r.wedges, r.corners);
    req.push_back(r);
    CHECK(m.tiles().back() == tile, "made", "the tile just made is not the last of the mesh");
    CHECK(tile_list(*tile, Entity_kind::CELL, kOwn) == want[i], "made", "owned cells of a new tile");
  }
  describe(c, req);
  c.label("made by hand");
  check_tiles(g, c, m, req, &want, cover);
}

void simple(Gen &g, Ctx &c) {
  Req r{true, false, false, false, false, g.range(0, 2)};
  int n = g.range(1, 5);
  std::unique_ptr<Mesh> m;
  if (g.flip()) {
    std::vector<double> x(g.range(2, g.chance(1, 20) ? 80 : 10));
    for (size_t i = 0; i < x.size(); ++i) x[i] = i;
    n = std::min(n, (int)x.size() - 1);
    r.edges = g.flip(); r.sides = g.flip(); r.wedges = g.flip(); r.corners = g.flip();
    m.reset(new Mesh_simple(x, MPI_COMM_WORLD, nullptr, true, r.edges, r.sides, r.wedges, r.corners, n, r.layers, 0,
                            false, Partitioner_type::INDEX, JaliGeometry::Geom_type::CARTESIAN));
    r.wedges = r.wedges || r.corners;
    r.sides = r.sides || r.wedges;
    r.edges = r.edges || r.sides;
    c.say() << "1D mesh of " << x.size() - 1 << " cells";
  } else {
    int am = g.chance(1, 20) ? 9 : 4, a = g.range(1, am), b = g.range(1, 4), d = g.range(1, 4);
    n = std::min(n, a * b * d);
    auto p = g.pick(std::vector<Partitioner_type>{Partitioner_type::INDEX, Partitioner_type::METIS});
    m.reset(new Mesh_simple(0, 0, 0, 1, 1, 1, a, b, d, MPI_COMM_WORLD, nullptr, r.faces, false, false, false, false, n,
                            r.layers, 0, false, p));
    c.say() << "box mesh " << a << "x" << b << "x" << d;
  }
  std::vector<Req> req(n, r);
  describe(c, req);
  c.label("structured");
  check_tiles(g, c, *m, req, nullptr, true);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P13",
          "random meshes with ghosts tiled at construction or by hand (random cell groups, halo widths and "
          "requested kinds), and sets looked at through the tiles; non-trivial: several tiles and a halo that is "
          "part of the mesh, or set entities seen by ownership",
          50000, 1000000,
          {{"built", 3, built}, {"made", 4, made}, {"simple", 1, simple}},
          {"tiles are made of distinct owned cells"}};
}
