// P14: partitioning of meshes into tiles and of domains into blocks
#include "Mesh_simple.hh"
#include "block_partition.hh"
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

const Entity_type kOwn = Entity_type::PARALLEL_OWNED, kAll = Entity_type::ALL;

// blocks must tile the lattice n[0] x n[1] x n[2] exactly
void check_blocks(Ctx &c, int dim, int const *n, int parts, std::vector<std::array<int, 3>> const &start,
                  std::vector<std::array<int, 3>> const &num) {
  CHECK_EQ(start.size(), (size_t)parts, "parts", "number of block starts");
  CHECK_EQ(num.size(), (size_t)parts, "parts", "number of block sizes");
  int N[3] = {1, 1, 1};
  for (int d = 0; d < dim; ++d) N[d] = n[d];
  std::vector<int> cell(N[0] * N[1] * N[2], -1);
  for (int b = 0; b < parts; ++b) {
    int lo[3] = {0, 0, 0}, sz[3] = {1, 1, 1};
    for (int d = 0; d < dim; ++d) {
      lo[d] = start[b][d];
      sz[d] = num[b][d];
      CHECK(sz[d] > 0, "empty", "block " << b << " has " << sz[d] << " cells in direction " << d);
      CHECK(lo[d] >= 0 && lo[d] + sz[d] <= N[d], "limits", "block " << b << " covers " << lo[d] << ".." << lo[d] + sz[d]
            << " of " << N[d] << " cells in direction " << d);
    }
    for (int i = 0; i < sz[0]; ++i)
      for (int j = 0; j < sz[1]; ++j)
        for (int k = 0; k < sz[2]; ++k) {
          int &o = cell[((lo[0] + i) * N[1] + lo[1] + j) * N[2] + lo[2] + k];
          CHECK(o < 0, "overlap", "blocks " << o << " and " << b << " overlap");
          o = b;
        }
  }
  for (size_t i = 0; i < cell.size(); ++i) CHECK(cell[i] >= 0, "gap", "cell " << i << " is in no block");
}

void blocks(Gen &g, Ctx &c) {
  int dim = g.range(1, 3), n[3] = {0, 0, 0}, tot = 1;
  double dom[6] = {0, 0, 0, 0, 0, 0};
  bool big = g.chance(1, 60), pow2 = !big && g.chance(1, 3);
  for (int d = 0; d < dim; ++d) {
    n[d] = pow2 ? 1 << g.draw(4) : g.range(1, big ? (dim == 1 ? 5000 : dim == 2 ? 90 : 24) : dim == 1 ? 60 : dim == 2 ? 14 : 7);
    tot *= n[d];
    dom[2 * d] = some_real(g, -4, 4);
    dom[2 * d + 1] = dom[2 * d] + 0.1 + g.unit() * 4;
  }
  bool vast = big && dim == 1 && g.chance(1, 8);     // numbers beyond 16 bits
  if (vast) tot = n[0] = g.range(30000, 90000);
  int parts = g.flip() ? g.range(1, std::min(tot, 9)) : g.range(1, vast ? 300 : tot);
  if (!vast && g.chance(1, 12)) parts = tot;
  c.say() << dim << "D lattice " << n[0] << "x" << n[1] << "x" << n[2] << " in " << parts << " blocks";
  c.label("blocks " + std::to_string(dim) + "D");
  std::vector<std::array<int, 3>> start, num;
  if (g.chance(1, 4)) { start.resize(g.draw(5), {9, 9, 9}); num.resize(g.draw(5), {9, 9, 9}); }
  int ok = block_partition_regular_mesh(dim, dom, n, parts, &start, &num);
  CHECK_EQ(ok, 1, "refused", "return value");
  check_blocks(c, dim, n, parts, start, num);
  c.nontrivial(parts > 1);
}

// the tiles of a mesh: a cover of the owned cells, once
void check_tiles(Ctx &c, Mesh &m, int parts, std::vector<ints> *out) {
  CHECK_EQ(m.num_tiles(), parts, "parts", "number of tiles");
  int n = m.num_entities(Entity_kind::CELL, kAll);
  std::vector<int> owner(n, -1);
  for (int i = 0; i < parts; ++i) {
    ints l = m.tiles()[i]->cells<Entity_type::PARALLEL_OWNED>();
    for (int k : l) {
      CHECK(k >= 0 && k < n, "range", "tile " << i << " has cell " << k);
      CHECK(owner[k] < 0, "twice", "cell " << k << " is in tiles " << owner[k] << " and " << i);
      CHECK(m.entity_get_type(Entity_kind::CELL, k) == kOwn, "ghost", "cell " << k << " of tile " << i
            << " is not owned by the mesh");
      owner[k] = i;
    }
    out->push_back(l);
  }
  for (int k = 0; k < n; ++k)
    if (m.entity_get_type(Entity_kind::CELL, k) == kOwn) CHECK(owner[k] >= 0, "lost", "cell " << k << " is in no tile");
}
void check_index(Ctx &c, std::vector<ints> const &t, int ncells) {
  int next = 0, parts = t.size();
  for (int i = 0; i < parts; ++i) {
    for (int k : t[i]) CHECK_EQ(k, next++, "contiguous", "cell of part " << i);
    CHECK((int)t[i].size() == ncells / parts || (int)t[i].size() == (ncells + parts - 1) / parts, "equal",
          "part " << i << " of " << parts << " has " << t[i].size() << " of " << ncells << " cells");
  }
}
bool by_index(Partitioner_type p, int dim) {
  return p != Partitioner_type::BLOCK && (p != Partitioner_type::METIS || dim == 1);
}

const std::vector<Partitioner_type> kParts = {Partitioner_type::INDEX, Partitioner_type::METIS,
    Partitioner_type::ZOLTAN_GRAPH, Partitioner_type::ZOLTAN_RCB, Partitioner_type::BLOCK};

// Structured meshes: lattice of cells by position
void lattice(Ctx &c, Mesh &m, int dim, int const *n, double const *lo, double const *h, std::vector<ints> const &t) {
  std::vector<std::array<int, 3>> start(t.size()), num(t.size());
  for (size_t i = 0; i < t.size(); ++i) {
    int a[3] = {1 << 30, 1 << 30, 1 << 30}, b[3] = {-1, -1, -1};
    for (int k : t[i]) {
      Point p = m.cell_centroid(k);
      for (int d = 0; d < dim; ++d) {
        int q = (int)std::floor((p[d] - lo[d]) / h[d]);
        a[d] = std::min(a[d], q);
        b[d] = std::max(b[d], q);
      }
    }
    int vol = 1;
    for (int d = 0; d < dim; ++d) { start[i][d] = a[d]; num[i][d] = b[d] - a[d] + 1; vol *= num[i][d]; }
    CHECK_EQ((int)t[i].size(), t[i].empty() ? -1 : vol, "block", "cells of tile " << i << " in its bounding block");
  }
  check_blocks(c, dim, n, t.size(), start, num);
}

void structured(Gen &g, Ctx &c) {
  int dim = g.chance(1, 4) ? 1 : 3, n[3] = {1, 1, 1}, tot = 1;
  double lo[3], hi[3], h[3], scale = std::pow(10.0, g.range(-9, 9));
  if (g.flip()) scale = 1;
  for (int d = 0; d < dim; ++d) {
    n[d] = g.range(1, dim == 1 ? 24 : 6);
    tot *= n[d];
    lo[d] = scale * some_real(g, -4, 4);
    hi[d] = lo[d] + scale * (g.flip() ? g.range(1, 4) : 0.1 + 4 * g.unit());
    h[d] = (hi[d] - lo[d]) / n[d];
  }
  Partitioner_type p = g.pick(kParts);
  int parts = g.range(1, std::min(tot, g.chance(1, 4) ? 40 : 9));
  if (p != Partitioner_type::BLOCK && g.chance(1, 10)) parts = tot + g.draw(3);
  c.say() << dim << "D box mesh " << n[0] << "x" << n[1] << "x" << n[2] << " at " << lo[0] << " size " << hi[0] - lo[0]
          << ", " << parts << " parts by " << p;
  std::unique_ptr<Mesh> m;
  if (dim == 1) {
    std::vector<double> x;
    for (int i = 0; i <= n[0]; ++i) x.push_back(lo[0] + (hi[0] - lo[0]) * i / n[0]);
    m.reset(new Mesh_simple(x, MPI_COMM_WORLD, nullptr, true, false, false, false, false, parts, 0, 0, false, p,
                            JaliGeometry::Geom_type::CARTESIAN));
  } else
    m.reset(new Mesh_simple(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2], MPI_COMM_WORLD, nullptr, true,
                            false, false, false, false, parts, 0, 0, false, p));
  std::vector<ints> t;
  check_tiles(c, *m, parts, &t);
  if (by_index(p, dim)) check_index(c, t, tot);
  if (p == Partitioner_type::BLOCK) lattice(c, *m, dim, n, lo, h, t);
  std::ostringstream os;
  os << "structured" << p;
  c.label(os.str());
  c.nontrivial(parts > 1);
}

void general(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 3) ? 60 : 16;
  Topo t = gen_topo(g, c, go);
  MeshOpts o;
  int own = t.list(Entity_kind::CELL, kOwn).size();
  o.part = g.pick(std::vector<Partitioner_type>(kParts.begin(), kParts.end() - 1));
  o.tiles = g.range(1, std::max(1, std::min(own, g.chance(1, 4) ? 20 : 8)));
  if (g.chance(1, 10)) o.tiles = own + g.draw(3) + 1;
  c.say() << topo_summary(t) << "; " << o.tiles << " parts by " << o.part;
  GenMesh m(t, o);
  std::vector<ints> l;
  check_tiles(c, m, o.tiles, &l);
  if (by_index(o.part, t.sdim)) check_index(c, l, own);
  std::ostringstream os;
  os << "general" << o.part;
  c.label(os.str());
  c.nontrivial(o.tiles > 1);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P14",
          "random lattices and block counts; structured and general meshes with ghosts partitioned into any number "
          "of tiles by every partitioner; non-trivial: more than one part",
          150000, 3000000,
          {{"blocks", 6, blocks}, {"structured", 2, structured}, {"general", 2, general}},
          {"block partitioning is asked of structured meshes only, for at most as many blocks as cells"}};
}
