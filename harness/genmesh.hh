// Random meshes behind Jali's Mesh interface: a mesh framework of our own whose
// tables (Topo) the oracles read directly.
#ifndef VERIF_GENMESH_HH
#define VERIF_GENMESH_HH

#include "jutil.hh"
#include "GeometricModel.hh"
#include "LabeledSetRegion.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"

namespace jv {

using Jali::Cell_type;
using Jali::dir_t;

// Everything there is to know about a mesh; entity IDs are positions
struct Topo {
  int sdim = 3, mdim = 3;
  std::vector<V3> x;                              // nodes
  std::vector<ints> fn;                           // face -> nodes (loop, or 2 in 2D)
  std::vector<std::vector<std::pair<int, int>>> cf;   // cell -> (face, dir)
  std::vector<std::vector<std::pair<int, int>>> cfo;  // same, standard order
  std::vector<ints> cn;                           // cell -> nodes (2D: ccw)
  std::vector<std::array<int, 2>> en;             // edge -> nodes
  std::vector<std::vector<std::pair<int, int>>> fe;   // face -> (edge, dir)
  std::vector<std::vector<std::pair<int, int>>> ce;   // cell -> (edge, dir; 2D only)
  std::vector<Cell_type> ct;
  std::vector<Entity_type> type[4];               // NODE EDGE FACE CELL
  std::vector<int> gid[4];
  std::map<std::pair<std::string, int>, ints> labels;
  // derived
  std::vector<ints> fc, nc, nf;                   // face->cells, node->cells, node->faces

  int count(Entity_kind k) const {
    switch (k) {
      case Entity_kind::NODE: return x.size();
      case Entity_kind::EDGE: return en.size();
      case Entity_kind::FACE: return fn.size();
      default: return cn.size();
    }
  }
  Entity_type etype(Entity_kind k, int i) const { return type[static_cast<int>(k)][i]; }
  bool of_type(Entity_kind k, int i, Entity_type t) const {
    return t == Entity_type::ALL || etype(k, i) == t;
  }
  ints list(Entity_kind k, Entity_type t) const {
    ints r;
    for (int i = 0; i < count(k); ++i) if (of_type(k, i, t)) r.push_back(i);
    return r;
  }
  int dir_in(int cell, int face) const {
    for (auto &p : cf[cell]) if (p.first == face) return p.second;
    return 0;
  }
  ints out_loop(int c, std::pair<int, int> fd) const {  // face nodes as seen from outside c
    ints l = fn[fd.first];
    if (fd.second < 0) std::reverse(l.begin(), l.end());
    return l;
  }
};

// Exact geometry under the documented splitting, in long double
struct FaceGeom { V3 cen, avg, nrm; long double area = 0, minsub = 1e300L; bool flat = true; };
struct CellGeom { V3 cen, avg; long double vol = 0, minsub = 1e300L; bool flat = true; V3 nrm; };
FaceGeom polygon_geom(std::vector<V3> const &p);        // 3D or 2D (z = 0) loop
FaceGeom face_geom(Topo const &t, int f);
CellGeom cell_geom(Topo const &t, int c);
long double topo_size(Topo const &t);                   // typical coordinate magnitude
long double cell_size(Topo const &t);                   // typical cell diameter

struct GenOpts {
  int sdim = 0, mdim = 0;      // 0: any of (2,2) (3,3)
  bool ghosts = true;          // allow ghost and boundary ghost cells
  bool bghosts = true;
  bool flat = false;           // flat faces and cells only
  int maxcells = 0;            // 0: default size
  bool big = false;
  bool scales = false;         // any length scale, 1e-9 to 1e9
};
// Throws Discard only if no valid geometry is found
Topo gen_topo(Gen &g, Ctx &c, GenOpts o = GenOpts());
// Move nodes at random, keeping the mesh valid; returns false if it did not find one
bool move_nodes(Gen &g, Topo *t, bool keep_flat);
bool topo_valid(Topo const &t);

struct MeshOpts {
  bool faces = true, edges = false, sides = false, wedges = false, corners = false;
  int tiles = 0, tile_layers = 0;
  Jali::Partitioner_type part = Jali::Partitioner_type::INDEX;
  JaliGeometry::GeometricModelPtr gm = nullptr;
  static MeshOpts all() { MeshOpts m; m.edges = m.sides = m.wedges = m.corners = true; return m; }
};
MeshOpts gen_mesh_opts(Gen &g);    // random subset of requested entities

class GenMesh : public Jali::Mesh {
 public:
  GenMesh(Topo const &t, MeshOpts const &o = MeshOpts());
  Topo const &topo() const { return t_; }
  // names of the fields stored on the mesh
  struct Stored {
    std::string type;
    std::vector<int> i;
    std::vector<double> d;
    int ncomp = 1;
  };
  std::map<std::pair<std::string, int>, Stored> fields;
  std::vector<std::pair<std::string, int>> field_order;
  mutable int stores = 0;

  Cell_type cell_get_type(const Entity_ID c) const override { return t_.ct[c]; }
  Entity_ID GID(const Entity_ID lid, const Entity_kind kind) const override;
  void cell_get_nodes(const Entity_ID c, Entity_ID_List *n) const override { *n = t_.cn[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List *n) const override { *n = t_.fn[f]; }
  void node_get_cells(const Entity_ID, const Entity_type, Entity_ID_List *) const override;
  void node_get_faces(const Entity_ID, const Entity_type, Entity_ID_List *) const override;
  void node_get_cell_faces(const Entity_ID, const Entity_ID, const Entity_type,
                           Entity_ID_List *) const override;
  void cell_get_face_adj_cells(const Entity_ID, const Entity_type, Entity_ID_List *) const override;
  void cell_get_node_adj_cells(const Entity_ID, const Entity_type, Entity_ID_List *) const override;
  void node_get_coordinates(const Entity_ID, Point *) const override;
  using Jali::Mesh::node_get_coordinates;
  void face_get_coordinates(const Entity_ID, std::vector<Point> *) const override;
  void cell_get_coordinates(const Entity_ID, std::vector<Point> *) const override;
  void node_set_coordinates(const Entity_ID, const Point) override;
  void node_set_coordinates(const Entity_ID, const double *) override;

  void get_field_info(Entity_kind on, int *num, std::vector<std::string> *names,
                      std::vector<std::string> *types) const override;
  bool get_field(std::string n, Entity_kind k, int *d) const override;
  bool get_field(std::string n, Entity_kind k, double *d) const override;
  bool get_field(std::string n, Entity_kind k, std::array<double, 2ul> *d) const override;
  bool get_field(std::string n, Entity_kind k, std::array<double, 3ul> *d) const override;
  bool get_field(std::string n, Entity_kind k, std::array<double, 6ul> *d) const override;
  bool store_field(std::string n, Entity_kind k, int *d) override;
  bool store_field(std::string n, Entity_kind k, double *d) override;
  bool store_field(std::string n, Entity_kind k, std::array<double, 2ul> *d) override;
  bool store_field(std::string n, Entity_kind k, std::array<double, 3ul> *d) override;
  bool store_field(std::string n, Entity_kind k, std::array<double, 6ul> *d) override;

 protected:
  void cell_get_faces_and_dirs_internal(const Entity_ID, Entity_ID_List *, std::vector<dir_t> *,
                                        const bool) const override;
  void face_get_cells_internal(const Entity_ID, const Entity_type, Entity_ID_List *) const override;
  void face_get_edges_and_dirs_internal(const Entity_ID, Entity_ID_List *, std::vector<dir_t> *,
                                        const bool) const override;
  void cell_get_edges_internal(const Entity_ID, Entity_ID_List *) const override;
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID, Entity_ID_List *,
                                           std::vector<dir_t> *) const override;
  void edge_get_nodes_internal(const Entity_ID, Entity_ID *, Entity_ID *) const override;
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr, const Entity_kind,
                                Entity_ID_List *, Entity_ID_List *) const override;

 private:
  Topo t_;
  bool storable(Entity_kind k) const;
  bool put(std::string const &n, Entity_kind k, std::string const &type, int const *i,
           double const *d, int ncomp);
  bool fetch(std::string const &n, Entity_kind k, std::string const &type, int *i, double *d,
             int ncomp) const;
};

std::string topo_summary(Topo const &t);

}  // namespace jv
#endif
