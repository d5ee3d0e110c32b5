// P01: the built-in structured 3D mesh
#include "jutil.hh"
#include "Mesh_simple.hh"
using namespace jv;
using namespace Jali;

namespace {

const int exo_face[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6},
                            {3, 0, 4, 7}, {0, 3, 2, 1}, {4, 5, 6, 7}};

void box_mesh(Gen &g, Ctx &c) {
  int nmax = g.chance(1, 100) ? 13 : g.chance(1, 6) ? 7 : 4;
  int n[3];
  double lo[3], hi[3], h[3];
  double scale = g.chance(1, 6) ? any_scale(g) : std::pow(10.0, g.range(0, 4) - 2.0);
  for (int d = 0; d < 3; ++d) n[d] = g.range(1, nmax);
  if (g.chance(1, 12)) {          // one long axis
    int d = g.range(0, 2);
    n[d] = g.range(8, 70);
    n[(d + 1) % 3] = g.range(1, 3);
    n[(d + 2) % 3] = g.range(1, 2);
    if (g.chance(1, 250)) {       // numbers of entities beyond 16 bits
      n[d] = g.range(16000, 22000);
      n[(d + 1) % 3] = n[(d + 2) % 3] = 1;
    }
  }
  // coincidences among extents and spacings matter as much as generic boxes
  int shape = g.range(0, 5);
  double x0 = g.flip() ? 0 : scale * g.range(-3, 3), len = scale * g.range(1, 8);
  for (int d = 0; d < 3; ++d) {
    if (shape <= 1) {
      lo[d] = scale * some_real(g, -4, 4);
      hi[d] = lo[d] + scale * (0.25 + 4 * g.unit());
    } else if (shape == 2) {      // cube
      lo[d] = x0;
      hi[d] = x0 + len;
    } else if (shape == 3) {      // equal spacing
      lo[d] = x0;
      hi[d] = x0 + len * n[d];
    } else if (shape == 4) {      // small integers, two axes often alike
      lo[d] = g.range(-2, 2);
      hi[d] = lo[d] + g.range(1, 3);
    } else {                      // equal lengths, different origins
      lo[d] = scale * g.range(-3, 3);
      hi[d] = lo[d] + len;
    }
    h[d] = (hi[d] - lo[d]) / n[d];
  }
  int ntiles = g.chance(1, 5) ? g.range(1, 4) : 0;
  c.say() << "Mesh_simple " << n[0] << "x" << n[1] << "x" << n[2] << " on [" << lo[0] << ","
          << hi[0] << "]x[" << lo[1] << "," << hi[1] << "]x[" << lo[2] << "," << hi[2]
          << "] tiles " << ntiles;
  c.nontrivial(n[0] * n[1] * n[2] > 1);
  c.label(n[0] != n[1] || n[1] != n[2] ? "unequal counts" : "equal counts");

  Mesh_simple mesh(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2], MPI_COMM_WORLD,
                   nullptr, true, false, false, false, false, ntiles, ntiles ? 1 : 0, 0, false,
                   Partitioner_type::INDEX);

  int nc = n[0] * n[1] * n[2], nn = (n[0] + 1) * (n[1] + 1) * (n[2] + 1);
  int nf = (n[0] + 1) * n[1] * n[2] + n[0] * (n[1] + 1) * n[2] + n[0] * n[1] * (n[2] + 1);
  double L = std::max({std::fabs(lo[0]), std::fabs(lo[1]), std::fabs(lo[2]), std::fabs(hi[0]),
                       std::fabs(hi[1]), std::fabs(hi[2])});
  double hmin = std::min({h[0], h[1], h[2]});
  double tol = 1e-11 * L;

  CHECK_EQ(mesh.space_dimension(), 3u, "dim", "space dimension");
  CHECK_EQ(mesh.manifold_dimension(), 3u, "dim", "manifold dimension");
  CHECK(mesh.mesh_type() == Mesh_type::RECTANGULAR, "type", "mesh type");
  CHECK(mesh.geom_type() == JaliGeometry::Geom_type::CARTESIAN, "type", "geometry type");

  // counts, lists, types, global IDs
  struct { Entity_kind k; int n; } kinds[3] = {{Entity_kind::NODE, nn}, {Entity_kind::FACE, nf},
                                               {Entity_kind::CELL, nc}};
  for (auto &kn : kinds) {
    CHECK_EQ((int)mesh.num_entities(kn.k, Entity_type::PARALLEL_OWNED), kn.n, "count",
             "owned " << kn.k);
    CHECK_EQ((int)mesh.num_entities(kn.k, Entity_type::ALL), kn.n, "count", "all " << kn.k);
    CHECK_EQ((int)mesh.num_entities(kn.k, Entity_type::PARALLEL_GHOST), 0, "count",
             "ghost " << kn.k);
    CHECK_EQ((int)mesh.num_entities(kn.k, Entity_type::BOUNDARY_GHOST), 0, "count",
             "boundary ghost " << kn.k);
    ints ids(kn.n);
    for (int i = 0; i < kn.n; ++i) ids[i] = i;
    CHECK_SET(entity_list(mesh, kn.k, Entity_type::PARALLEL_OWNED), ids, "list", "owned list");
    CHECK_SET(entity_list(mesh, kn.k, Entity_type::ALL), ids, "list", "all list");
    CHECK(entity_list(mesh, kn.k, Entity_type::PARALLEL_GHOST).empty(), "list", "ghost list");
    std::set<int> gids;
    for (int i : ids) {
      gids.insert(mesh.GID(i, kn.k));
      CHECK(mesh.entity_get_type(kn.k, i) == Entity_type::PARALLEL_OWNED, "etype",
            "type of " << kn.k << i);
    }
    CHECK_EQ((int)gids.size(), kn.n, "gid", "distinct global IDs of " << kn.k);
  }

  // nodes are the lattice points, each once
  std::vector<std::array<int, 3>> ijk(nn);
  std::set<std::array<int, 3>> seen;
  for (int i = 0; i < nn; ++i) {
    Point p;
    mesh.node_get_coordinates(i, &p);
    std::array<double, 3> a;
    mesh.node_get_coordinates(i, &a);
    CHECK_EQ(p.dim(), 3, "coord", "dimension of node point");
    for (int d = 0; d < 3; ++d) {
      CHECK(p[d] == a[d], "coord", "array and Point coordinates differ at node " << i);
      ijk[i][d] = (int)std::lround((p[d] - lo[d]) / h[d]);
      CHECK_NEAR(p[d], lo[d] + ijk[i][d] * h[d], tol, "coord", "node " << i << " axis " << d);
      CHECK(ijk[i][d] >= 0 && ijk[i][d] <= n[d], "coord", "node " << i << " outside the box");
    }
    CHECK(seen.insert(ijk[i]).second, "coord", "two nodes at one lattice point");
  }

  // cells
  std::vector<ints> node_cells(nn), face_cells(nf), node_faces(nn), cell_faces(nc);
  std::vector<ints> face_dirs(nf);
  std::set<std::array<int, 3>> cseen;
  double vol = 0;
  for (int k = 0; k < nc; ++k) {
    CHECK(mesh.cell_get_type(k) == Cell_type::HEX, "ctype", "cell type");
    used_ints cn;
    mesh.cell_get_nodes(k, &cn);
    CHECK_EQ(cn.size(), size_t(8), "cellnodes", "nodes of cell " << k);
    std::array<int, 3> o = ijk[cn[0]];
    for (int x : cn) for (int d = 0; d < 3; ++d) o[d] = std::min(o[d], ijk[x][d]);
    std::set<int> dis(cn.begin(), cn.end());
    CHECK_EQ(dis.size(), size_t(8), "cellnodes", "distinct nodes of cell " << k);
    for (int x : cn) {
      for (int d = 0; d < 3; ++d)
        CHECK(ijk[x][d] - o[d] <= 1, "cellnodes", "cell " << k << " is not one lattice box");
      node_cells[x].push_back(k);
    }
    CHECK(cseen.insert(o).second, "cellnodes", "two cells in one lattice box");
    auto d1 = [&](int a, int b) {
      int s = 0;
      for (int d = 0; d < 3; ++d) s += std::abs(ijk[cn[a]][d] - ijk[cn[b]][d]);
      return s;
    };
    for (int i = 0; i < 4; ++i)
      CHECK(d1(i, (i + 1) % 4) == 1 && d1(4 + i, 4 + (i + 1) % 4) == 1 && d1(i, i + 4) == 1,
            "cellnodes", "cell " << k << " nodes not in hexahedron order");
    used_points cc;
    mesh.cell_get_coordinates(k, &cc);
    CHECK_EQ(cc.size(), size_t(8), "cellcoords", "coordinates of cell");
    for (int i = 0; i < 8; ++i) {
      Point p;
      mesh.node_get_coordinates(cn[i], &p);
      CHECK_VEC(v3(cc[i]), v3(p), 0, "cellcoords", "coordinate " << i << " of cell " << k);
    }
    CHECK(dot(cross(v3(cc[1]) - v3(cc[0]), v3(cc[3]) - v3(cc[0])), v3(cc[4]) - v3(cc[0])) > 0,
          "cellnodes", "cell " << k << " is inside out");

    used_ints cf, cf2, cf3;
    used_dirs cd;
    mesh.cell_get_faces(k, &cf3, true);
    mesh.cell_get_faces_and_dirs(k, &cf, &cd, true);
    mesh.cell_get_faces(k, &cf2);
    CHECK_SET(cf, cf2, "cellfaces", "ordered and unordered faces");
    CHECK_LIST(cf3, cf, "cellfaces", "ordered faces of cell " << k << " without directions");
    CHECK_EQ(cf.size(), size_t(6), "cellfaces", "faces of cell " << k);
    CHECK_EQ(cd.size(), size_t(6), "cellfaces", "face directions of cell " << k);
    CHECK_EQ(mesh.cell_get_num_faces(k), 6u, "cellfaces", "number of faces of cell");
    cell_faces[k] = cf2;
    for (int i = 0; i < 6; ++i) {
      used_ints fn;
      mesh.face_get_nodes(cf[i], &fn);
      ints want;
      for (int j = 0; j < 4; ++j) want.push_back(cn[exo_face[i][j]]);
      CHECK_SET(fn, want, "cellfaces", "face " << i << " of cell " << k);
      face_cells[cf[i]].push_back(k);
      face_dirs[cf[i]].push_back(cd[i]);
    }
    used_ints uf;
    used_dirs ud;
    mesh.cell_get_faces_and_dirs(k, &uf, &ud);
    for (size_t i = 0; i < uf.size(); ++i)
      for (size_t j = 0; j < cf.size(); ++j)
        if (uf[i] == cf[j]) CHECK_EQ((int)ud[i], (int)cd[j], "dirs", "ordered/unordered dirs");
    V3 cen;
    for (int d = 0; d < 3; ++d) (d == 0 ? cen.x : d == 1 ? cen.y : cen.z) = lo[d] + (o[d] + .5) * h[d];
    CHECK_VEC(v3(mesh.cell_centroid(k)), cen, 1e-9 * L, "geom", "centroid of cell " << k);
    double v = h[0] * h[1] * h[2];
    double vtol = v * 1e-9 * (1 + L / hmin);
    CHECK_NEAR(mesh.cell_volume(k), v, vtol, "geom", "volume of cell " << k);
    vol += mesh.cell_volume(k);
  }
  {
    double v = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
    CHECK_NEAR(vol, v, v * 1e-9 * (1 + L / hmin), "geom", "total volume");
  }

  // faces
  for (int f = 0; f < nf; ++f) {
    used_ints fn, fc;
    mesh.face_get_nodes(f, &fn);
    CHECK_EQ(fn.size(), size_t(4), "facenodes", "nodes of face");
    for (int x : fn) node_faces[x].push_back(f);
    int bdry = 0;
    std::array<int, 3> fl = ijk[fn[0]], fh = fl;
    for (int x : fn)
      for (int d = 0; d < 3; ++d) {
        fl[d] = std::min(fl[d], ijk[x][d]);
        fh[d] = std::max(fh[d], ijk[x][d]);
      }
    int ax = -1;
    for (int d = 0; d < 3; ++d)
      if (fl[d] == fh[d]) { ax = d; if (fl[d] == 0 || fl[d] == n[d]) bdry = 1; }
    CHECK(ax >= 0, "facenodes", "face " << f << " is not a lattice face");
    CHECK_EQ(face_cells[f].size(), size_t(bdry ? 1 : 2), "facecells", "cells using face " << f);
    mesh.face_get_cells(f, Entity_type::ALL, &fc);
    CHECK_SET(fc, face_cells[f], "facecells", "cells of face " << f);
    mesh.face_get_cells(f, Entity_type::PARALLEL_OWNED, &fc);
    CHECK_SET(fc, face_cells[f], "facecells", "owned cells of face " << f);
    mesh.face_get_cells(f, Entity_type::PARALLEL_GHOST, &fc);
    CHECK(fc.empty(), "facecells", "ghost cells of face " << f);
    if (!bdry) CHECK_EQ(face_dirs[f][0], -face_dirs[f][1], "dirs", "directions of face " << f);
    used_points xy;
    mesh.face_get_coordinates(f, &xy);
    CHECK_EQ(xy.size(), size_t(4), "facecoords", "face coordinates");
    V3 fcen;
    for (int i = 0; i < 4; ++i) {
      Point p;
      mesh.node_get_coordinates(fn[i], &p);
      CHECK_VEC(v3(xy[i]), v3(p), 0, "facecoords", "coordinate " << i << " of face " << f);
      fcen = fcen + v3(p) / 4;
    }
    double area = h[0] * h[1] * h[2] / h[ax];
    double atol = area * 1e-9 * (1 + L / hmin);
    CHECK_NEAR(mesh.face_area(f), area, atol, "geom", "area of face " << f);
    CHECK_VEC(v3(mesh.face_centroid(f)), fcen, 1e-9 * L, "geom", "centroid of face " << f);
    V3 nat = 0.5L * cross(v3(xy[2]) - v3(xy[0]), v3(xy[3]) - v3(xy[1]));
    CHECK_VEC(v3(mesh.face_normal(f)), nat, atol * 2, "geom", "normal of face " << f);
    for (size_t i = 0; i < face_cells[f].size(); ++i) {
      int k = face_cells[f][i], orient = 0;
      V3 out = v3(mesh.face_centroid(f)) - v3(mesh.cell_centroid(k));
      V3 w = v3(mesh.face_normal(f, false, k, &orient));
      CHECK(dot(w, out) > 0, "dirs", "normal of face " << f << " out of cell " << k);
      CHECK_EQ(orient, face_dirs[f][i], "dirs", "orientation of face " << f);
      CHECK_VEC(w, (long double)orient * nat, atol * 2, "geom", "outward normal of face " << f);
    }
  }

  // upward and lateral adjacencies
  for (int x = 0; x < nn; ++x)
    for (auto t : {Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST}) {
      bool gh = t == Entity_type::PARALLEL_GHOST;
      used_ints r;
      mesh.node_get_cells(x, t, &r);
      CHECK_SET(r, gh ? ints() : node_cells[x], "nodecells", "cells of type" << t << "at node " << x);
      mesh.node_get_faces(x, t, &r);
      CHECK_SET(r, gh ? ints() : node_faces[x], "nodefaces", "faces of type" << t << "at node " << x);
      for (int k : node_cells[x]) {
        ints want;
        if (!gh)
          for (int f : cell_faces[k])
            if (std::count(node_faces[x].begin(), node_faces[x].end(), f)) want.push_back(f);
        mesh.node_get_cell_faces(x, k, t, &r);
        CHECK_SET(r, want, "nodecellfaces", "faces of type" << t << "of cell " << k << " at node " << x);
      }
    }
  for (int k = 0; k < nc; ++k) {
    ints fadj;
    std::set<int> nadj;
    for (int f : cell_faces[k])
      for (int o : face_cells[f]) if (o != k) fadj.push_back(o);
    used_ints cn, r;
    mesh.cell_get_nodes(k, &cn);
    for (int x : cn) for (int o : node_cells[x]) if (o != k) nadj.insert(o);
    for (auto t : {Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST}) {
      bool gh = t == Entity_type::PARALLEL_GHOST;
      mesh.cell_get_face_adj_cells(k, t, &r);
      CHECK_SET(r, gh ? ints() : fadj, "faceadj", "face neighbours of type" << t << "of cell " << k);
      if (t == Entity_type::ALL)
        CHECK(r == fadj, "faceadj", "face neighbours of cell " << k << " not in face order: "
              << pbt::str(r) << " vs " << pbt::str(fadj));
      mesh.cell_get_node_adj_cells(k, t, &r);
      CHECK_SET(r, gh ? ints() : ints(nadj.begin(), nadj.end()), "nodeadj",
                "node neighbours of type" << t << "of cell " << k);
    }
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P01",
          "random box extents (scales 1e-2..1e2), cell counts 1..7 per axis, optional tiles; "
          "non-trivial: more than one cell",
          12000, 240000,
          {{"box", 1, box_mesh}},
          {"serial mesh on MPI_COMM_WORLD of one process"}};
}
