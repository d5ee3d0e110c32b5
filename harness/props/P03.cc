// P03: cell, face and edge geometry against a long-double oracle
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

void geometry(Gen &g, Ctx &c, int mdim, int sdim) {
  GenOpts go;
  go.scales = true;
  go.mdim = mdim;
  go.sdim = sdim;
  Topo t = gen_topo(g, c, go);
  MeshOpts o;
  o.edges = g.chance(3, 4);
  if (mdim == sdim && g.chance(1, 4)) o = MeshOpts::all();
  c.say() << topo_summary(t);
  c.nontrivial(t.cn.size() > 1);
  GenMesh m(t, o);

  long double L = topo_size(t), h = cell_size(t);
  long double eps = 1e-11L;
  auto tol = [&](int p) { return (double)(eps * powl(h, p - 1) * (h + L) * 20); };
  int nc = t.cn.size(), nf = t.fn.size();
  bool surf = mdim != sdim;

  bool bg = false, allflat = true;
  long double vol = 0;
  for (int k = 0; k < nc; ++k) {
    CellGeom cg = cell_geom(t, k);
    if (!cg.flat) allflat = false;
    if (t.etype(Entity_kind::CELL, k) == Entity_type::BOUNDARY_GHOST) {
      bg = true;
      CHECK_EQ(m.cell_volume(k), 0.0, "bghost", "volume of boundary ghost cell " << k);
      continue;
    }
    vol += m.cell_volume(k);
    CHECK_NEAR(m.cell_volume(k), (double)cg.vol, tol(mdim), "cellvol", "volume of cell " << k << " " << t.ct[k]);
    CHECK_NEAR(m.cell_volume(k, true), m.cell_volume(k), tol(mdim), "recompute", "recomputed volume of cell " << k);
    CHECK_VEC(v3(m.cell_centroid(k)), cg.cen, tol(1), "cellcen", "centroid of cell " << k << " " << t.ct[k]);
    CHECK_VEC(v3(m.cell_centroid(k, true)), v3(m.cell_centroid(k)), tol(1), "recompute",
              "recomputed centroid of cell " << k);
    CHECK_EQ(m.cell_centroid(k).dim(), sdim, "cellcen", "dimension of centroid");
    std::vector<Point> xy;
    m.cell_get_coordinates(k, &xy);
    V3 sum;
    for (auto &fd : t.cf[k]) {
      int orient = 7;
      V3 n = v3(m.face_normal(fd.first, false, k, &orient));
      CHECK_EQ(orient, fd.second, "orientation", "orientation of face " << fd.first << " in cell " << k);
      sum = sum + n;
      FaceGeom fg = face_geom(t, fd.first);
      V3 want;
      if (!surf) {
        want = (long double)fd.second * fg.nrm;
      } else {      // perpendicular to the edge, in the plane of the edge and the cell centre
        V3 a = t.x[t.fn[fd.first][0]], b = t.x[t.fn[fd.first][1]], e = b - a;
        V3 cv = a - cg.avg;
        want = cv - (dot(cv, e) / dot(e, e)) * e;
        want = (fg.area / len(want)) * want;
      }
      double ntol = surf ? tol(1) * 100 : tol(mdim - 1);
      CHECK_VEC(n, want, ntol, "outnormal", "outward normal of face " << fd.first << " of cell " << k);
      int o2 = 0;
      CHECK_VEC(v3(m.face_normal(fd.first, true, k, &o2)), n, ntol, "recompute", "recomputed normal");
      CHECK_EQ(o2, orient, "recompute", "recomputed orientation");
      if (fg.flat)
        CHECK_NEAR((double)len(n), m.face_area(fd.first), tol(mdim - 1), "normallen",
                   "length of the normal of face " << fd.first);
      // outward: away from the cell centre (cells are star-shaped about it)
      CHECK(dot(n, fg.cen - cg.cen) > 0 || !fg.flat || (surf && !cg.flat), "outnormal",
            "normal of face " << fd.first << " points into cell " << k);
    }
    if (!surf) {
      double stol = tol(mdim - 1) * t.cf[k].size();
      CHECK_VEC(sum, V3(), stol, "closed", "sum of outward normals of cell " << k);
    }
  }
  for (int f = 0; f < nf; ++f) {
    FaceGeom fg = face_geom(t, f);
    CHECK_NEAR(m.face_area(f), (double)fg.area, tol(mdim - 1), "facearea", "area of face " << f);
    CHECK_NEAR(m.face_area(f, true), m.face_area(f), tol(mdim - 1), "recompute", "recomputed area of face " << f);
    CHECK_VEC(v3(m.face_centroid(f)), fg.cen, tol(1), "facecen", "centroid of face " << f);
    CHECK_VEC(v3(m.face_centroid(f, true)), v3(m.face_centroid(f)), tol(1), "recompute",
              "recomputed centroid of face " << f);
    if (!surf) {
      int orient = 5;
      CHECK_VEC(v3(m.face_normal(f, false, -1, &orient)), fg.nrm, tol(mdim - 1), "natnormal",
                "natural normal of face " << f);
      CHECK_EQ(orient, 1, "natnormal", "orientation of natural normal");
      CHECK_VEC(v3(m.face_normal(f)), v3(m.face_normal(f, true)), tol(mdim - 1), "recompute", "recomputed natural normal");
    }
    ints const &fc = t.fc[f];
    if (fc.size() == 2 && !surf)
      CHECK_VEC(v3(m.face_normal(f, false, fc[0])) + v3(m.face_normal(f, false, fc[1])), V3(), tol(mdim - 1),
                "opposite", "normals of face " << f << " from its two cells");
  }
  if (o.edges)
    for (size_t e = 0; e < t.en.size(); ++e) {
      V3 a = t.x[t.en[e][0]], b = t.x[t.en[e][1]];
      CHECK_NEAR(m.edge_length(e), (double)len(b - a), tol(1), "edgelen", "length of edge " << e);
      CHECK_NEAR(m.edge_length(e, true), m.edge_length(e), tol(1), "recompute", "recomputed length of edge " << e);
      CHECK_VEC(v3(m.edge_centroid(e)), 0.5L * (a + b), tol(1), "edgecen", "centre of edge " << e);
      for (bool re : {false, true}) {
        int o0 = 9, o1 = 9, o2 = 9;
        V3 nat = v3(m.edge_vector(e, re, -1, &o2));
        CHECK_VEC(nat, b - a, tol(1), "edgevec", "vector of edge " << e);
        CHECK_VEC(v3(m.edge_vector(e, re, t.en[e][0], &o0)), b - a, tol(1), "edgevec",
                  "vector of edge " << e << " from its first node");
        CHECK_VEC(v3(m.edge_vector(e, re, t.en[e][1], &o1)), a - b, tol(1), "edgevec",
                  "vector of edge " << e << " from its second node");
        CHECK(o0 == 1 && o1 == -1 && o2 == 1, "edgevec", "orientations of edge " << e << ": " << o0
              << " " << o1 << " " << o2);
      }
    }

  // total volume from the boundary alone (divergence theorem)
  if (!surf && !bg) {
    long double V = 0;
    for (int f = 0; f < nf; ++f) {
      if (t.fc[f].size() != 1) continue;
      int k = t.fc[f][0], dir = t.dir_in(k, f);
      V3 o0 = t.x[0];
      if (mdim == 2) {
        V3 a = t.x[t.fn[f][0]] - o0, b = t.x[t.fn[f][1]] - o0;
        V += dir * 0.5L * (a.x * b.y - a.y * b.x);
      } else {
        V3 avg = face_geom(t, f).avg - o0;
        ints const &l = t.fn[f];
        if (l.size() == 3)
          V += dir * dot(cross(t.x[l[0]] - o0, t.x[l[1]] - o0), t.x[l[2]] - o0) / 6;
        else
          for (size_t i = 0; i < l.size(); ++i)
            V += dir * dot(cross(t.x[l[i]] - o0, t.x[l[(i + 1) % l.size()]] - o0), avg) / 6;
      }
    }
    CHECK_NEAR((double)vol, (double)V, tol(mdim) * nc, "total", "sum of cell volumes against the boundary");
  }
  c.label(allflat ? "flat faces" : "curved faces");
  if (surf) return;

  // point location
  for (int q = g.range(1, 6); q > 0; --q) {
    int k = g.draw(nc);
    CellGeom cg = cell_geom(t, k);
    if (!cg.flat) continue;
    bool convex = true;
    for (auto &fd : t.cf[k]) {
      FaceGeom fg = face_geom(t, fd.first);
      V3 n = (long double)fd.second / fg.area * fg.nrm;
      for (int x : t.cn[k]) if (dot(t.x[x] - fg.cen, n) > 1e-9L * h) convex = false;
    }
    if (!convex) continue;
    V3 p;
    long double ws = 0;
    for (int x : t.cn[k]) { long double w = g.real(0, 1) * g.real(0, 1); p = p + w * t.x[x]; ws += w; }
    if (ws < 1e-3) continue;
    p = p / ws;
    if (g.flip()) p = cg.cen + (long double)g.real(0.3, 3) * (p - cg.cen);
    p = v3(pt(p, sdim));
    long double out = -1e300L;
    for (auto &fd : t.cf[k]) {
      FaceGeom fg = face_geom(t, fd.first);
      out = std::max(out, dot(p - fg.cen, (long double)fd.second / fg.area * fg.nrm));
    }
    if (fabsl(out) < 1e-6L * (h + L)) continue;
    c.label(out < 0 ? "point inside a cell" : "point outside a cell");
    CHECK_EQ(m.point_in_cell(pt(p, sdim), k), out < 0, "pointin", "point " << pstr(p) << " in cell " << k
             << " " << t.ct[k] << " (distance " << (double)out << ")");
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P03",
          "random planar, solid and surface meshes with positive subcells (perturbed, bent, rotated, "
          "scaled; random numbering, orientation, ownership); non-trivial: more than one cell",
          40000, 800000,
          {{"planar", 3, [](Gen &g, Ctx &c) { geometry(g, c, 2, 2); }},
           {"solid", 4, [](Gen &g, Ctx &c) { geometry(g, c, 3, 3); }},
           {"surface", 1, [](Gen &g, Ctx &c) { geometry(g, c, 2, 3); }}},
          {"tolerance 2e-10 relative to cell size and distance from the origin",
           "cells star-shaped about their centroid and vertex average"}};
}
