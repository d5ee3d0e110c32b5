// P08: geometry of sides, wedges and corners against simplex formulas
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

void run(Gen &g, Ctx &c, int mdim) {
  GenOpts go;
  go.scales = true;
  go.mdim = go.sdim = mdim;
  Topo t = gen_topo(g, c, go);
  c.say() << topo_summary(t);
  GenMesh m(t, MeshOpts::all());
  long double L = topo_size(t), h = cell_size(t);
  auto tol = [&](int p) { return (double)(1e-11L * powl(h, p - 1) * (h + L) * 20); };
  int nc = t.cn.size();
  c.nontrivial(nc > 1);
  c.label(mdim == 3 ? "solid" : "planar");
  std::vector<FaceGeom> fgs;
  for (size_t f = 0; f < t.fn.size(); ++f) fgs.push_back(face_geom(t, f));

  for (int C = 0; C < nc; ++C) {
    CellGeom cg = cell_geom(t, C);
    bool bg = t.etype(Entity_kind::CELL, C) == Entity_type::BOUNDARY_GHOST;
    used_ints sides, wedges, corners;
    m.cell_get_sides(C, &sides);
    m.cell_get_wedges(C, &wedges);
    m.cell_get_corners(C, &corners);
    if (bg) {
      c.label("boundary ghost cells");
      for (int s : sides) {
        CHECK_EQ(m.side_volume(s), 0.0, "bghost", "volume of side " << s << " of a boundary ghost");
        CHECK_EQ((double)len(v3(m.side_facet_normal(s))), 0.0, "bghost", "normal of side " << s << " of a boundary ghost");
      }
      for (int w : wedges) CHECK_EQ(m.wedge_volume(w), 0.0, "bghost", "volume of wedge " << w << " of a boundary ghost");
      for (int k : corners) CHECK_EQ(m.corner_volume(k), 0.0, "bghost", "volume of corner " << k << " of a boundary ghost");
      continue;
    }
    double vt = tol(mdim) * sides.size();
    long double sv = 0, wv = 0, kv = 0;
    std::map<int, V3> facet_sum;
    std::map<int, long double> corner_vol;      // node -> volume
    for (int s : sides) {
      int f = m.side_get_face(s), e = m.side_get_edge(s), n0 = m.side_get_node(s, 0), n1 = m.side_get_node(s, 1);
      V3 a = t.x[n0], b = t.x[n1], fc = fgs[f].cen, ec = 0.5L * (t.x[t.en[e][0]] + t.x[t.en[e][1]]), cc = cg.cen;
      std::vector<V3> natural = mdim == 3 ? std::vector<V3>{a, b, fc, cc} : std::vector<V3>{a, b, cc};
      for (bool pos : {false, true}) {
        used_points xy;
        m.side_get_coordinates(s, &xy, pos);
        CHECK_EQ(xy.size(), natural.size(), "side-coords", "number of coordinates of side " << s);
        for (size_t i = 0; i < natural.size(); ++i) {
          CHECK_EQ(xy[i].dim(), mdim, "side-coords", "dimension of the coordinates of side " << s);
          CHECK_VEC(v3(xy[i]), natural[i], tol(1), "side-coords", "coordinate " << i << " of side " << s);
        }
      }
      long double vol;
      V3 out, mid;
      if (mdim == 3) {
        out = 0.5L * cross(fc - a, b - a);
        vol = dot(cross(b - a, fc - a), cc - a) / 6;
        mid = 0.5L * cross(fc - ec, cc - ec);
      } else {
        V3 d = b - a, q = cc - a, r = cc - ec;
        out = {d.y, -d.x, 0};
        vol = (d.x * q.y - d.y * q.x) / 2;
        mid = {r.y, -r.x, 0};
      }
      CHECK(m.side_volume(s) > 0, "side-volume", "volume of side " << s << " is " << m.side_volume(s));
      CHECK_NEAR(m.side_volume(s), (double)vol, vt, "side-volume", "volume of side " << s);
      CHECK_NEAR(m.side_volume(s, true), m.side_volume(s), vt, "recompute", "recomputed volume of side " << s);
      sv += m.side_volume(s);
      facet_sum[f] = facet_sum[f] + v3(m.side_facet_normal(s));
      for (bool re : {false, true})
        CHECK_VEC(v3(m.side_facet_normal(s, re)), out, tol(mdim - 1), re ? "recompute" : "side-normal",
                  "outward normal of side " << s);
      for (int i = 0; i < 2; ++i) {
        int w = m.side_get_wedge(s, i);
        V3 x = i ? b : a;
        CHECK_NEAR(m.wedge_volume(w), (double)vol / 2, vt, "wedge-volume", "volume of wedge " << w);
        CHECK_NEAR(m.wedge_volume(w, true), m.wedge_volume(w), vt, "recompute", "recomputed volume of wedge " << w);
        wv += m.wedge_volume(w);
        corner_vol[i ? n1 : n0] += vol / 2;
        for (bool re : {false, true}) {
          CHECK_VEC(v3(m.wedge_facet_normal(w, 0, re)), 0.5L * out, tol(mdim - 1), re ? "recompute" : "wedge-normal",
                    "facet 0 normal of wedge " << w);
          V3 n1 = v3(m.wedge_facet_normal(w, 1, re));
          CHECK_VEC(n1, (i ? -1.0L : 1.0L) * mid, tol(mdim - 1), re ? "recompute" : "wedge-mid-normal",
                    "facet 1 normal of wedge " << w);
          CHECK(dot(n1, ec - x) > -tol(mdim - 1) * len(ec - x) || !cg.flat, "wedge-mid-normal", "facet 1 normal of wedge " << w
                << " does not point away from its node");
        }
        std::vector<V3> want = mdim == 3 ? std::vector<V3>{x, ec, fc, cc} : std::vector<V3>{x, fc, cc};
        for (bool pos : {false, true}) {
          used_points xy;
          m.wedge_get_coordinates(w, &xy, pos);
          CHECK_EQ(xy.size(), want.size(), "wedge-coords", "number of coordinates of wedge " << w);
          if (!pos) {
            for (size_t k = 0; k < want.size(); ++k)
              CHECK_VEC(v3(xy[k]), want[k], tol(1), "wedge-coords", "coordinate " << k << " of wedge " << w);
          } else {
            V3 p0 = v3(xy[0]), p1 = v3(xy[1]) - p0, p2 = v3(xy[2]) - p0;
            long double v = mdim == 3 ? dot(cross(p1, p2), v3(xy[3]) - p0) / 6 : cross(p1, p2).z / 2;
            CHECK_NEAR((double)v, (double)vol / 2, vt, "wedge-posvol", "volume spanned by the coordinates of wedge "
                       << w << " in positive volume order");
            CHECK_VEC(p0, x, tol(1), "wedge-coords", "node of wedge " << w);
          }
        }
      }
    }
    for (auto &kv2 : facet_sum)
      CHECK_VEC(kv2.second, (long double)t.dir_in(C, kv2.first) * fgs[kv2.first].nrm, tol(mdim - 1) * 10,
                "facet-sum", "sum of the facet normals of the sides of cell " << C << " on face " << kv2.first);
    for (int k : corners) {
      int n = m.corner_get_node(k);
      long double want = corner_vol[n];
      CHECK_NEAR(m.corner_volume(k), (double)want, vt, "corner-volume", "volume of corner " << k);
      CHECK_NEAR(m.corner_volume(k, true), m.corner_volume(k), vt, "recompute", "recomputed volume of corner " << k);
      kv += m.corner_volume(k);
      // the points of the corner
      std::vector<V3> want_pts = {t.x[n]};
      std::set<int> es, fs;
      used_ints ws;
      m.corner_get_wedges(k, &ws);
      for (int w : ws) { es.insert(m.wedge_get_edge(w)); fs.insert(m.wedge_get_face(w)); }
      if (mdim == 3) for (int e : es) want_pts.push_back(0.5L * (t.x[t.en[e][0]] + t.x[t.en[e][1]]));
      for (int f : fs) want_pts.push_back(fgs[f].cen);
      want_pts.push_back(cg.cen);
      auto same_points = [&](std::vector<Point> const &xy, char const *what) {
        CHECK_EQ(xy.size(), want_pts.size(), "corner-points", "number of points in the " << what << " of corner " << k);
        std::vector<char> used(xy.size(), 0);
        for (auto &p : want_pts) {
          bool found = false;
          for (size_t i = 0; i < xy.size() && !found; ++i)
            if (!used[i] && len(v3(xy[i]) - p) <= tol(1)) { used[i] = 1; found = true; }
          CHECK(found, "corner-points", "the " << what << " of corner " << k << " lack point " << pstr(p));
        }
      };
      used_points xy, fxy;
      m.corner_get_coordinates(k, &xy);
      same_points(xy, "coordinates");
      CHECK_VEC(v3(xy[0]), t.x[n], tol(1), "corner-points", "first coordinate of corner " << k);
      if (mdim == 2) {
        long double a = 0;
        for (int i = 0; i < 4; ++i) a += cross(v3(xy[i]) - cg.cen, v3(xy[(i + 1) % 4]) - cg.cen).z / 2;
        CHECK_NEAR((double)a, (double)want, vt, "corner-ccw", "area within the coordinates of corner " << k);
        Used<std::vector<std::array<Entity_ID, 2>>> fp;
        m.corner_get_facetization(k, &fxy, &fp);
        same_points(fxy, "facet points");
        CHECK_EQ(fp.size(), 4u, "corner-facets", "number of facets of corner " << k);
        a = 0;
        for (int i = 0; i < 4; ++i) {
          CHECK(fp[i][0] == i && fp[i][1] == (i + 1) % 4, "corner-facets", "facet " << i << " of corner " << k);
          a += cross(v3(fxy[fp[i][0]]) - cg.cen, v3(fxy[fp[i][1]]) - cg.cen).z / 2;
        }
        CHECK_NEAR((double)a, (double)want, vt, "corner-facets", "area within the facets of corner " << k);
      } else {
        CHECK_VEC(v3(xy.back()), cg.cen, tol(1), "corner-points", "last coordinate of corner " << k);
        Used<std::vector<std::array<Entity_ID, 3>>> fp;
        m.corner_get_facetization(k, &fxy, &fp);
        same_points(fxy, "facet points");
        CHECK_EQ(fp.size(), 2 * ws.size(), "corner-facets", "number of facets of corner " << k);
        long double v = 0;
        std::map<std::pair<int, int>, int> dirs;
        for (auto &tri : fp) {
          for (int i = 0; i < 3; ++i) {
            CHECK(tri[i] >= 0 && tri[i] < (int)fxy.size(), "corner-facets", "point index of a facet of corner " << k);
            dirs[{tri[i], tri[(i + 1) % 3]}]++;
          }
          V3 p0 = v3(fxy[tri[0]]) - cg.cen, p1 = v3(fxy[tri[1]]) - cg.cen, p2 = v3(fxy[tri[2]]) - cg.cen;
          v += dot(cross(p0, p1), p2) / 6;
        }
        CHECK_NEAR((double)v, (double)want, vt, "corner-facets", "volume within the facets of corner " << k);
        for (auto &d : dirs) {
          auto r = dirs.find({d.first.second, d.first.first});
          CHECK(d.second == 1 && r != dirs.end() && r->second == 1, "corner-facets", "facets of corner " << k
                << " do not form a closed, consistently oriented surface");
        }
      }
    }
    bool flat = true;
    for (auto &fd : t.cf[C]) flat = flat && fgs[fd.first].flat;
    CHECK_NEAR((double)wv, (double)sv, vt, "partition", "volumes of the wedges of cell " << C);
    CHECK_NEAR((double)kv, (double)sv, vt, "partition", "volumes of the corners of cell " << C);
    if (flat || mdim == 2) {
      c.label("cell with flat faces");
      CHECK_NEAR((double)sv, m.cell_volume(C), vt, "partition", "volumes of the sides of cell " << C);
    }
  }
}

}  // namespace

pbt::Property pbt::property() {
  return {"P08",
          "Case: a generated planar or solid mesh (mixed polygons or polyhedra, flat and curved faces, random "
          "orientation, numbering and ownership) with sides, wedges and corners; all their geometric queries are "
          "compared to simplex formulas. Non-trivial: more than one cell.",
          30000, 600000,
          {{"planar", 1, [](Gen &g, Ctx &c) { run(g, c, 2); }},
           {"solid", 1, [](Gen &g, Ctx &c) { run(g, c, 3); }}},
          {"Tolerance 2e-10 relative to cell size and distance from the origin.",
           "Cells are star-shaped about their centroid, so that every subcell has positive volume."}};
}
