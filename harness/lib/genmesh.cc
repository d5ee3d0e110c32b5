#include "genmesh.hh"

namespace jv {

// ---------------------------------------------------------------- geometry

FaceGeom polygon_geom(std::vector<V3> const &p) {
  FaceGeom r;
  int n = p.size();
  for (auto &a : p) r.avg = r.avg + a / n;
  if (n == 3) {
    r.nrm = 0.5L * cross(p[1] - p[0], p[2] - p[0]);
    r.area = r.minsub = len(r.nrm);
    r.cen = r.avg;
    return r;
  }
  std::vector<V3> s(n);
  for (int i = 0; i < n; ++i) {
    V3 a = p[i] - r.avg, b = p[(i + 1) % n] - r.avg;
    s[i] = 0.5L * cross(a, b);
    r.nrm = r.nrm + s[i];
    long double A = len(s[i]);
    r.area += A;
    r.cen = r.cen + A * (p[i] + p[(i + 1) % n] + r.avg) / 3.0L;
  }
  r.cen = r.cen / r.area;
  long double N = len(r.nrm);
  for (int i = 0; i < n; ++i) {
    long double d = N > 0 ? dot(s[i], r.nrm) / N : 0;
    r.minsub = std::min(r.minsub, d);
    if (std::fabs((double)(d - len(s[i]))) > 1e-9L * r.area) r.flat = false;
    if (N > 0 && std::fabs((double)(dot(p[i] - r.avg, r.nrm) / N)) > 1e-9L * sqrtl(r.area))
      r.flat = false;
  }
  return r;
}

static std::vector<V3> pick(Topo const &t, ints const &l) {
  std::vector<V3> r;
  for (int i : l) r.push_back(t.x[i]);
  return r;
}

FaceGeom face_geom(Topo const &t, int f) {
  if (t.mdim == 3) return polygon_geom(pick(t, t.fn[f]));
  FaceGeom r;
  V3 a = t.x[t.fn[f][0]], b = t.x[t.fn[f][1]], e = b - a;
  r.cen = r.avg = 0.5L * (a + b);
  r.area = r.minsub = len(e);
  r.nrm = {e.y, -e.x, 0};
  return r;
}

CellGeom cell_geom(Topo const &t, int c) {
  CellGeom r;
  if (t.mdim == 2) {
    FaceGeom f = polygon_geom(pick(t, t.cn[c]));
    r.cen = f.cen; r.avg = f.avg; r.vol = f.area; r.flat = f.flat; r.nrm = f.nrm;
    r.minsub = t.sdim == 2 ? (f.nrm.z > 0 ? f.minsub : -1) : f.minsub;
    return r;
  }
  for (int n : t.cn[c]) r.avg = r.avg + t.x[n] / (long double)t.cn[c].size();
  for (auto &fd : t.cf[c]) {
    std::vector<V3> p = pick(t, t.out_loop(c, fd));
    FaceGeom f = polygon_geom(p);
    if (!f.flat) r.flat = false;
    int n = p.size();
    auto tet = [&](V3 a, V3 b, V3 d) {
      long double v = dot(cross(a - r.avg, b - r.avg), d - r.avg) / 6;
      r.vol += v;
      r.minsub = std::min(r.minsub, v);
      r.cen = r.cen + v * (a + b + d + r.avg) / 4.0L;
    };
    if (n == 3) tet(p[0], p[1], p[2]);
    else
      for (int i = 0; i < n; ++i) tet(p[i], p[(i + 1) % n], f.avg);
  }
  r.cen = r.cen / r.vol;
  return r;
}

long double topo_size(Topo const &t) {
  long double m = 0;
  for (auto &a : t.x) m = std::max(m, len(a));
  return m;
}
long double cell_size(Topo const &t) {
  long double v = 0;
  for (size_t c = 0; c < t.cn.size(); ++c) v += fabsl(cell_geom(t, c).vol);
  v /= t.cn.size();
  return t.mdim == 3 ? cbrtl(v) : sqrtl(v);
}

bool topo_valid(Topo const &t) {
  int nc = t.cn.size();
  std::vector<CellGeom> g(nc);
  long double v = 0;
  for (int c = 0; c < nc; ++c) {
    g[c] = cell_geom(t, c);
    if (!(g[c].minsub > 0)) return false;
    v += g[c].vol / nc;
  }
  long double eps = 2e-4L * v;
  for (int c = 0; c < nc; ++c) {
    if (!(g[c].minsub > eps / 10)) return false;
    if (!(g[c].vol > 20 * eps)) return false;
    for (auto &fd : t.cf[c]) {
      if (t.mdim == 2) {
        V3 a = t.x[t.fn[fd.first][0]], b = t.x[t.fn[fd.first][1]];
        V3 s = 0.5L * cross(a - g[c].cen, b - g[c].cen);
        long double d = dot(s, g[c].nrm) / len(g[c].nrm) * fd.second;
        if (!(d > eps / 2)) return false;
      } else {
        FaceGeom f = face_geom(t, fd.first);
        if (!(f.minsub > 0)) return false;
        ints l = t.out_loop(c, fd);
        for (size_t i = 0; i < l.size(); ++i) {
          V3 a = t.x[l[i]] - g[c].cen, b = t.x[l[(i + 1) % l.size()]] - g[c].cen;
          long double d = dot(cross(a, b), f.cen - g[c].cen) / 6;
          if (!(d > eps / 20)) return false;
        }
      }
    }
  }
  return true;
}

// ------------------------------------------------------------- generation

namespace {

using Loop = ints;
using Poly = std::vector<Loop>;       // 3D cell: outward loops; 2D: one ccw loop

struct Raw {
  int mdim = 3;
  std::vector<V3> x;
  std::vector<Poly> cells;
  std::vector<Cell_type> hint;
};

ints key(Loop l) { std::sort(l.begin(), l.end()); return l; }

void derive(Topo *t) {
  int nn = t->x.size(), nf = t->fn.size(), nc = t->cn.size();
  t->fc.assign(nf, ints());
  t->nc.assign(nn, ints());
  t->nf.assign(nn, ints());
  for (int c = 0; c < nc; ++c) {
    for (auto &fd : t->cf[c]) t->fc[fd.first].push_back(c);
    for (int n : t->cn[c]) t->nc[n].push_back(c);
  }
  for (int f = 0; f < nf; ++f) for (int n : t->fn[f]) t->nf[n].push_back(f);
}

Cell_type classify3(Poly const &p) {
  int tri = 0, quad = 0;
  std::set<int> nodes;
  for (auto &l : p) {
    if (l.size() == 3) tri++;
    if (l.size() == 4) quad++;
    nodes.insert(l.begin(), l.end());
  }
  int n = p.size();
  if (n == 4 && tri == 4 && nodes.size() == 4) return Cell_type::TET;
  if (n == 5 && tri == 2 && quad == 3 && nodes.size() == 6) return Cell_type::PRISM;
  if (n == 5 && tri == 4 && quad == 1 && nodes.size() == 5) return Cell_type::PYRAMID;
  if (n == 6 && quad == 6 && nodes.size() == 8) return Cell_type::HEX;
  return Cell_type::POLYHED;
}

// next node after a in loop l
int after(Loop const &l, int a) {
  for (size_t i = 0; i < l.size(); ++i) if (l[i] == a) return l[(i + 1) % l.size()];
  return -1;
}

// Nodes of a standard cell in Exodus order, from its outward loops
ints std_nodes(Poly const &p, Cell_type ct, Gen &g) {
  if (ct == Cell_type::TET) {
    Loop b = p[g.draw(4)];            // outward loop: seen from the fourth node it is cw
    std::set<int> s;
    for (auto &l : p) s.insert(l.begin(), l.end());
    for (int n : b) s.erase(n);
    return {b[0], b[2], b[1], *s.begin()};
  }
  std::vector<int> bases;
  for (size_t i = 0; i < p.size(); ++i) {
    if (ct == Cell_type::HEX) bases.push_back(i);
    if (ct == Cell_type::PRISM && p[i].size() == 3) bases.push_back(i);
    if (ct == Cell_type::PYRAMID && p[i].size() == 4) bases.push_back(i);
  }
  Loop b = p[g.pick(bases)];
  std::reverse(b.begin(), b.end());
  std::rotate(b.begin(), b.begin() + g.draw(b.size()), b.end());
  ints r = b;
  if (ct == Cell_type::PYRAMID) {
    std::set<int> s;
    for (auto &l : p) s.insert(l.begin(), l.end());
    for (int n : b) s.erase(n);
    r.push_back(*s.begin());
    return r;
  }
  for (int n : b) {       // the neighbour of n that is not in the base
    int up = -1;
    for (auto &l : p) {
      int a = after(l, n);
      if (a >= 0 && !std::count(b.begin(), b.end(), a)) up = a;
    }
    r.push_back(up);
  }
  return r;
}

// Faces of standard cells in Exodus order, as node positions
std::vector<ints> std_faces(Cell_type ct) {
  switch (ct) {
    case Cell_type::TET: return {{0, 1, 3}, {1, 2, 3}, {0, 3, 2}, {0, 2, 1}};
    case Cell_type::PYRAMID: return {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {0, 3, 2, 1}};
    case Cell_type::PRISM:
      return {{0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {0, 2, 1}, {3, 4, 5}};
    case Cell_type::HEX:
      return {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {0, 3, 2, 1}, {4, 5, 6, 7}};
    default: return {};
  }
}

V3 average(Raw const &r, ints const &l) {
  V3 a;
  for (int n : l) a = a + r.x[n] / (long double)l.size();
  return a;
}

Raw grid2(Gen &g, int nx, int ny, bool ops) {
  Raw r;
  r.mdim = 2;
  std::vector<double> gx(1, 0.), gy(1, 0.);
  for (int i = 0; i < nx; ++i) gx.push_back(gx.back() + (g.flip() ? 1 : g.real(0.6, 1.6)));
  for (int i = 0; i < ny; ++i) gy.push_back(gy.back() + (g.flip() ? 1 : g.real(0.6, 1.6)));
  for (int j = 0; j <= ny; ++j)
    for (int i = 0; i <= nx; ++i) r.x.push_back({(long double)gx[i], (long double)gy[j], 0});
  auto N = [&](int i, int j) { return j * (nx + 1) + i; };
  std::vector<int> done(nx * ny, 0);
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      if (done[j * nx + i]) continue;
      Loop q = {N(i, j), N(i + 1, j), N(i + 1, j + 1), N(i, j + 1)};
      int op = ops ? g.draw(8) : 0;
      if (op == 1 || op == 2) {
        int k = op - 1;
        r.cells.push_back({{q[k], q[k + 1], q[k + 2]}});
        r.cells.push_back({{q[k], q[k + 2], q[(k + 3) % 4]}});
      } else if (op == 3) {
        int m = r.x.size();
        r.x.push_back(average(r, q));
        for (int k = 0; k < 4; ++k) r.cells.push_back({{q[k], q[(k + 1) % 4], m}});
      } else if (op == 4 && i + 1 < nx && !done[j * nx + i + 1]) {
        done[j * nx + i + 1] = 1;
        r.cells.push_back({{q[0], q[1], N(i + 2, j), N(i + 2, j + 1), q[2], q[3]}});
      } else {
        r.cells.push_back({q});
      }
    }
  if (ops) {
    bool crowd = g.chance(1, 16);             // many of them on one cell
    int one = g.draw(r.cells.size());
    for (int k = crowd ? g.chance(1, 8) ? g.range(30, 75) : g.range(4, 16) : g.draw(4); k > 0; --k) {     // extra nodes on edges
      Loop l = r.cells[crowd && g.chance(3, 4) ? one : g.draw(r.cells.size())][0];
      int i = g.draw(l.size()), a = l[i], b = l[(i + 1) % l.size()];
      int m = r.x.size();
      r.x.push_back(0.5L * (r.x[a] + r.x[b]));
      for (auto &cl : r.cells) {
        Loop &q = cl[0];
        for (size_t p = 0; p < q.size(); ++p) {
          int u = q[p], v = q[(p + 1) % q.size()];
          if ((u == a && v == b) || (u == b && v == a)) {
            q.insert(q.begin() + p + 1, m);
            break;
          }
        }
      }
    }
    if (crowd && g.flip()) {                  // a node where many cells meet
      Loop q = r.cells[one][0];
      int m = r.x.size();
      r.x.push_back(average(r, q));
      for (size_t k = 0; k < q.size(); ++k) {
        std::vector<Loop> tri = {{q[k], q[(k + 1) % q.size()], m}};
        if (k == 0) r.cells[one] = tri; else r.cells.push_back(tri);
      }
    }
  }
  return r;
}

Raw extrude(Gen &g, Raw const &b, int nz) {
  Raw r;
  r.mdim = 3;
  int n = b.x.size();
  long double z = 0;
  for (int k = 0; k <= nz; ++k) {
    for (auto p : b.x) { p.z = z; r.x.push_back(p); }
    z += g.flip() ? 1 : g.real(0.6, 1.6);
  }
  for (int k = 0; k < nz; ++k)
    for (auto &cl : b.cells) {
      Loop const &l = cl[0];
      Poly p;
      Loop bot, top;
      for (int v : l) { bot.push_back(v + k * n); top.push_back(v + (k + 1) * n); }
      for (size_t i = 0; i < l.size(); ++i) {
        size_t j = (i + 1) % l.size();
        p.push_back({bot[i], bot[j], top[j], top[i]});
      }
      std::reverse(bot.begin(), bot.end());
      p.push_back(bot);
      p.push_back(top);
      r.cells.push_back(p);
    }
  return r;
}

void kuhn(Raw *r) {            // hexes of a grid into 6 tets each
  std::vector<Poly> out;
  for (auto &p : r->cells) {
    std::set<int> s;
    for (auto &l : p) s.insert(l.begin(), l.end());
    ints v(s.begin(), s.end());         // sorted IDs are in lattice order
    auto at = [&](int m) { return v[m]; };   // bit 0: x, bit 1: y, bit 2: z
    int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &q : perm) {
      int m1 = 1 << q[0], m2 = m1 | 1 << q[1];
      int a = at(0), b = at(m1), c = at(m2), d = at(7);
      V3 A = r->x[a];
      if (dot(cross(r->x[b] - A, r->x[c] - A), r->x[d] - A) < 0) std::swap(b, c);
      out.push_back({{a, c, b}, {a, b, d}, {b, c, d}, {a, d, c}});
    }
  }
  r->cells = out;
}

void cone(Raw *r, int c) {
  Poly p = r->cells[c];
  std::set<int> s;
  for (auto &l : p) s.insert(l.begin(), l.end());
  int m = r->x.size();
  r->x.push_back(average(*r, ints(s.begin(), s.end())));
  r->cells.erase(r->cells.begin() + c);
  for (auto &l : p) {
    Poly q = {l};
    for (size_t i = 0; i < l.size(); ++i) q.push_back({l[(i + 1) % l.size()], l[i], m});
    r->cells.push_back(q);
  }
}

void split_face(Raw *r, Gen &g, int c) {
  Poly &p = r->cells[c];
  int f = g.draw(p.size());
  Loop l = p[f];
  if (l.size() < 4) return;
  int i = g.draw(l.size() - 2), j = i + 2 + g.draw(l.size() - 2 - i - (i == 0 ? 1 : 0));
  if (j >= (int)l.size()) return;
  Loop A(l.begin() + i, l.begin() + j + 1), B(l.begin() + j, l.end());
  B.insert(B.end(), l.begin(), l.begin() + i + 1);
  ints k = key(l);
  for (auto &cl : r->cells)
    for (size_t q = 0; q < cl.size(); ++q)
      if (key(cl[q]) == k) {
        bool same = after(cl[q], l[0]) == l[1];
        Loop a = A, b = B;
        if (!same) { std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); }
        cl[q] = a;
        cl.push_back(b);
        break;
      }
}

void merge_cells(Raw *r, Gen &g) {
  int a = g.draw(r->cells.size());
  std::vector<std::pair<int, int>> nb;     // (cell, number of shared faces)
  std::set<ints> ka;
  for (auto &l : r->cells[a]) ka.insert(key(l));
  for (int b = 0; b < (int)r->cells.size(); ++b) {
    if (b == a) continue;
    int n = 0;
    for (auto &l : r->cells[b]) n += ka.count(key(l));
    if (n == 1) nb.push_back({b, n});
  }
  if (nb.empty()) return;
  int b = nb[g.draw(nb.size())].first;
  std::set<ints> kb;
  for (auto &l : r->cells[b]) kb.insert(key(l));
  Poly m;
  for (auto &l : r->cells[a]) if (!kb.count(key(l))) m.push_back(l);
  for (auto &l : r->cells[b]) if (!ka.count(key(l))) m.push_back(l);
  // no node may be left inside: all nodes must still be used, and no two faces
  // may share more than one edge with different cells only through nodes
  r->cells[a] = m;
  r->cells.erase(r->cells.begin() + b);
}

void edge_node(Raw *r, Gen &g) {
  Loop l = r->cells[g.draw(r->cells.size())][0];
  int i = g.draw(l.size()), a = l[i], b = l[(i + 1) % l.size()];
  int m = r->x.size();
  r->x.push_back(0.5L * (r->x[a] + r->x[b]));
  for (auto &cl : r->cells)
    for (auto &q : cl)
      for (size_t p = 0; p < q.size(); ++p) {
        int u = q[p], v = q[(p + 1) % q.size()];
        if ((u == a && v == b) || (u == b && v == a)) {
          q.insert(q.begin() + p + 1, m);
          break;
        }
      }
}

// Tables from raw cells, with random numbering, orientation and ownership
Topo build(Raw const &r, int sdim, Gen &g, GenOpts const &o) {
  Topo t;
  t.sdim = sdim;
  t.mdim = r.mdim;
  int nn = r.x.size(), nc = r.cells.size();

  // cell ownership first, since owned cells come first in the numbering
  std::vector<Entity_type> ctype(nc, Entity_type::PARALLEL_OWNED);
  bool par = false;
  if (o.ghosts && g.chance(1, 2)) {
    par = true;
    for (int c = 0; c < nc; ++c) if (g.chance(1, 3)) ctype[c] = Entity_type::PARALLEL_GHOST;
  }
  if (o.bghosts && o.ghosts && g.chance(1, 3))
    for (int c = 0; c < nc; ++c) if (g.chance(1, 5)) ctype[c] = Entity_type::BOUNDARY_GHOST;
  if (std::count(ctype.begin(), ctype.end(), Entity_type::PARALLEL_OWNED) == 0)
    ctype[0] = Entity_type::PARALLEL_OWNED;

  auto rank = [](Entity_type e) {
    return e == Entity_type::PARALLEL_OWNED ? 0 : e == Entity_type::PARALLEL_GHOST ? 1 : 2;
  };
  bool scramble = g.chance(3, 4);
  auto perm = [&](std::vector<Entity_type> const &ty) {    // old -> new
    ints old(ty.size());
    for (size_t i = 0; i < old.size(); ++i) old[i] = i;
    if (scramble) g.shuffle(old);
    std::stable_sort(old.begin(), old.end(), [&](int a, int b) { return rank(ty[a]) < rank(ty[b]); });
    ints nw(old.size());
    for (size_t i = 0; i < old.size(); ++i) nw[old[i]] = i;
    return nw;
  };
  // nodes, faces and edges are owned only if an owned cell uses them
  auto mktype = [&](std::vector<char> const &touched) {
    std::vector<Entity_type> ty(touched.size(), Entity_type::PARALLEL_OWNED);
    for (size_t i = 0; i < ty.size(); ++i)
      if (!touched[i] || (par && g.chance(1, 5))) ty[i] = Entity_type::PARALLEL_GHOST;
    return ty;
  };

  // faces and edges in raw numbering
  std::map<ints, int> fid;
  std::vector<Loop> faces;
  std::vector<std::vector<std::pair<int, int>>> cf(nc);
  std::map<std::pair<int, int>, int> eid;
  std::vector<std::array<int, 2>> edges;
  auto edge = [&](int a, int b) {
    std::pair<int, int> k(std::min(a, b), std::max(a, b));
    auto it = eid.find(k);
    if (it != eid.end()) return it->second;
    int e = edges.size();
    eid[k] = e;
    edges.push_back({{a, b}});
    return e;
  };
  for (int c = 0; c < nc; ++c) {
    Poly loops = r.cells[c];
    if (r.mdim == 2) {
      Loop l = loops[0];
      loops.clear();
      for (size_t i = 0; i < l.size(); ++i) loops.push_back({l[i], l[(i + 1) % l.size()]});
    }
    for (auto &l : loops) {
      ints k = key(l);
      auto it = fid.find(k);
      if (it == fid.end()) {
        fid[k] = faces.size();
        cf[c].push_back({(int)faces.size(), 1});
        faces.push_back(l);
      } else {
        cf[c].push_back({it->second, -1});
      }
      for (size_t i = 0; i < l.size(); ++i) edge(l[i], l[(i + 1) % l.size()]);
    }
  }
  int nf = faces.size(), ne = edges.size();
  std::vector<char> tn(nn, 0), tf(nf, 0), te(ne, 0);
  for (int c = 0; c < nc; ++c)
    if (ctype[c] == Entity_type::PARALLEL_OWNED)
      for (auto &fd : cf[c]) {
        tf[fd.first] = 1;
        Loop &l = faces[fd.first];
        for (size_t i = 0; i < l.size(); ++i) { tn[l[i]] = 1; te[edge(l[i], l[(i + 1) % l.size()])] = 1; }
      }
  std::vector<Entity_type> ty[4] = {mktype(tn), mktype(te), mktype(tf), ctype};
  ints pn = perm(ty[0]), pe = perm(ty[1]), pf = perm(ty[2]), pc = perm(ty[3]);
  ints const *pp[4] = {&pn, &pe, &pf, &pc};
  for (int k = 0; k < 4; ++k) {
    int n = pp[k]->size();
    t.type[k].resize(n);
    for (int i = 0; i < n; ++i) t.type[k][(*pp[k])[i]] = ty[k][i];
    t.gid[k].resize(n);
    ints q(n);
    for (int i = 0; i < n; ++i) q[i] = 5 + 3 * i;
    if (scramble) g.shuffle(q);
    t.gid[k] = q;
  }
  t.x.resize(nn);
  for (int i = 0; i < nn; ++i) t.x[pn[i]] = r.x[i];

  // orientation of edges and faces
  bool orient = g.chance(3, 4);
  std::vector<int> fflip(nf, 0);
  t.fn.resize(nf);
  for (int f = 0; f < nf; ++f) {
    Loop l = faces[f];
    for (int &v : l) v = pn[v];
    if (orient) {
      fflip[f] = g.flip();
      if (fflip[f]) std::reverse(l.begin(), l.end());
      if (r.mdim == 3) std::rotate(l.begin(), l.begin() + g.draw(l.size()), l.end());
    }
    t.fn[pf[f]] = l;
  }
  t.en.resize(ne);
  std::map<std::pair<int, int>, int> e2;     // (from, to) -> +-(edge + 1)
  for (int e = 0; e < ne; ++e) {
    int a = pn[edges[e][0]], b = pn[edges[e][1]];
    bool flip = r.mdim == 3 && orient && g.flip();
    if (r.mdim == 2) {           // an edge is the face itself
      Loop const &l = t.fn[pf[fid[key({edges[e][0], edges[e][1]})]]];
      a = l[0];
      b = l[1];
    }
    if (flip) std::swap(a, b);
    t.en[pe[e]] = {{a, b}};
    e2[{a, b}] = pe[e] + 1;
    e2[{b, a}] = -(pe[e] + 1);
  }
  t.fe.resize(nf);
  for (int f = 0; f < nf; ++f) {
    Loop const &l = t.fn[f];
    if (r.mdim == 2) {
      t.fe[f] = {{e2[{l[0], l[1]}] - 1, 1}};
    } else {
      for (size_t i = 0; i < l.size(); ++i) {
        int s = e2[{l[i], l[(i + 1) % l.size()]}];
        t.fe[f].push_back({std::abs(s) - 1, s > 0 ? 1 : -1});
      }
    }
  }

  t.cf.resize(nc); t.cfo.resize(nc); t.cn.resize(nc); t.ct.resize(nc); t.ce.resize(nc);
  for (int c = 0; c < nc; ++c) {
    int C = pc[c];
    for (auto &fd : cf[c])
      t.cf[C].push_back({pf[fd.first], fflip[fd.first] ? -fd.second : fd.second});
    t.cfo[C] = t.cf[C];
    if (r.mdim == 2) {
      Loop l = r.cells[c][0];
      for (int &v : l) v = pn[v];
      int rot = orient ? g.draw(l.size()) : 0;
      std::rotate(l.begin(), l.begin() + rot, l.end());
      std::rotate(t.cfo[C].begin(), t.cfo[C].begin() + rot, t.cfo[C].end());
      t.cf[C] = t.cfo[C];
      t.cn[C] = l;
      t.ct[C] = l.size() == 3 ? Cell_type::TRI : l.size() == 4 ? Cell_type::QUAD : Cell_type::POLYGON;
      for (size_t i = 0; i < l.size(); ++i) {
        int s = e2[{l[i], l[(i + 1) % l.size()]}];
        t.ce[C].push_back({std::abs(s) - 1, s > 0 ? 1 : -1});
      }
    } else {
      Poly p = r.cells[c];
      std::map<ints, std::pair<int, int>> byk;
      for (size_t i = 0; i < p.size(); ++i) {
        for (int &v : p[i]) v = pn[v];
        byk[key(p[i])] = t.cf[C][i];
      }
      t.ct[C] = classify3(p);
      if (t.ct[C] != Cell_type::POLYHED) {   // unless it only has the right numbers of faces
        t.cn[C] = std_nodes(p, t.ct[C], g);
        t.cfo[C].clear();
        for (auto &fl : std_faces(t.ct[C])) {
          ints k;
          for (int i : fl) k.push_back(t.cn[C][i]);
          auto it = byk.find(key(k));
          if (it == byk.end()) { t.ct[C] = Cell_type::POLYHED; break; }
          t.cfo[C].push_back(it->second);
        }
      }
      if (t.ct[C] == Cell_type::POLYHED) {
        std::set<int> s;
        for (auto &l : p) s.insert(l.begin(), l.end());
        t.cn[C] = ints(s.begin(), s.end());
        if (scramble) g.shuffle(t.cn[C]);
      }
      if (scramble) g.shuffle(t.cf[C]);
      if (t.ct[C] == Cell_type::POLYHED) t.cfo[C] = t.cf[C];
      std::set<int> es;
      for (auto &fd : t.cf[C]) for (auto &e : t.fe[fd.first]) es.insert(e.first);
      ints el(es.begin(), es.end());
      if (scramble) g.shuffle(el);
      for (int e : el) t.ce[C].push_back({e, 0});
    }
  }
  derive(&t);
  return t;
}

V3 rotate(V3 p, long double const R[3][3]) {
  return {R[0][0] * p.x + R[0][1] * p.y + R[0][2] * p.z, R[1][0] * p.x + R[1][1] * p.y + R[1][2] * p.z,
          R[2][0] * p.x + R[2][1] * p.y + R[2][2] * p.z};
}

double dround(long double v) { return static_cast<double>(v); }

}  // namespace

bool move_nodes(Gen &g, Topo *t, bool keep_flat) {
  std::vector<V3> x0 = t->x;
  long double h = cell_size(*t);
  int mode = g.draw(5);
  if (keep_flat) mode = 2;
  std::vector<V3> d(x0.size());
  if (mode > 2) {             // one node, or two by opposite amounts
    size_t i = g.draw(x0.size()), j = g.draw(x0.size());
    V3 v = {g.real(-.3, .3) * h, g.real(-.3, .3) * h, t->sdim == 3 ? g.real(-.3, .3) * h : 0};
    d[i] = v;
    if (mode == 4 && j != i) d[j] = -1.0L * v;
  } else
  if (mode < 2) {
    for (auto &v : d)
      if (mode == 0 || g.chance(1, 4))
        v = {g.real(-.3, .3) * h, g.real(-.3, .3) * h, t->sdim == 3 ? g.real(-.3, .3) * h : 0};
    if (t->sdim == 2) for (auto &v : d) v.z = 0;
  } else {                    // affine map close to the identity
    long double A[3][3];
    for (auto &r : A) for (auto &a : r) a = g.real(-.25, .25);
    V3 c, s = {g.real(-1, 1) * h, g.real(-1, 1) * h, g.real(-1, 1) * h};
    for (auto &p : x0) c = c + p / (long double)x0.size();
    for (size_t i = 0; i < x0.size(); ++i) {
      V3 q = x0[i] - c;
      d[i] = rotate(q, A) + s;
      if (t->sdim == 2) d[i].z = 0;
    }
    if (t->sdim == 2 && t->mdim == 2)
      for (size_t i = 0; i < x0.size(); ++i) d[i].z = 0;
  }
  long double f = 1;
  for (int k = 0; k < 5; ++k, f *= 0.4L) {
    for (size_t i = 0; i < x0.size(); ++i) {
      V3 p = x0[i] + f * d[i];
      t->x[i] = {dround(p.x), dround(p.y), dround(p.z)};
    }
    if (topo_valid(*t)) return true;
  }
  t->x = x0;
  return false;
}

Topo gen_topo(Gen &g, Ctx &c, GenOpts o) {
  int mdim = o.mdim, sdim = o.sdim;
  if (!mdim) mdim = g.flip() ? 3 : 2;
  if (!sdim) sdim = mdim;
  Raw r;
  int mx = o.maxcells ? o.maxcells : (o.big ? 60 : mdim == 3 ? 12 : 24);
  bool huge = g.chance(1, 60);
  bool vast = huge && g.chance(1, 15);
  if (huge) mx = std::max(mx, mdim == 3 ? vast ? 280 : 60 : vast ? 500 : 120);
  std::string kind;
  if (mdim == 2) {
    int lim = vast ? 120 : huge ? 16 : o.big ? 7 : 4;
    int nx = g.range(1, lim), ny = g.range(1, lim);
    while (nx * ny > mx) { if (nx > ny) nx--; else ny--; }
    bool ops = g.chance(3, 4);
    r = grid2(g, nx, ny, ops);
    kind = ops ? "2D mixed polygons" : "2D quads";
  } else {
    int how = g.draw(6);
    int lim = vast ? 40 : huge ? 8 : o.big ? 4 : 3;
    int nx = g.range(1, lim), ny = g.range(1, lim), nz = g.range(1, lim);
    while (nx * ny * nz > mx) { if (nx >= ny && nx >= nz) nx--; else if (ny >= nz) ny--; else nz--; }
    if (how == 5) {
      r = extrude(g, grid2(g, nx, ny, true), nz);
      kind = "3D extruded polygons";
      if (g.chance(1, 8)) cone(&r, g.draw(r.cells.size()));
    } else if (how == 4) {
      while (nx * ny * nz > std::max(1, mx / 4)) {
        if (nx >= ny && nx >= nz) nx--; else if (ny >= nz) ny--; else nz--;
      }
      r = extrude(g, grid2(g, nx, ny, false), nz);
      kuhn(&r);
      kind = "3D tets";
    } else {
      r = extrude(g, grid2(g, nx, ny, false), nz);
      kind = "3D hexes";
      if (how >= 1) {
        kind = "3D mixed polyhedra";
        bool crowd = g.chance(1, 16);         // cells of many faces, nodes of many cells
        for (int k = crowd ? g.range(4, 14) : g.draw(4); k > 0; --k) {
          int op = crowd && k > 1 ? (int)g.range(1, 3) : (int)g.draw(4), cc = crowd ? 0 : g.draw(r.cells.size());
          if (op == 0 && r.cells[cc].size() > 4) cone(&r, cc);
          if (op == 1) split_face(&r, g, cc);
          if (op == 2) edge_node(&r, g);
          if (op == 3 && r.cells.size() > 1) {
            Raw save = r;
            merge_cells(&r, g);
            // all merged cells must be topological balls with every node kept
            std::set<int> used;
            for (auto &cl : r.cells) for (auto &l : cl) used.insert(l.begin(), l.end());
            bool ok = used.size() == r.x.size();
            for (auto &cl : r.cells) {
              std::map<std::pair<int, int>, int> ec;
              std::set<int> ns;
              for (auto &l : cl)
                for (size_t i = 0; i < l.size(); ++i) {
                  int a = l[i], b = l[(i + 1) % l.size()];
                  ec[{std::min(a, b), std::max(a, b)}]++;
                  ns.insert(a);
                }
              for (auto &e : ec) if (e.second != 2) ok = false;
              if ((int)ns.size() - (int)ec.size() + (int)cl.size() != 2) ok = false;
            }
            if (!ok) r = save;
          }
        }
      }
    }
  }
  bool perturb = g.chance(3, 4) && !(o.flat && mdim == 3 && kind != "3D tets");
  double amp = perturb ? g.real(0.02, 0.3) : 0;
  std::vector<V3> base = r.x, d(r.x.size());
  if (perturb)
    for (auto &v : d)
      v = {g.real(-1, 1), g.real(-1, 1), mdim == 3 ? g.real(-1, 1) : 0};
  // extra nodes lie on edges or in the middle of cells; they are perturbed like others

  // placement: rotation (2D: in the plane), shear, scale, shift
  long double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  bool place = g.chance(2, 3);
  V3 shift;
  long double sc = 1;
  if (place) {
    sc = std::pow(10.0, g.range(0, 4) - 2.0);
    shift = {sc * some_real(g, -3, 3), sc * some_real(g, -3, 3), sc * some_real(g, -3, 3)};
    double a = g.real(0, 6.3), b = sdim == 3 ? g.real(0, 6.3) : 0, e = sdim == 3 ? g.real(0, 6.3) : 0;
    long double ca = cosl(a), sa = sinl(a), cb = cosl(b), sb = sinl(b), ce = cosl(e), se = sinl(e);
    long double Z[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}};
    long double Y[3][3] = {{cb, 0, sb}, {0, 1, 0}, {-sb, 0, cb}};
    long double X[3][3] = {{1, 0, 0}, {0, ce, -se}, {0, se, ce}};
    long double T[3][3];
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        T[i][j] = 0;
        for (int k = 0; k < 3; ++k) T[i][j] += Y[i][k] * X[k][j];
      }
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        R[i][j] = 0;
        for (int k = 0; k < 3; ++k) R[i][j] += Z[i][k] * T[k][j];
      }
  }
  if (o.scales && g.chance(1, 6)) {
    long double s = std::pow(10.0, g.range(0, 18) - 9.0);
    shift = s / sc * shift;
    sc = s;
  }
  double sh = g.chance(1, 3) ? g.real(-.5, .5) : 0;
  // a surface is bent along the grid lines of x, or freely
  int bend = (mdim == 2 && sdim == 3) ? (o.flat ? g.draw(2) : g.draw(3)) : 0;
  double amp2 = g.real(-.6, .6);

  // decide ownership and numbering once, on the raw cells
  for (int k = 0; k < 6; ++k) {
    double am = k == 5 ? 0 : amp * std::pow(0.5, k);
    for (size_t i = 0; i < base.size(); ++i) {
      V3 p = base[i] + am * d[i];
      p.x += sh * p.y;
      if (bend == 1) p.z += amp2 * p.x;
      if (bend == 2) p.z += amp2 * p.x * p.x * 0.3L + (k == 5 ? 0 : 0.2L * sinl(p.y));
      p = sc * rotate(p, R) + shift;
      r.x[i] = {dround(p.x), dround(p.y), sdim == 3 ? dround(p.z) : 0};
    }
    // cheap validity check on an identity-numbered copy
    Topo t;
    t.sdim = sdim;
    t.mdim = mdim;
    t.x = r.x;
    for (auto &cl : r.cells) {
      std::vector<std::pair<int, int>> cf;
      std::set<int> s;
      if (mdim == 2) {
        Loop const &l = cl[0];
        for (size_t i = 0; i < l.size(); ++i) {
          cf.push_back({(int)t.fn.size(), 1});
          t.fn.push_back({l[i], l[(i + 1) % l.size()]});
        }
        t.cn.push_back(l);
      } else {
        for (auto &l : cl) {
          cf.push_back({(int)t.fn.size(), 1});
          t.fn.push_back(l);
          s.insert(l.begin(), l.end());
        }
        t.cn.push_back(ints(s.begin(), s.end()));
      }
      t.cf.push_back(cf);
    }
    if (topo_valid(t)) {
      c.label(kind);
      return build(r, sdim, g, o);
    }
    if (!perturb && k == 0) k = 4;
  }
  throw pbt::Discard();
}

std::string topo_summary(Topo const &t) {
  std::ostringstream os;
  std::map<std::string, int> n;
  for (auto ct : t.ct) n[Jali::Cell_type_string(ct).substr(11)]++;
  os << t.mdim << "D mesh in " << t.sdim << "D: " << t.cn.size() << " cells (";
  bool first = true;
  for (auto &p : n) { os << (first ? "" : ", ") << p.second << " " << p.first; first = false; }
  os << "), " << t.x.size() << " nodes, " << t.fn.size() << " faces, " << t.en.size()
     << " edges; cells owned/ghost/boundary ghost "
     << t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size() << "/"
     << t.list(Entity_kind::CELL, Entity_type::PARALLEL_GHOST).size() << "/"
     << t.list(Entity_kind::CELL, Entity_type::BOUNDARY_GHOST).size();
  return os.str();
}

MeshOpts gen_mesh_opts(Gen &g) {
  MeshOpts m;
  switch (g.draw(6)) {
    case 0: m.edges = m.sides = m.wedges = m.corners = true; break;
    case 1: m.corners = true; break;          // the rest is implied
    case 2: m.wedges = true; break;
    case 3: m.sides = true; m.faces = false; break;
    case 4: m.edges = true; break;
    default: break;
  }
  return m;
}

// ---------------------------------------------------------------- GenMesh

GenMesh::GenMesh(Topo const &t, MeshOpts const &o)
    : Jali::Mesh(o.faces, o.edges, o.sides, o.wedges, o.corners, o.tiles, o.tile_layers, 0,
                 false, o.part, JaliGeometry::Geom_type::CARTESIAN, MPI_COMM_WORLD),
      t_(t) {
  set_space_dimension(t.sdim);
  set_manifold_dimension(t.mdim);
  set_mesh_type(Jali::Mesh_type::GENERAL);
  set_geometric_model(o.gm);
  auto fill = [&](Entity_kind k, std::vector<int> &own, std::vector<int> &gh, std::vector<int> &all) {
    own = t.list(k, Entity_type::PARALLEL_OWNED);
    gh = t.list(k, Entity_type::PARALLEL_GHOST);
    all = own;
    all.insert(all.end(), gh.begin(), gh.end());
  };
  fill(Entity_kind::NODE, nodeids_owned_, nodeids_ghost_, nodeids_all_);
  if (edges_requested) fill(Entity_kind::EDGE, edgeids_owned_, edgeids_ghost_, edgeids_all_);
  if (faces_requested) fill(Entity_kind::FACE, faceids_owned_, faceids_ghost_, faceids_all_);
  fill(Entity_kind::CELL, cellids_owned_, cellids_ghost_, cellids_all_);
  cellids_boundary_ghost_ = t.list(Entity_kind::CELL, Entity_type::BOUNDARY_GHOST);
  cellids_all_.insert(cellids_all_.end(), cellids_boundary_ghost_.begin(),
                      cellids_boundary_ghost_.end());
  cache_extra_variables();
  if (o.tiles) build_tiles();
}

Entity_ID GenMesh::GID(const Entity_ID lid, const Entity_kind kind) const {
  return t_.gid[static_cast<int>(kind)][lid];
}
void GenMesh::node_get_cells(const Entity_ID n, const Entity_type ty, Entity_ID_List *r) const {
  r->clear();
  for (int c : t_.nc[n]) if (t_.of_type(Entity_kind::CELL, c, ty)) r->push_back(c);
}
void GenMesh::node_get_faces(const Entity_ID n, const Entity_type ty, Entity_ID_List *r) const {
  r->clear();
  for (int f : t_.nf[n]) if (t_.of_type(Entity_kind::FACE, f, ty)) r->push_back(f);
}
void GenMesh::node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type ty,
                                  Entity_ID_List *r) const {
  r->clear();
  for (auto &fd : t_.cf[c]) {
    ints const &l = t_.fn[fd.first];
    if (std::count(l.begin(), l.end(), n) && t_.of_type(Entity_kind::FACE, fd.first, ty))
      r->push_back(fd.first);
  }
}
void GenMesh::cell_get_face_adj_cells(const Entity_ID c, const Entity_type ty,
                                      Entity_ID_List *r) const {
  r->clear();
  for (auto &fd : t_.cf[c])
    for (int o : t_.fc[fd.first])
      if (o != c && t_.of_type(Entity_kind::CELL, o, ty)) r->push_back(o);
}
void GenMesh::cell_get_node_adj_cells(const Entity_ID c, const Entity_type ty,
                                      Entity_ID_List *r) const {
  std::set<int> s;
  for (int n : t_.cn[c])
    for (int o : t_.nc[n]) if (o != c && t_.of_type(Entity_kind::CELL, o, ty)) s.insert(o);
  r->assign(s.begin(), s.end());
}
void GenMesh::node_get_coordinates(const Entity_ID n, Point *p) const { *p = pt(t_.x[n], t_.sdim); }
void GenMesh::face_get_coordinates(const Entity_ID f, std::vector<Point> *r) const {
  r->clear();
  for (int n : t_.fn[f]) r->push_back(pt(t_.x[n], t_.sdim));
}
void GenMesh::cell_get_coordinates(const Entity_ID c, std::vector<Point> *r) const {
  r->clear();
  for (int n : t_.cn[c]) r->push_back(pt(t_.x[n], t_.sdim));
}
void GenMesh::node_set_coordinates(const Entity_ID n, const Point p) { t_.x[n] = v3(p); }
void GenMesh::node_set_coordinates(const Entity_ID n, const double *p) {
  t_.x[n] = {p[0], p[1], t_.sdim == 3 ? p[2] : 0};
}
void GenMesh::cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List *f,
                                               std::vector<dir_t> *d, const bool ordered) const {
  f->clear();
  if (d) d->clear();
  for (auto &fd : (ordered ? t_.cfo : t_.cf)[c]) {
    f->push_back(fd.first);
    if (d) d->push_back(fd.second);
  }
}
void GenMesh::face_get_cells_internal(const Entity_ID f, const Entity_type ty,
                                      Entity_ID_List *r) const {
  r->clear();
  for (int c : t_.fc[f]) if (t_.of_type(Entity_kind::CELL, c, ty)) r->push_back(c);
}
void GenMesh::face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List *e,
                                               std::vector<dir_t> *d, const bool) const {
  e->clear();
  if (d) d->clear();
  for (auto &p : t_.fe[f]) {
    e->push_back(p.first);
    if (d) d->push_back(p.second);
  }
}
void GenMesh::cell_get_edges_internal(const Entity_ID c, Entity_ID_List *e) const {
  e->clear();
  for (auto &p : t_.ce[c]) e->push_back(p.first);
}
void GenMesh::cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List *e,
                                                  std::vector<dir_t> *d) const {
  e->clear();
  d->clear();
  for (auto &p : t_.ce[c]) { e->push_back(p.first); d->push_back(p.second); }
}
void GenMesh::edge_get_nodes_internal(const Entity_ID e, Entity_ID *a, Entity_ID *b) const {
  *a = t_.en[e][0];
  *b = t_.en[e][1];
}
void GenMesh::get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr r,
                                       const Entity_kind k, Entity_ID_List *own,
                                       Entity_ID_List *gh) const {
  own->clear();
  gh->clear();
  auto it = t_.labels.find({r->label(), static_cast<int>(k)});
  if (it == t_.labels.end()) return;
  for (int i : it->second)
    (t_.etype(k, i) == Entity_type::PARALLEL_OWNED ? own : gh)->push_back(i);
}

// field store: integers, reals, VECTOR (space dimension) and TENSOR (symmetric) fields
bool GenMesh::storable(Entity_kind k) const {
  return k == Entity_kind::NODE || k == Entity_kind::FACE || k == Entity_kind::CELL;
}
bool GenMesh::put(std::string const &n, Entity_kind k, std::string const &type, int const *i,
                  double const *d, int ncomp) {
  stores++;
  if (!storable(k)) return false;
  for (auto &f : fields)     // a name is taken by one kind and type
    if (f.first.first == n && (f.first.second != static_cast<int>(k) || f.second.type != type))
      return false;
  int ne = t_.count(k);
  if (static_cast<int>(num_entities(k, Entity_type::ALL)) != ne) return false;
  Stored s;
  s.type = type;
  s.ncomp = ncomp;
  if (i) s.i.assign(i, i + ne);
  if (d) s.d.assign(d, d + ne * ncomp);
  std::pair<std::string, int> key(n, static_cast<int>(k));
  if (!fields.count(key)) field_order.push_back(key);
  fields[key] = s;
  return true;
}
bool GenMesh::fetch(std::string const &n, Entity_kind k, std::string const &type, int *i, double *d,
                    int ncomp) const {
  auto it = fields.find({n, static_cast<int>(k)});
  if (it == fields.end() || it->second.type != type || it->second.ncomp != ncomp) return false;
  if (i) std::copy(it->second.i.begin(), it->second.i.end(), i);
  if (d) std::copy(it->second.d.begin(), it->second.d.end(), d);
  return true;
}
void GenMesh::get_field_info(Entity_kind on, int *num, std::vector<std::string> *names,
                             std::vector<std::string> *types) const {
  names->clear();
  types->clear();
  for (auto &k : field_order)
    if (k.second == static_cast<int>(on)) {
      names->push_back(k.first);
      types->push_back(fields.at(k).type);
    }
  *num = names->size();
}
bool GenMesh::store_field(std::string n, Entity_kind k, int *d) { return put(n, k, "INT", d, nullptr, 1); }
bool GenMesh::store_field(std::string n, Entity_kind k, double *d) { return put(n, k, "DOUBLE", nullptr, d, 1); }
bool GenMesh::store_field(std::string n, Entity_kind k, std::array<double, 2ul> *d) {
  return t_.sdim == 2 && put(n, k, "VECTOR", nullptr, d->data(), 2);
}
bool GenMesh::store_field(std::string n, Entity_kind k, std::array<double, 3ul> *d) {
  return t_.sdim > 1 && put(n, k, t_.sdim == 3 ? "VECTOR" : "TENSOR", nullptr, d->data(), 3);
}
bool GenMesh::store_field(std::string n, Entity_kind k, std::array<double, 6ul> *d) {
  return t_.sdim == 3 && put(n, k, "TENSOR", nullptr, d->data(), 6);
}
bool GenMesh::get_field(std::string n, Entity_kind k, int *d) const { return fetch(n, k, "INT", d, nullptr, 1); }
bool GenMesh::get_field(std::string n, Entity_kind k, double *d) const { return fetch(n, k, "DOUBLE", nullptr, d, 1); }
bool GenMesh::get_field(std::string n, Entity_kind k, std::array<double, 2ul> *d) const {
  return fetch(n, k, "VECTOR", nullptr, d->data(), 2);
}
bool GenMesh::get_field(std::string n, Entity_kind k, std::array<double, 3ul> *d) const {
  return fetch(n, k, t_.sdim == 3 ? "VECTOR" : "TENSOR", nullptr, d->data(), 3);
}
bool GenMesh::get_field(std::string n, Entity_kind k, std::array<double, 6ul> *d) const {
  return fetch(n, k, "TENSOR", nullptr, d->data(), 6);
}

}  // namespace jv
