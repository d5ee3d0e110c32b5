// P17: materials and multi-material fields
#include "JaliState.h"
#include "JaliStateVector.h"
#include "MeshSet.hh"
#include "genmesh.hh"
#include "genstate.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Material {
  std::string name;
  std::set<int> cells;
  bool external;   // the mesh had a set of that name
};
struct FieldBase {
  std::string name;
  std::vector<std::map<int, int>> v;   // per material, cell -> value
  virtual ~FieldBase() {}
  virtual void check(Ctx &c, State &st, int ncells, std::vector<Material> const &mats) = 0;
  virtual void one(Ctx &c, int m, int cell) = 0;
  virtual void write(Gen &g, Ctx &c, State &st, int m, int cell, int value) = 0;
  virtual void write_all(Gen &g, State &st, int ncells, std::function<int()> next) = 0;
};

template <class T, class D> struct FieldOf : FieldBase {
  MultiStateVector<T, D> &ref;                 // the stored vector
  MultiStateVector<T, D> handle;               // a shallow copy
  FieldOf(MultiStateVector<T, D> &r) : ref(r) { handle = r; }
  MultiStateVector<T, D> &some(Gen &g) { return g.flip() ? ref : handle; }

  void check(Ctx &c, State &st, int ncells, std::vector<Material> const &mats) override {
    for (int k = 0; k < 2; ++k) {
      MultiStateVector<T, D> &x = k ? handle : ref;
      MultiStateVector<T, D> const &cx = x;
      CHECK_EQ(x.size(), mats.size(), "fieldmats", "number of materials of field '" << name << "'");
      for (size_t m = 0; m < mats.size(); ++m) {
        CHECK_EQ(x.size(m), v[m].size(), "fieldsize", "number of values of field '" << name << "' for material " << m);
        auto const &cells = st.material_cells(m);
        CHECK_EQ(x.get_matdata(m).size(), cells.size(), "fieldsize", "list of values of field '" << name
                 << "' for material " << m);
        size_t i = 0;
        for (auto it = cx.cbegin(m); it != cx.cend(m); ++it, ++i)
          CHECK_EQ(Enc<T>::read(*it), v[m].at(cells[i]), "value", "value " << i << " of field '" << name
                   << "' in material " << m << " (cell " << cells[i] << ")");
        CHECK_EQ(i, cells.size(), "value", "values iterated over");
        for (int cell = 0; cell < ncells; ++cell) {
          auto it = v[m].find(cell);
          int want = it == v[m].end() ? 0 : it->second;
          CHECK_EQ(Enc<T>::read(cx(m, cell)), want, "value", "value of field '" << name << "' for material " << m
                   << " in cell " << cell);
          CHECK_EQ(Enc<T>::read(cx(cell, m, Data_layout::CELL_CENTRIC)), want, "value", "value of field '" << name
                   << "' in cell " << cell << " for material " << m << ", cell-centric");
          bool threw = false;
          try {
            CHECK_EQ(Enc<T>::read(x(m, cell)), want, "value", "writable value of field '" << name
                     << "' for material " << m << " in cell " << cell);
            CHECK_EQ(Enc<T>::read(x(cell, m, Data_layout::CELL_CENTRIC)), want, "value", "writable value of field '"
                     << name << "' in cell " << cell << " for material " << m << ", cell-centric");
          } catch (std::runtime_error const &) {
            threw = true;
          }
          CHECK(threw == (it == v[m].end()), "absent", "writing access to cell " << cell << " for material " << m
                << (threw ? " refused" : " given"));
        }
      }
    }
  }
  void one(Ctx &c, int m, int cell) override {
    MultiStateVector<T, D> const &x = ref;
    auto it = v[m].find(cell);
    CHECK_EQ(Enc<T>::read(x(m, cell)), it == v[m].end() ? 0 : it->second, "value", "value of field '" << name
             << "' for material " << m << " in cell " << cell << " asked again");
  }
  void write(Gen &g, Ctx &, State &st, int m, int cell, int value) override {
    auto &x = some(g);
    switch (g.draw(3)) {
      case 0: x(m, cell) = Enc<T>::make(value); break;
      case 1: x(cell, m, Data_layout::CELL_CENTRIC) = Enc<T>::make(value); break;
      default: x.get_matdata(m)[st.cell_index_in_material(cell, m)] = Enc<T>::make(value);
    }
    v[m][cell] = value;
  }
  void write_all(Gen &g, State &st, int ncells, std::function<int()> next) override {
    auto &x = some(g);
    int nm = v.size();
    if (g.flip()) {
      int value = next();
      x.assign(Enc<T>::make(value));
      for (auto &l : v) for (auto &p : l) p.second = value;
      return;
    }
    bool cc = g.flip();
    std::vector<std::vector<T>> data;
    std::vector<T const *> rows;
    table(cc, nm, ncells, next, data, rows);
    x.assign(cc ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC, rows.data());
    fill(cc, data);
  }
  static void table(bool cc, int nm, int ncells, std::function<int()> next, std::vector<std::vector<T>> &data,
                    std::vector<T const *> &rows) {
    data.assign(cc ? ncells : nm, std::vector<T>(cc ? nm : ncells));
    for (auto &r : data) {
      for (auto &x : r) x = Enc<T>::make(next());
      rows.push_back(r.data());
    }
    rows.push_back(nullptr);
  }
  void fill(bool cc, std::vector<std::vector<T>> const &data) {
    for (size_t m = 0; m < v.size(); ++m)
      for (auto &p : v[m]) p.second = Enc<T>::read(cc ? data[p.first][m] : data[m][p.first]);
  }
};

struct World {
  Gen &g;
  Ctx &c;
  std::shared_ptr<Mesh> mesh;
  std::shared_ptr<State> st;
  int ncells;
  ints all, bghosts, others;
  std::vector<Material> m;
  std::map<std::string, std::set<int>> external;   // cell sets the mesh had
  std::vector<std::shared_ptr<FieldBase>> f;
  int serial = 0, removed = 0, grown = 0;
  int next() { return ++serial; }

  std::vector<std::string> names;
  std::string some_name() { return g.pick(names); }
  ints some_cells() {
    ints l = g.subset(all, 1, g.flip() ? 2 : 4);
    if (g.chance(1, 4)) {   // cells given twice, and boundary ghosts
      for (int k : bghosts) if (g.flip()) l.push_back(k);
      int n = l.size();
      for (int i = 0; i < n; ++i) if (g.chance(1, 3)) l.push_back(l[i]);
    }
    if (g.flip()) g.shuffle(l);
    return l;
  }
  std::set<int> real(ints const &l) {
    std::set<int> r;
    for (int k : l) if (std::find(bghosts.begin(), bghosts.end(), k) == bghosts.end()) r.insert(k);
    return r;
  }

  void verify() {
    State &s = *st;
    State const &cs = s;
    CHECK_EQ((size_t)s.num_materials(), m.size(), "number", "number of materials");
    for (size_t i = 0; i < m.size(); ++i) {
      CHECK_EQ(cs.material_name(i), m[i].name, "name", "name of material " << i);
      CHECK_EQ(cs.material_index_by_name(m[i].name), (int)i, "name", "index of material " << i);
      auto set = cs.material_set(i);
      CHECK(set && set == cs.material_set_by_name(m[i].name), "set", "set of material " << i);
      CHECK(set == mesh->find_meshset(m[i].name, Entity_kind::CELL), "set", "set of material " << i << " in the mesh");
      CHECK_EQ(cs.num_material_cells(i), (int)m[i].cells.size(), "cells", "number of cells of material " << i);
      ints got = cs.material_cells(i);
      ints want(m[i].cells.begin(), m[i].cells.end());
      CHECK_SET(got, want, "cells", "cells of material " << i);
      ints own, ghost;
      for (int k : want) (mesh->entity_get_type(Entity_kind::CELL, k) == Entity_type::PARALLEL_OWNED ? own : ghost).push_back(k);
      CHECK_SET(set->entities<Entity_type::PARALLEL_OWNED>(), own, "cells", "owned cells of material " << i);
      CHECK_SET(set->entities<Entity_type::PARALLEL_GHOST>(), ghost, "cells", "ghost cells of material " << i);
      ints where(ncells, -1);
      for (size_t j = 0; j < got.size(); ++j) where[got[j]] = j;
      for (int k = 0; k < ncells; ++k)
        CHECK_EQ(s.cell_index_in_material(k, i), where[k], "index", "index of cell " << k << " in material " << i);
    }
    int n = m.size();
    CHECK_EQ(cs.num_material_cells(n), 0, "beyond", "cells of a material beyond the last");
    CHECK(cs.material_cells(n).empty(), "beyond", "cells of a material beyond the last");
    CHECK_EQ(cs.material_name(n), std::string("UNDEFINED_MATERIAL"), "beyond", "name of a material beyond the last");
    std::vector<std::string> ask = names;
    ask.push_back("steel");
    for (auto &name : ask)
      if (!find(name)) {
        CHECK_EQ(cs.material_index_by_name(name), -1, "name", "index of '" << name << "'");
        CHECK(!cs.material_set_by_name(name), "name", "set of '" << name << "'");
      }
    for (int k = 0; k < ncells; ++k) {
      ints want;
      for (int i = 0; i < n; ++i) if (m[i].cells.count(k)) want.push_back(i);
      CHECK_EQ(cs.num_cell_materials(k), (int)want.size(), "inverse", "number of materials of cell " << k);
      CHECK_SET(cs.cell_materials(k), want, "inverse", "materials of cell " << k);
    }
    for (auto &x : f) x->check(c, s, ncells, m);
  }
  // One query, asked just before an operation and again just after it
  std::function<void()> probe() {
    int what = g.draw(5), i = g.draw(m.size() + 1), k = g.draw(ncells), fi = f.empty() ? -1 : (int)g.draw(f.size());
    std::string name = some_name();
    return [=]() {
      State const &cs = *st;
      int n = m.size();
      int at = -1;
      for (int j = 0; j < n; ++j) if (m[j].name == name) at = j;
      switch (what) {
        case 0: CHECK_EQ(cs.material_index_by_name(name), at, "name", "index of '" << name << "' asked again"); break;
        case 1: {
          auto set = cs.material_set_by_name(name);
          CHECK(!set == (at < 0) && (at < 0 || set == cs.material_set(at)), "set", "set of '" << name << "' asked again");
          break;
        }
        case 2:
          CHECK_EQ(cs.material_name(i), i < n ? m[i].name : std::string("UNDEFINED_MATERIAL"), "name",
                   "name of material " << i << " asked again");
          break;
        case 3:
          if (i < n) {
            CHECK_EQ(st->cell_index_in_material(k, i) < 0, m[i].cells.count(k) == 0, "index",
                     "presence of cell " << k << " in material " << i << " asked again");
            CHECK_SET(cs.material_cells(i), ints(m[i].cells.begin(), m[i].cells.end()), "cells",
                      "cells of material " << i << " asked again");
          }
          break;
        default: {
          ints want;
          for (int j = 0; j < n; ++j) if (m[j].cells.count(k)) want.push_back(j);
          CHECK_SET(cs.cell_materials(k), want, "inverse", "materials of cell " << k << " asked again");
        }
      }
      if (fi >= 0 && i < n) f[fi]->one(c, i, k);
    };
  }
  Material *find(std::string const &name) {
    for (auto &x : m) if (x.name == name) return &x;
    return nullptr;
  }

  void add_material() {
    std::string name = some_name();
    ints cells = g.chance(1, 5) ? ints() : some_cells();
    c.say() << "; add material '" << name << "' " << pbt::str(cells);
    st->add_material(name, cells);
    if (find(name)) { c.label("name used"); return; }
    Material x;
    x.name = name;
    x.cells = real(cells);
    x.external = external.count(name);
    if (x.external) {
      x.cells.insert(external[name].begin(), external[name].end());
      c.label("set of the mesh");
    }
    m.push_back(x);
    for (auto &q : f) {
      q->v.emplace_back();
      for (int k : x.cells) q->v.back()[k] = 0;
    }
  }
  void forget(int i) {
    if (m[i].external) external[m[i].name] = m[i].cells;
    m.erase(m.begin() + i);
    for (auto &q : f) q->v.erase(q->v.begin() + i);
    ++removed;
    c.label("removed");
  }
  void rem_material() {
    if (g.flip()) {
      int i = g.range(-1, m.size());
      c.say() << "; remove material " << i;
      st->rem_material(i);
      if (i >= 0 && i < (int)m.size()) forget(i);
    } else {
      std::string name = some_name();
      c.say() << "; remove material '" << name << "'";
      st->rem_material_by_name(name);
      for (size_t i = 0; i < m.size(); ++i) if (m[i].name == name) { forget(i); break; }
    }
  }
  void add_cells() {
    if (m.empty()) return;
    int i = g.draw(m.size());
    // the cells may be named by the list of a material
    bool listed = g.chance(1, 6);
    ints const &theirs = st->material_cells(g.draw(m.size()));
    ints cells = listed ? theirs : some_cells();
    c.say() << "; add cells " << pbt::str(cells) << (listed ? " (those of a material)" : "") << " to material " << i;
    st->add_cells_to_material(i, listed ? theirs : cells);
    for (int k : real(cells))
      if (m[i].cells.insert(k).second) {
        for (auto &q : f) q->v[i][k] = 0;
        ++grown;
      }
  }
  void rem_cells() {
    if (m.empty()) return;
    int i = g.draw(m.size());
    ints cells = some_cells();
    c.say() << "; remove cells from material " << i;
    bool threw = false;
    try {
      st->rem_cells_from_material(i, cells);
    } catch (std::runtime_error const &) {
      threw = true;
    }
    if (!threw) for (int k : cells) if (m[i].cells.erase(k)) for (auto &q : f) q->v[i].erase(k);
  }
  template <class T, class D> void add_field(std::shared_ptr<D> dom) {
    std::string name = "f" + std::to_string(f.size());
    int how = g.draw(4);
    c.say() << "; field '" << name << "' by " << how;
    MultiStateVector<T, D> *r;
    int init = 0;
    bool cc = g.flip();
    std::vector<std::vector<T>> data;
    std::vector<T const *> rows;
    Entity_kind k = Entity_kind::CELL;
    Entity_type t = Entity_type::ALL;
    if (how == 2) FieldOf<T, D>::table(cc, m.size(), ncells, [this] { return next(); }, data, rows);
    auto layout = cc ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC;
    switch (how) {
      case 0: r = &st->template add<T, D, MultiStateVector>(name, dom, k, t); break;
      case 1:
        init = next();
        r = &st->template add<T, D, MultiStateVector>(name, dom, k, t, Enc<T>::make(init));
        break;
      case 2: {
        T const *const *p = rows.data();
        r = &st->add(name, dom, k, t, layout, p);
        break;
      }
      default: {
        init = next();
        MultiStateVector<T, D> v(name, dom, st, k, t, Enc<T>::make(init));
        r = &st->add(v);
        v.assign(Enc<T>::make(-3));   // the stored one is a copy
      }
    }
    auto x = std::make_shared<FieldOf<T, D>>(*r);
    x->name = name;
    for (auto &mat : m) {
      x->v.emplace_back();
      for (int cell : mat.cells) x->v.back()[cell] = init;
    }
    if (how == 2) x->fill(cc, data);
    f.push_back(x);
  }
  void add_field() {
    int e = g.draw(4);
    bool tile = mesh->num_tiles() && g.chance(1, 3);
    if (tile) {
      auto t = mesh->tiles()[g.draw(mesh->num_tiles())];
      switch (e) {
        case 0: add_field<double>(t); break;
        case 1: add_field<int>(t); break;
        case 2: add_field<std::array<double, 3>>(t); break;
        default: add_field<Rec>(t);
      }
    } else {
      switch (e) {
        case 0: add_field<double>(mesh); break;
        case 1: add_field<int>(mesh); break;
        case 2: add_field<std::array<double, 3>>(mesh); break;
        default: add_field<Rec>(mesh);
      }
    }
  }
  void write() {
    if (f.empty()) return;
    auto &x = *f[g.draw(f.size())];
    if (g.chance(1, 3)) {
      c.say() << "; assign field '" << x.name << "'";
      x.write_all(g, *st, ncells, [this] { return next(); });
      return;
    }
    for (size_t i = 0; i < m.size(); ++i)
      for (int cell : m[i].cells)
        if (g.flip()) x.write(g, c, *st, i, cell, next());
    c.say() << "; write field '" << x.name << "'";
  }
};

void history(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 8;
  go.ghosts = go.bghosts = true;
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  int own = t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size();
  o.tiles = own ? g.draw(std::min(own, g.chance(1, 6) ? 6 : 2) + 1) : 0;
  World w{g, c};
  w.names = name_pool(g, 3, g.chance(1, 6) ? 24 : 6);
  int burst = g.chance(1, 60) ? g.range(20, g.chance(1, 5) ? 280 : 75) : 0;    // many materials
  for (int i = 0; i < burst; ++i) w.names.push_back("m" + std::to_string(i));
  w.mesh = std::make_shared<GenMesh>(t, o);
  w.ncells = t.cn.size();
  for (int k = 0; k < w.ncells; ++k)
    (t.etype(Entity_kind::CELL, k) == Entity_type::BOUNDARY_GHOST ? w.bghosts : w.all).push_back(k);
  c.say() << topo_summary(t) << "; " << o.tiles << " tiles";
  int nsets = g.draw(3);
  for (int i = 0; i < nsets; ++i) {
    std::string name = w.some_name();
    if (g.chance(1, 3)) {
      make_meshset(name, *w.mesh, Entity_kind::NODE, ints{0}, ints(), g.flip());
    } else if (!w.external.count(name)) {
      ints sown, sghost;
      for (int k : g.subset(w.all, 1, 2))
        (t.etype(Entity_kind::CELL, k) == Entity_type::PARALLEL_OWNED ? sown : sghost).push_back(k);
      make_meshset(name, *w.mesh, Entity_kind::CELL, sown, sghost, g.flip());
      w.external[name].insert(sown.begin(), sown.end());
      w.external[name].insert(sghost.begin(), sghost.end());
      c.say() << "; mesh set '" << name << "' " << pbt::str(sown) << pbt::str(sghost);
    }
  }
  w.st = State::create(w.mesh);
  w.verify();
  for (int i = 0; i < burst; ++i) w.add_material();
  if (burst) w.verify();
  int nops = g.range(4, g.chance(1, 30) ? 100 : g.chance(1, 3) ? 30 : 14);
  bool many = false;
  for (int i = 0; i < nops; ++i) {
    auto again = w.probe();
    again();
    switch (g.draw(9)) {
      case 0: case 1: case 2: w.add_material(); break;
      case 3: w.rem_material(); break;
      case 4: w.add_cells(); break;
      case 5: w.add_field(); break;
      case 6: case 7: w.write(); break;
      default: if (g.chance(1, 3)) w.rem_cells(); else w.add_cells();
    }
    again();
    if (i == nops - 1 || g.chance(3, 4)) w.verify();
    many |= w.m.size() >= 2 && w.f.size();
  }
  if (w.grown) c.label("cells added");
  if (w.f.size()) c.label("fields");
  c.nontrivial(many && (w.removed || w.grown));
}

}  // namespace

pbt::Property pbt::property() {
  return {"P17",
          "random histories of adding and removing materials by index or name (names in use, sets the mesh already "
          "has, cells given twice, boundary ghosts), adding cells to them, adding multi-material fields on the mesh "
          "and on tiles (uninitialised, by value, by either layout, by copy; four element types) and writing values; "
          "non-trivial: at some time two materials and a field, and a material removed or grown",
          40000, 800000,
          {{"history", 1, history}},
          {"removing single cells from a material is not implemented and refused",
           "values not given by the user read as zero"}};
}
