// P18: state vectors as arrays
#include "JaliState.h"
#include "JaliStateVector.h"
#include "MeshSet.hh"
#include "genmesh.hh"
#include "genstate.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Meta {
  std::string name;
  int dom;
  Entity_kind kind;
  Entity_type type;
};

struct Base {
  Gen &g;
  Ctx &c;
  std::shared_ptr<Mesh> mesh[2];
  std::vector<std::shared_ptr<MeshSet>> sets;   // of the first mesh
  std::vector<std::map<Entity_type, size_t>> setsize;
  std::shared_ptr<State> st;
  int serial = 0, shared = 0, writes = 0;
  int next() { return ++serial; }
  Meta meta(int ndom) {
    Meta q;
    q.name = g.pick(std::vector<std::string>{"a", "", "vol frac", "x"}) + std::to_string(next());
    q.dom = g.draw(ndom);
    q.kind = g.chance(1, 2) ? Entity_kind::CELL
                            : g.pick(std::vector<Entity_kind>{Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE,
                                                              Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER});
    q.type = g.pick(std::vector<Entity_type>{Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                                             Entity_type::BOUNDARY_GHOST});
    return q;
  }
  void fit(Meta &, Mesh *) {}
  void fit(Meta &, MeshTile *) {}
  void fit(Meta &q, MeshSet *) { q.kind = sets[q.dom]->kind(); }
  std::shared_ptr<MeshSet> domain(int d, MeshSet *) { return sets[d]; }
  int domains(MeshSet *) { return sets.size(); }
  Mesh *mesh_of(int, MeshSet *) { return mesh[0].get(); }
  size_t count(Meta const &q, MeshSet *) { return setsize[q.dom][q.type]; }
  std::shared_ptr<Mesh> domain(int d, Mesh *) { return mesh[d]; }
  std::shared_ptr<MeshTile> domain(int d, MeshTile *) { return mesh[0]->tiles()[d]; }
  int domains(Mesh *) { return 2; }
  int domains(MeshTile *) { return mesh[0]->num_tiles(); }
  Mesh *mesh_of(int d, Mesh *) { return mesh[d].get(); }
  Mesh *mesh_of(int, MeshTile *) { return mesh[0].get(); }
  size_t count(Meta const &q, Mesh *) { return entity_list(*mesh[q.dom], q.kind, q.type).size(); }
  size_t count(Meta const &q, MeshTile *) {
    MeshTile &t = *mesh[0]->tiles()[q.dom];
    return t.num_entities(q.kind, q.type);
  }
};

template <class V, class D> void check_meta(Ctx &c, Base &w, V &v, Meta const &q, D *d) {
  V const &cv = v;
  CHECK_EQ(cv.name(), q.name, "name", "name");
  CHECK(cv.entity_kind() == q.kind, "kind", "kind of '" << q.name << "'");
  CHECK(cv.entity_type() == q.type, "type", "type of '" << q.name << "'");
  CHECK(cv.domain() == w.domain(q.dom, d), "domain", "domain of '" << q.name << "'");
  CHECK(&cv.mesh() == w.mesh_of(q.dom, d), "mesh", "mesh of '" << q.name << "'");
}

//------------------------------------------------------------------ single
template <class T, class D> struct Uni : Base {
  using V = UniStateVector<T, D>;
  struct Slot {
    std::shared_ptr<V> own;   // empty: the vector is kept by the state
    V *v;
    std::shared_ptr<ints> data;
    Meta q;
  };
  std::vector<Slot> s;
  D *dtag = nullptr;
  Uni(Base const &b) : Base(b) {}

  void verify() {
    for (size_t k = 0; k < s.size(); ++k) {
      Slot &x = s[k];
      V &v = *x.v;
      V const &cv = v;
      check_meta(c, *this, v, x.q, dtag);
      CHECK(v.type() == StateVector_type::UNIVAL, "class", "vector type");
      CHECK(v.data_type() == typeid(T), "element", "element type");
      CHECK_EQ(cv.size(), x.data->size(), "size", "size of vector " << k);
      CHECK_EQ(static_cast<StateVectorBase &>(v).size(), x.data->size(), "size", "size of vector " << k << " by its base");
      ints a, b, d, e;
      for (auto const &t : v) a.push_back(Enc<T>::read(t));
      CHECK_LIST(a, *x.data, "values", "values of vector " << k << " by iteration");
      for (auto it = cv.cbegin(); it != cv.cend(); ++it) b.push_back(Enc<T>::read(*it));
      CHECK_LIST(b, *x.data, "values", "values of vector " << k << " by const iteration");
      for (size_t i = 0; i < x.data->size(); ++i) {
        CHECK_EQ(Enc<T>::read(v[i]), (*x.data)[i], "values", "element " << i << " of vector " << k);
        CHECK_EQ(Enc<T>::read(cv[i]), (*x.data)[i], "values", "const element " << i << " of vector " << k);
        CHECK_EQ(Enc<T>::read(v.get_raw_data()[i]), (*x.data)[i], "values", "raw element " << i << " of vector " << k);
        CHECK_EQ(Enc<T>::read(cv.get_raw_data()[i]), (*x.data)[i], "values", "const raw element " << i << " of vector " << k);
      }
      CHECK_EQ(v.get_raw_data(), cv.get_raw_data(), "values", "raw data");
      auto p = v.get_data();
      CHECK(p, "values", "no data of vector " << k);
      for (auto const &t : *p) d.push_back(Enc<T>::read(t));
      CHECK_LIST(d, *x.data, "values", "data of vector " << k);
    }
    for (size_t k = 0; k < s.size(); ++k)
      for (size_t l = 0; l < k; ++l)
        CHECK((s[k].v->get_data() == s[l].v->get_data()) == (s[k].data == s[l].data), "sharing",
              "vectors " << k << " and " << l << (s[k].data == s[l].data ? " do not share" : " share") << " their data");
  }
  void put(Slot x) {
    if (s.size() < 6) { s.push_back(x); return; }
    size_t i = g.draw(s.size());
    s[i] = x;
  }
  void create() {
    Slot x;
    x.q = meta(domains(dtag));
    fit(x.q, dtag);
    auto dom = domain(x.q.dom, dtag);
    auto state = g.flip() ? st : nullptr;
    size_t n = count(x.q, dtag);
    int how = g.draw(3);
    c.say() << "; new '" << x.q.name << "' on domain " << x.q.dom << x.q.kind << x.q.type << " by " << how;
    x.data = std::make_shared<ints>(n);
    switch (how) {
      case 0:
        for (auto &e : *x.data) e = Enc<T>::read(T());
        x.own = std::make_shared<V>(x.q.name, dom, state, x.q.kind, x.q.type);
        break;
      case 1: {
        int v = next();
        for (auto &e : *x.data) e = v;
        x.own = std::make_shared<V>(x.q.name, dom, state, x.q.kind, x.q.type, Enc<T>::make(v));
        break;
      }
      default: {
        std::vector<T> a;
        for (auto &e : *x.data) a.push_back(Enc<T>::make(e = next()));
        T const *p = a.data();
        T one = T();
        x.own = std::make_shared<V>(x.q.name, dom, state, x.q.kind, x.q.type, n ? p : &one);
        for (auto &e : a) e = Enc<T>::make(-9);
      }
    }
    x.v = x.own.get();
    put(x);
  }
  void copy() {
    Slot x = s[g.draw(s.size())];
    c.say() << "; copy '" << x.q.name << "'";
    x.own = std::make_shared<V>(static_cast<V const &>(*x.v));
    x.v = x.own.get();
    x.data = std::make_shared<ints>(*x.data);
    put(x);
  }
  void assign() {
    size_t i = g.draw(s.size()), j = g.draw(s.size());
    if (!s[i].own) return;    // the vectors of the state stay as they are
    c.say() << "; vector " << i << " = vector " << j;
    V &r = (*s[i].v = static_cast<V const &>(*s[j].v));
    CHECK(&r == s[i].v, "assign", "result of the assignment");
    s[i].data = s[j].data;
    s[i].q = s[j].q;
    if (i != j) ++shared;
  }
  bool mine(Slot const &x, Mesh *) { return x.q.dom == 0; }
  bool mine(Slot const &, MeshTile *) { return true; }
  bool mine(Slot const &, MeshSet *) { return true; }
  void to_state() {
    size_t i = g.draw(s.size());
    if (!mine(s[i], dtag)) return;
    auto it = st->template find<T, D, UniStateVector>(s[i].q.name, domain(s[i].q.dom, dtag));
    if (it != st->end()) return;
    c.say() << "; vector " << i << " to the state";
    Slot x = s[i];
    x.own.reset();
    x.v = &st->add(static_cast<V const &>(*s[i].v));
    x.data = std::make_shared<ints>(*x.data);
    put(x);
    // and a shallow one from it
    Slot y = x;
    y.own = std::make_shared<V>();
    y.v = y.own.get();
    bool ok = st->get(x.q.name, domain(x.q.dom, dtag), x.q.kind, x.q.type, y.v);
    CHECK(ok, "get", "vector added to the state");
    ++shared;
    put(y);
  }
  void write() {
    size_t k = g.draw(s.size());
    Slot &x = s[k];
    ints &d = *x.data;
    V &v = *x.v;
    int n = d.size();
    int how = g.draw(6);
    c.say() << "; write vector " << k << " by " << how;
    if (n) ++writes;
    int i = n ? g.draw(n) : 0, val = next();
    switch (how) {
      case 0: if (n) { v[i] = Enc<T>::make(val); d[i] = val; } break;
      case 1: if (n) { *(v.begin() + i) = Enc<T>::make(val); d[i] = val; } break;
      case 2: if (n) { v.get_raw_data()[i] = Enc<T>::make(val); d[i] = val; } break;
      case 3: if (n) { (*v.get_data())[i] = Enc<T>::make(val); d[i] = val; } break;
      case 4: std::fill(v.begin(), v.end(), Enc<T>::make(val)); std::fill(d.begin(), d.end(), val); break;
      default: std::reverse(v.begin(), v.end()); std::reverse(d.begin(), d.end());
    }
  }
  void resize() {
    Slot &x = s[g.draw(s.size())];
    int n = g.chance(1, 2) ? x.data->size() + g.range(0, 4) : g.draw(g.chance(1, 8) ? g.chance(1, 1000) ? 70000 : 400 : 12);
    int how = g.draw(5);
    c.say() << "; resize '" << x.q.name << "' to " << n << " by " << how;
    if (how < 2) { x.v->resize(n); x.data->resize(n, Enc<T>::read(T())); }
    else if (how < 4) { int v = next(); x.v->resize(n, Enc<T>::make(v)); x.data->resize(n, v); }
    else { x.v->clear(); x.data->clear(); }
  }
  void print() {
    Slot &x = s[g.draw(s.size())];
    std::ostringstream a, b, d;
    a << *x.v;
    static_cast<StateVectorBase &>(*x.v).print(b);
    CHECK_EQ(a.str(), b.str(), "print", "print() and <<");
    for (auto const &e : *x.v) d << e << "\n";
    d << "\n";
    std::string t = a.str(), tail = d.str();
    CHECK(t.size() >= tail.size() && t.substr(t.size() - tail.size()) == tail, "print", "values printed: " << t);
    std::string head = t.substr(0, t.size() - tail.size());
    std::string n = std::to_string(x.data->size()) + " elements\n";
    CHECK(head.find("\"" + x.q.name + "\"") != std::string::npos &&
          head.size() >= n.size() && head.substr(head.size() - n.size()) == n, "print", "heading printed: " << head);
  }
  void run() {
    create();
    verify();
    int nops = g.range(2, g.chance(1, 30) ? 100 : g.chance(1, 3) ? 30 : 12);
    for (int i = 0; i < nops; ++i) {
      switch (g.draw(10)) {
        case 0: case 1: create(); break;
        case 2: copy(); break;
        case 3: case 4: assign(); break;
        case 5: to_state(); break;
        case 6: case 7: write(); break;
        case 8: resize(); break;
        default: print();
      }
      verify();
    }
    c.nontrivial(shared && writes);
    if (shared) c.label("shared");
  }
};

//------------------------------------------------------------------- multi
template <class T, class D> struct Multi : Base {
  using V = MultiStateVector<T, D>;
  struct Slot {
    std::shared_ptr<V> own;
    V *v;
    std::shared_ptr<std::vector<ints>> data;
    Meta q;
  };
  std::vector<Slot> s;
  D *dtag = nullptr;
  int nm, ncells;
  Multi(Base const &b) : Base(b) {}

  void verify() {
    for (size_t k = 0; k < s.size(); ++k) {
      Slot &x = s[k];
      V &v = *x.v;
      V const &cv = v;
      check_meta(c, *this, v, x.q, dtag);
      CHECK(v.type() == StateVector_type::MULTIVAL, "class", "vector type");
      CHECK(v.data_type() == typeid(T), "element", "element type");
      CHECK_EQ(cv.size(), x.data->size(), "size", "materials of vector " << k);
      auto p = v.get_data();
      CHECK(p && p->size() == x.data->size(), "values", "data of vector " << k);
      for (size_t m = 0; m < x.data->size(); ++m) {
        ints const &want = (*x.data)[m];
        CHECK_EQ(v.get_raw_data(m), cv.get_raw_data(m), "values", "raw data");
        CHECK_EQ(cv.size(m), want.size(), "size", "size of vector " << k << " for material " << m);
        ints a, b, d, e, h;
        for (auto it = v.begin(m); it != v.end(m); ++it) a.push_back(Enc<T>::read(*it));
        for (auto it = cv.cbegin(m); it != cv.cend(m); ++it) b.push_back(Enc<T>::read(*it));
        for (auto const &t : v.get_matdata(m)) d.push_back(Enc<T>::read(t));
        for (auto const &t : cv.get_matdata(m)) e.push_back(Enc<T>::read(t));
        for (auto const &t : (*p)[m]) h.push_back(Enc<T>::read(t));
        CHECK_LIST(a, want, "values", "values of vector " << k << " for material " << m << " by iteration");
        CHECK_LIST(b, want, "values", "values of vector " << k << " for material " << m << " by const iteration");
        CHECK_LIST(d, want, "values", "list of values of vector " << k << " for material " << m);
        CHECK_LIST(e, want, "values", "const list of values of vector " << k << " for material " << m);
        CHECK_LIST(h, want, "values", "data of vector " << k << " for material " << m);
        for (size_t i = 0; i < want.size(); ++i) {
          CHECK_EQ(Enc<T>::read(v.get_raw_data(m)[i]), want[i], "values", "raw element");
          CHECK_EQ(Enc<T>::read(cv.get_raw_data(m)[i]), want[i], "values", "const raw element");
        }
        // by material and cell, as long as the size is that of the material
        if ((int)m < nm && want.size() == st->material_cells(m).size())
          for (int cell = 0; cell < ncells; ++cell) {
            auto const &cells = st->material_cells(m);
            size_t i = std::find(cells.begin(), cells.end(), cell) - cells.begin();
            int w = i < cells.size() ? want[i] : Enc<T>::read(T());
            CHECK_EQ(Enc<T>::read(cv(m, cell)), w, "cell", "value for material " << m << " in cell " << cell);
            CHECK_EQ(Enc<T>::read(cv(cell, m, Data_layout::CELL_CENTRIC)), w, "cell", "value in cell " << cell
                     << " for material " << m);
            if (i < cells.size()) {
              CHECK(&v(m, cell) == &v.get_matdata(m)[i], "cell", "element for material " << m << " in cell " << cell);
              CHECK(&v(cell, m, Data_layout::CELL_CENTRIC) == &v.get_matdata(m)[i], "cell", "element in cell " << cell
                    << " for material " << m);
            }
          }
      }
    }
    for (size_t k = 0; k < s.size(); ++k)
      for (size_t l = 0; l < k; ++l)
        CHECK((s[k].v->get_data() == s[l].v->get_data()) == (s[k].data == s[l].data), "sharing",
              "vectors " << k << " and " << l << (s[k].data == s[l].data ? " do not share" : " share") << " their data");
  }
  void put(Slot x) {
    if (s.size() < 5) { s.push_back(x); return; }
    s[g.draw(s.size())] = x;
  }
  void blank(std::vector<ints> &d, int v) {
    d.resize(nm);
    for (int m = 0; m < nm; ++m) d[m].assign(st->material_cells(m).size(), v);
  }
  struct Table {
    bool cc;
    std::vector<std::vector<T>> data;
    std::vector<T const *> rows;
    Data_layout layout() const { return cc ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC; }
  };
  Table table() {
    Table t;
    t.cc = g.flip();
    t.data.assign(t.cc ? ncells : nm, std::vector<T>(t.cc ? nm : ncells));
    for (auto &r : t.data) {
      for (auto &x : r) x = Enc<T>::make(next());
      t.rows.push_back(r.data());
    }
    t.rows.push_back(nullptr);
    return t;
  }
  void fill(std::vector<ints> &d, Table const &t) {
    d.resize(nm);
    for (int m = 0; m < nm; ++m) {
      d[m].clear();
      for (int cell : st->material_cells(m)) d[m].push_back(Enc<T>::read(t.cc ? t.data[cell][m] : t.data[m][cell]));
    }
  }
  void create() {
    Slot x;
    x.q = meta(domains(dtag));
    x.q.dom = std::is_same<D, Mesh>::value ? 0 : x.q.dom;
    auto dom = domain(x.q.dom, dtag);
    int how = g.draw(3);
    c.say() << "; new '" << x.q.name << "' by " << how;
    x.data = std::make_shared<std::vector<ints>>();
    blank(*x.data, Enc<T>::read(T()));
    switch (how) {
      case 0: x.own = std::make_shared<V>(x.q.name, dom, st, x.q.kind, x.q.type); break;
      case 1: {
        int v = next();
        blank(*x.data, v);
        x.own = std::make_shared<V>(x.q.name, dom, st, x.q.kind, x.q.type, Enc<T>::make(v));
        break;
      }
      default: {
        Table t = table();
        T const *const *p = t.rows.data();
        x.own = std::make_shared<V>(x.q.name, dom, st, x.q.kind, x.q.type, t.layout(), p);
        fill(*x.data, t);
      }
    }
    x.v = x.own.get();
    put(x);
  }
  void copy() {
    Slot x = s[g.draw(s.size())];
    c.say() << "; copy '" << x.q.name << "'";
    x.own = std::make_shared<V>(static_cast<V const &>(*x.v));
    x.v = x.own.get();
    x.data = std::make_shared<std::vector<ints>>(*x.data);
    put(x);
  }
  void assign() {
    size_t i = g.draw(s.size()), j = g.draw(s.size());
    if (!s[i].own) return;
    c.say() << "; vector " << i << " = vector " << j;
    V &r = (*s[i].v = static_cast<V const &>(*s[j].v));
    CHECK(&r == s[i].v, "assign", "result of the assignment");
    s[i].data = s[j].data;
    s[i].q = s[j].q;
    if (i != j) ++shared;
  }
  void to_state() {
    size_t i = g.draw(s.size());
    auto it = st->template find<T, D, MultiStateVector>(s[i].q.name, domain(s[i].q.dom, dtag));
    if (it != st->end()) return;
    c.say() << "; vector " << i << " to the state";
    Slot x = s[i];
    x.own.reset();
    x.v = &st->add(static_cast<V const &>(*s[i].v));
    x.data = std::make_shared<std::vector<ints>>(*x.data);
    put(x);
    Slot y = x;
    y.own = std::make_shared<V>();
    y.v = y.own.get();
    bool ok = st->get(x.q.name, domain(x.q.dom, dtag), x.q.kind, x.q.type, y.v);
    CHECK(ok, "get", "vector added to the state");
    ++shared;
    put(y);
  }
  void write() {
    size_t k = g.draw(s.size());
    Slot &x = s[k];
    V &v = *x.v;
    int how = g.draw(9);
    c.say() << "; write vector " << k << " by " << how;
    ++writes;
    if (how == 7) { int val = next(); v.assign(Enc<T>::make(val)); blank(*x.data, val); return; }
    if (how == 8) {
      Table t = table();
      v.assign(t.layout(), t.rows.data());
      fill(*x.data, t);
      return;
    }
    if (x.data->empty()) return;
    int m = g.draw(x.data->size());
    ints &d = (*x.data)[m];
    int n = d.size(), i = n ? g.draw(n) : 0, val = next();
    if (!n) return;
    bool fits = m < nm && n == (int)st->material_cells(m).size();
    switch (how) {
      case 0: *(v.begin(m) + i) = Enc<T>::make(val); d[i] = val; break;
      case 1: v.get_matdata(m)[i] = Enc<T>::make(val); d[i] = val; break;
      case 2: v.get_raw_data(m)[i] = Enc<T>::make(val); d[i] = val; break;
      case 3: (*v.get_data())[m][i] = Enc<T>::make(val); d[i] = val; break;
      case 4: if (fits) { v(m, st->material_cells(m)[i]) = Enc<T>::make(val); d[i] = val; } break;
      case 5: if (fits) { v(st->material_cells(m)[i], m, Data_layout::CELL_CENTRIC) = Enc<T>::make(val); d[i] = val; } break;
      default: std::fill(v.begin(m), v.end(m), Enc<T>::make(val)); std::fill(d.begin(), d.end(), val);
    }
  }
  void resize() {
    Slot &x = s[g.draw(s.size())];
    auto &d = *x.data;
    int how = g.draw(7);
    c.say() << "; resize '" << x.q.name << "' by " << how;
    if (how == 5) { int n = g.draw(5); x.v->add_material(n); d.emplace_back(n, Enc<T>::read(T())); return; }
    if (d.empty()) return;
    int m = g.draw(d.size());
    int n = g.flip() ? d[m].size() + g.range(0, 4) : g.draw(g.chance(1, 8) ? 400 : 12);
    if (how < 2) { x.v->resize(m, n); d[m].resize(n, Enc<T>::read(T())); }
    else if (how < 4) { int v = next(); x.v->resize(m, n, Enc<T>::make(v)); d[m].resize(n, v); }
    else if (how == 4) { x.v->clear(m); d[m].clear(); }
    else { x.v->rem_material(m); d.erase(d.begin() + m); }
  }
  void run() {
    nm = g.range(0, 3);
    ncells = mesh[0]->num_entities(Entity_kind::CELL, Entity_type::ALL);
    ints all;
    for (int k = 0; k < ncells; ++k)
      if (mesh[0]->entity_get_type(Entity_kind::CELL, k) != Entity_type::BOUNDARY_GHOST) all.push_back(k);
    for (int m = 0; m < nm; ++m) st->add_material("m" + std::to_string(m), g.subset(all, 1, 2));
    c.say() << nm << " materials";
    create();
    verify();
    int nops = g.range(2, g.chance(1, 30) ? 100 : g.chance(1, 3) ? 30 : 12);
    for (int i = 0; i < nops; ++i) {
      switch (g.draw(9)) {
        case 0: case 1: create(); break;
        case 2: copy(); break;
        case 3: case 4: assign(); break;
        case 5: to_state(); break;
        case 6: case 7: write(); break;
        default: if (g.chance(1, 8)) clear(); else resize();
      }
      verify();
    }
    c.nontrivial(shared && writes && nm);
    if (shared) c.label("shared");
  }
  void clear() {
    Slot &x = s[g.draw(s.size())];
    c.say() << "; clear '" << x.q.name << "'";
    x.v->clear();
    x.data->clear();
  }
};

Base world(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 8;
  go.ghosts = go.bghosts = true;
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  int own = t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size();
  o.tiles = own ? g.draw(std::min(own, g.chance(1, 6) ? 6 : 2) + 1) : 0;
  GenOpts go2;
  go2.maxcells = 4;
  Topo t2 = gen_topo(g, c, go2);
  Base w{g, c};
  w.mesh[0] = std::make_shared<GenMesh>(t, o);
  w.mesh[1] = std::make_shared<GenMesh>(t2, MeshOpts());
  w.st = State::create(w.mesh[0]);
  c.say() << topo_summary(t) << "; " << o.tiles << " tiles; ";
  return w;
}
void single(Gen &g, Ctx &c) {
  Base w = world(g, c);
  int e = g.draw(kElems);
  c.say() << elem_name(e);
  bool tile = w.mesh[0]->num_tiles() && g.flip(), set = !tile && g.chance(1, 3);
  if (set) {
    Mesh &m = *w.mesh[0];
    for (int i = 0, n = g.range(1, 3); i < n; ++i) {
      auto k = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::CELL, Entity_kind::NODE, Entity_kind::EDGE,
                                               Entity_kind::FACE, Entity_kind::WEDGE, Entity_kind::CORNER});
      ints o = g.subset(entity_list(m, k, Entity_type::PARALLEL_OWNED), 1, 2);
      ints gh = g.subset(entity_list(m, k, Entity_type::PARALLEL_GHOST), 1, 2);
      g.shuffle(o);
      w.sets.push_back(make_meshset("s" + std::to_string(i), m, k, o, gh, g.flip()));
      w.setsize.push_back({{Entity_type::PARALLEL_OWNED, o.size()},
                           {Entity_type::PARALLEL_GHOST, gh.size()},
                           {Entity_type::ALL, o.size() + gh.size()}});
      c.say() << "; set of " << o.size() << "+" << gh.size() << k;
    }
    c.label("on sets");
  }
  with_elem(e, [&](auto tag) {
    using T = typename decltype(tag)::type;
    if (tile) Uni<T, MeshTile>(w).run();
    else if (set) Uni<T, MeshSet>(w).run();
    else Uni<T, Mesh>(w).run();
  });
}
void multi(Gen &g, Ctx &c) {
  Base w = world(g, c);
  int e = g.draw(kElems);
  c.say() << elem_name(e);
  bool tile = w.mesh[0]->num_tiles() && g.flip();
  with_elem(e, [&](auto tag) {
    using T = typename decltype(tag)::type;
    if (tile) Multi<T, MeshTile>(w).run();
    else Multi<T, Mesh>(w).run();
  });
}

}  // namespace

pbt::Property pbt::property() {
  return {"P18",
          "random histories of making state vectors (uninitialised, by value, by array or layout, copied, assigned, "
          "copied into a state and got from it) on meshes, tiles and mesh sets, of any kind, type and of six element types, and "
          "of writing, resizing, clearing and printing them; non-trivial: storage is shared and written",
          50000, 1000000,
          {{"single", 1, single}, {"multi", 1, multi}},
          {}};
}
