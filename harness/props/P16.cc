// P16: the registry of the state manager
#include "JaliState.h"
#include "JaliStateVector.h"
#include "MeshSet.hh"
#include "genmesh.hh"
#include "genstate.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Field {
  std::string name;
  int dom;       // 0: mesh of the state, 1: another mesh, 2...: tiles, then mesh sets
  bool multi;
  int elem;
  Entity_kind kind;
  Entity_type type;
  std::vector<ints> v;   // one list, or one per material
  StateVectorBase *p = nullptr;
};
struct Handle {
  int f;
  std::string what;
  bool outlives;   // the state manager
  std::function<int(int, int)> read;
  std::function<void(int, int, int)> write;
  std::function<int(int)> size;
};

struct World {
  Gen &g;
  Ctx &c;
  std::shared_ptr<Mesh> mesh[2];
  std::shared_ptr<State> st;
  std::vector<std::shared_ptr<MeshSet>> sets;   // univalued vectors only
  std::vector<Field> f;
  std::vector<Handle> h;
  std::vector<Entity_kind> kinds;
  int ncells, serial = 0;
  int next() { return ++serial; }

  template <class F> void with_dom(int d, F fn) {
    if (d < 2) fn(mesh[d]);
    else if (d < 2 + mesh[0]->num_tiles()) fn(mesh[0]->tiles()[d - 2]);
    else fn(sets[d - 2 - mesh[0]->num_tiles()]);
  }
  int ndom() { return 2 + mesh[0]->num_tiles() + sets.size(); }
  bool on_set(int d) { return d >= 2 + mesh[0]->num_tiles(); }
  template <class D> static constexpr bool meshset = std::is_same<D, MeshSet>::value;

  // first field meeting the criteria; -1: open
  int lookup(std::string const &n, int dom, int multi, int elem, Entity_kind k, Entity_type t) {
    for (size_t i = 0; i < f.size(); ++i)
      if (f[i].name == n && (dom < 0 || f[i].dom == dom) && (multi < 0 || f[i].multi == (bool)multi) &&
          (elem < 0 || f[i].elem == elem) && (k == Entity_kind::ANY_KIND || f[i].kind == k) &&
          (t == Entity_type::ALL || f[i].type == t))
        return i;
    return -1;
  }

  // values of a stored vector, as given by the base pointer
  template <class T, class D> ints uni(UniStateVector<T, D> &v) {
    ints r;
    for (auto const &x : v) r.push_back(Enc<T>::read(x));
    return r;
  }
  std::vector<ints> values(Field const &q) {
    std::vector<ints> r;
    with_elem(q.elem, [&](auto tag) {
      using T = typename decltype(tag)::type;
      with_dom(q.dom, [&](auto dom) {
        using D = typename decltype(dom)::element_type;
        if (q.multi) {
          if constexpr (!meshset<D>) {
            auto *v = dynamic_cast<MultiStateVector<T, D> *>(q.p);
            CHECK(v, "class", "class of field " << q.name);
            CHECK(v->domain() == dom, "domain", "domain of field " << q.name);
            for (size_t m = 0; m < v->size(); ++m) {
              r.emplace_back();
              for (auto it = v->begin(m); it != v->end(m); ++it) r.back().push_back(Enc<T>::read(*it));
            }
          }
        } else {
          auto *v = dynamic_cast<UniStateVector<T, D> *>(q.p);
          CHECK(v, "class", "class of field " << q.name);
          CHECK(v->domain() == dom, "domain", "domain of field " << q.name);
          r.push_back(uni(*v));
        }
        CHECK(q.p->data_type() == typeid(T), "element", "element type of field " << q.name);
      });
    });
    return r;
  }

  void verify() {
    State &s = *st;
    State const &cs = s;
    CHECK_EQ((size_t)s.size(), f.size(), "size", "number of fields");
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i)
      CHECK(i < f.size() && it->get() == f[i].p, "iterate", "field " << i << " by iteration");
    CHECK_EQ(i, f.size(), "iterate", "fields iterated over");
    i = 0;
    for (auto it = cs.cbegin(); it != cs.cend(); ++it, ++i)
      CHECK(i < f.size() && it->get() == f[i].p, "iterate", "field " << i << " by const iteration");
    CHECK_EQ(i, f.size(), "iterate", "fields iterated over, const");
    i = 0;
    for (auto it = s.names_begin(); it != s.names_end(); ++it, ++i)
      CHECK(i < f.size() && *it == f[i].name, "names", "name " << i);
    CHECK_EQ(i, f.size(), "names", "names iterated over");
    for (i = 0; i < f.size(); ++i) {
      Field &q = f[i];
      CHECK(s[i].get() == q.p && cs[i].get() == q.p, "index", "field " << i << " by index");
      CHECK_EQ(q.p->name(), q.name, "name", "name of field " << i);
      CHECK(q.p->entity_kind() == q.kind, "kind", "kind of field " << i);
      CHECK(q.p->entity_type() == q.type, "type", "type of field " << i);
      CHECK(q.p->type() == (q.multi ? StateVector_type::MULTIVAL : StateVector_type::UNIVAL), "multi",
            "vector type of field " << i);
      auto v = values(q);
      CHECK_EQ(v.size(), q.v.size(), "values", "materials of field " << i);
      for (size_t m = 0; m < v.size(); ++m) CHECK_LIST(v[m], q.v[m], "values", "values of field " << i);
    }
    for (int k = 0; k < NUM_ENTITY_KINDS; ++k) {
      Entity_kind kind = static_cast<Entity_kind>(k);
      ints want;
      for (size_t j = 0; j < f.size(); ++j) if (f[j].kind == kind) want.push_back(j);
      size_t n = 0;
      auto e = s.entity_end(kind);
      for (auto it = s.entity_begin(kind); it != e; ++it, ++n)
        CHECK(n < want.size() && it->get() == f[want[n]].p, "bykind", "field " << n << " on" << kind);
      CHECK_EQ(n, want.size(), "bykind", "number of fields on" << kind);
      n = 0;
      auto ne = s.names_entity_end(kind);
      for (auto it = s.names_entity_begin(kind); it != ne; ++it, ++n)
        CHECK(n < want.size() && *it == f[want[n]].name, "bykind", "name " << n << " on" << kind);
      CHECK_EQ(n, want.size(), "bykind", "number of names on" << kind);
    }
    for (auto &x : h) check_handle(x);
  }
  void check_handle(Handle &x) {
    Field &q = f[x.f];
    for (size_t m = 0; m < q.v.size(); ++m) {
      CHECK_EQ(x.size(m), (int)q.v[m].size(), "handle", "size through " << x.what << " of field " << x.f);
      for (size_t i = 0; i < q.v[m].size(); ++i)
        CHECK_EQ(x.read(m, i), q.v[m][i], "handle", "value " << i << " through " << x.what << " of field " << x.f);
    }
  }

  // add a handle on a vector given by some owner object
  template <class P> void hold_uni(int fi, std::string const &what, bool outlives, P v) {  // P: pointer-like
    using T = typename std::decay<decltype((*v)[0])>::type;
    h.push_back({fi, what, outlives, [v](int, int i) { return Enc<T>::read((*v)[i]); },
                 [v](int, int i, int x) { (*v)[i] = Enc<T>::make(x); }, [v](int) { return (int)v->size(); }});
  }
  template <class P> void hold_multi(int fi, std::string const &what, bool outlives, P v) {
    using T = typename std::decay<decltype(v->get_matdata(0)[0])>::type;
    h.push_back({fi, what, outlives, [v](int m, int i) { return Enc<T>::read(v->get_matdata(m)[i]); },
                 [v](int m, int i, int x) { v->get_matdata(m)[i] = Enc<T>::make(x); },
                 [v](int m) { return (int)v->size(m); }});
  }

  std::vector<std::string> names;
  std::string some_name() { return g.pick(names); }
  Entity_type some_type() {
    return g.pick(std::vector<Entity_type>{Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                                           Entity_type::BOUNDARY_GHOST});
  }

  // the vector given back by an add
  template <class V> void added(V &ref, Field q, int dup) {
    if (dup >= 0) {
      CHECK(static_cast<StateVectorBase *>(&ref) == f[dup].p, "duplicate", "field given back for a duplicate is the "
            "one already there");
      c.label("duplicate");
      return;
    }
    q.p = &ref;
    f.push_back(q);
    CHECK_EQ((size_t)st->size(), f.size(), "added", "number of fields after adding one");
  }

  void add() {
    Field q;
    q.name = some_name();
    q.dom = g.chance(1, 2) ? 0 : g.draw(ndom());
    q.multi = g.chance(1, 3);
    q.elem = g.chance(1, 3) ? 1 : g.draw(kElems);
    q.kind = g.chance(1, 2) ? Entity_kind::CELL : g.pick(kinds);
    q.type = some_type();
    if (on_set(q.dom)) {
      q.multi = false;
      q.kind = sets[q.dom - 2 - mesh[0]->num_tiles()]->kind();
    }
    int how = g.draw(4);
    int dup = lookup(q.name, q.dom, q.multi, q.elem, q.kind, q.type);
    c.say() << "; add '" << q.name << "' " << (q.multi ? "multi " : "") << "elem " << q.elem << " on domain " << q.dom
            << q.kind << q.type << " by " << how;
    with_elem(q.elem, [&](auto tag) {
      using T = typename decltype(tag)::type;
      with_dom(q.dom, [&](auto dom) {
        using D = typename decltype(dom)::element_type;
        int n = dom->num_entities(q.kind, q.type), nm = st->num_materials();
        if (!q.multi) {
          q.v.assign(1, ints(n));
          switch (how) {
            case 0:
              for (auto &x : q.v[0]) x = Enc<T>::read(T());
              added(st->template add<T, D, UniStateVector>(q.name, dom, q.kind, q.type), q, dup);
              break;
            case 1: {
              int v = next();
              for (auto &x : q.v[0]) x = v;
              added(st->template add<T, D, UniStateVector>(q.name, dom, q.kind, q.type, Enc<T>::make(v)), q, dup);
              break;
            }
            case 2: {
              std::vector<T> data;
              for (auto &x : q.v[0]) data.push_back(Enc<T>::make(x = next()));
              T const *p = data.data();
              static T const none = T();
              added(st->add(q.name, dom, q.kind, q.type, n ? p : &none), q, dup);
              break;
            }
            default: {
              std::vector<T> data(n);
              for (int i = 0; i < n; ++i) data[i] = Enc<T>::make(q.v[0][i] = next());
              UniStateVector<T, D> v(q.name, dom, g.flip() ? st : nullptr, q.kind, q.type);
              for (int i = 0; i < n; ++i) v[i] = data[i];
              copy_uni(v, q);
            }
          }
        } else if constexpr (!meshset<D>) {
          q.v.resize(nm);
          for (int m = 0; m < nm; ++m) q.v[m].resize(st->material_cells(m).size());
          switch (how) {
            case 0:
              for (auto &l : q.v) for (auto &x : l) x = Enc<T>::read(T());
              added(st->template add<T, D, MultiStateVector>(q.name, dom, q.kind, q.type), q, dup);
              break;
            case 1: {
              int v = next();
              for (auto &l : q.v) for (auto &x : l) x = v;
              added(st->template add<T, D, MultiStateVector>(q.name, dom, q.kind, q.type, Enc<T>::make(v)), q, dup);
              break;
            }
            case 2: {
              bool cc = g.flip();
              std::vector<std::vector<T>> data(cc ? ncells : nm, std::vector<T>(cc ? nm : ncells));
              for (auto &r : data) for (auto &x : r) x = Enc<T>::make(next());
              std::vector<T const *> rows;
              for (auto &r : data) rows.push_back(r.data());
              for (int m = 0; m < nm; ++m)
                for (size_t i = 0; i < q.v[m].size(); ++i) {
                  int cell = st->material_cells(m)[i];
                  q.v[m][i] = Enc<T>::read(cc ? data[cell][m] : data[m][cell]);
                }
              rows.push_back(nullptr);
              T const *const *p = rows.data();
              added(st->add(q.name, dom, q.kind, q.type, cc ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC,
                            p), q, dup);
              break;
            }
            default: {
              MultiStateVector<T, D> v(q.name, dom, st, q.kind, q.type);
              for (int m = 0; m < nm; ++m)
                for (size_t i = 0; i < q.v[m].size(); ++i) v.get_matdata(m)[i] = Enc<T>::make(q.v[m][i] = next());
              added(st->add(v), q, dup);
              // the stored one is a copy
              for (int m = 0; m < nm; ++m) for (auto &x : v.get_matdata(m)) x = Enc<T>::make(-5);
            }
          }
        }
      });
    });
  }
  template <class T> void copy_uni(UniStateVector<T, Mesh> &v, Field q) {
    if (q.dom == 1) {   // onto the mesh of the state
      q.dom = 0;
      int n = mesh[0]->num_entities(q.kind, q.type);
      q.v[0].resize(n, Enc<T>::read(T()));
    }
    auto &r = st->add(v);
    added(r, q, lookup(q.name, 0, 0, q.elem, q.kind, q.type));
    for (auto &x : v) x = Enc<T>::make(-5);
  }
  template <class T, class D> void copy_uni(UniStateVector<T, D> &v, Field q) {
    auto &r = st->add(v);
    added(r, q, lookup(q.name, q.dom, 0, q.elem, q.kind, q.type));
    for (auto &x : v) x = Enc<T>::make(-5);
  }

  template <class It, class End> void found(It it, End end, int want, char const *how) {
    if (want < 0) CHECK(it == end, how, "field that is not there found");
    else CHECK(it != end && it->get() == f[want].p, how, "field " << want << (it == end ? " not found" : ": another found"));
  }

  template <template <class, class> class SV, class T, class D>
  void find_get(bool multi, std::string const &n, int d, std::shared_ptr<D> dom, int elem, Entity_kind k, Entity_type t) {
    State &s = *st;
    State const &cs = s;
    int w = lookup(n, d, multi, elem, k, t);
    found(s.template find<T, D, SV>(n, dom, k, t), s.end(), w, "find");
    found(cs.template find<T, D, SV>(n, dom, k, t), cs.cend(), w, "find");
    bool keep = w >= 0 && h.size() < 12;
    {
      auto v = std::make_shared<SV<T, D>>();
      bool ok = s.get(n, dom, k, t, v.get());
      CHECK_EQ(ok, w >= 0, "get", "field found by value");
      if (keep) hold(multi_tag<SV>(), w, "a copied handle", true, v);
    }
    {
      std::shared_ptr<SV<T, D>> v;
      bool ok = s.get(n, dom, k, t, &v);
      CHECK_EQ(ok, w >= 0, "get", "field found by pointer");
      CHECK(w < 0 || v.get() == f[w].p, "get", "pointer to field " << w);
      if (keep) hold(multi_tag<SV>(), w, "a pointer", true, v);
      std::shared_ptr<SV<T, D> const> cv;
      ok = cs.get(n, dom, k, t, &cv);
      CHECK_EQ(ok, w >= 0, "get", "field found by const pointer");
      CHECK(w < 0 || cv.get() == f[w].p, "get", "const pointer to field " << w);
    }
    w = lookup(n, d, multi, elem, Entity_kind::ANY_KIND, Entity_type::ALL);
    {
      std::shared_ptr<SV<T, D>> v;
      bool ok = s.get(n, dom, &v);
      CHECK_EQ(ok, w >= 0, "get", "field found by name and domain");
      CHECK(w < 0 || v.get() == f[w].p, "get", "pointer to field " << w << " by name and domain");
      std::shared_ptr<SV<T, D> const> cv;
      ok = cs.get(n, dom, &cv);
      CHECK_EQ(ok, w >= 0, "get", "field found by name and domain, const");
      CHECK(w < 0 || cv.get() == f[w].p, "get", "const pointer to field " << w << " by name and domain");
    }
    by_name<SV, T>(multi, n, elem, dom);
  }
  template <template <class, class> class SV, class T>
  void by_name(bool multi, std::string const &n, int elem, std::shared_ptr<Mesh>) {
    auto v = std::make_shared<SV<T, Mesh>>();
    int w = lookup(n, 0, multi, elem, Entity_kind::ANY_KIND, Entity_type::ALL);
    bool ok = st->get(n, v.get());
    CHECK_EQ(ok, w >= 0, "get", "field found by name");
    if (ok && h.size() < 14) hold(multi_tag<SV>(), w, "a handle by name", true, v);
  }
  template <template <class, class> class SV, class T, class D>
  void by_name(bool, std::string const &, int, std::shared_ptr<D>) {}

  template <template <class, class> class SV> struct multi_tag {};
  template <class P> void hold(multi_tag<UniStateVector>, int w, char const *what, bool o, P v) { hold_uni(w, what, o, v); }
  template <class P> void hold(multi_tag<MultiStateVector>, int w, char const *what, bool o, P v) { hold_multi(w, what, o, v); }

  void find() {
    State &s = *st;
    State const &cs = s;
    // close to an existing field, with some criteria changed
    std::string n = some_name();
    int d = g.draw(ndom()), e = g.draw(kElems);
    bool multi = g.flip();
    Entity_kind k = g.chance(1, 3) ? Entity_kind::ANY_KIND : g.pick(kinds);
    Entity_type t = some_type();
    if (f.size() && g.chance(5, 6)) {
      Field const &q = f[g.draw(f.size())];
      if (g.chance(9, 10)) n = q.name;
      if (g.chance(9, 10)) d = q.dom;
      if (g.chance(9, 10)) e = q.elem;
      if (g.chance(9, 10)) multi = q.multi;
      if (g.chance(2, 3)) k = q.kind;
      if (g.chance(2, 3)) t = q.type;
    }
    c.say() << "; find '" << n << "' " << (multi ? "multi " : "") << "elem " << e << " on domain " << d << k << t;
    int w = lookup(n, -1, -1, -1, k, t);
    found(s.find(n, k, t), s.end(), w, "find");
    found(cs.find(n, k, t), cs.cend(), w, "find");
    w = lookup(n, -1, -1, -1, Entity_kind::ANY_KIND, Entity_type::ALL);
    found(s.find(n), s.end(), w, "find");
    found(cs.find(n), cs.cend(), w, "find");
    w = lookup(n, -1, -1, -1, k, Entity_type::ALL);
    found(s.find(n, k), s.end(), w, "find");
    found(cs.find(n, k), cs.cend(), w, "find");
    with_dom(d, [&](auto dom) {
      using D = typename decltype(dom)::element_type;
      found(s.find(n, dom, k, t), s.end(), lookup(n, d, -1, -1, k, t), "find");
      found(cs.find(n, dom, k, t), cs.cend(), lookup(n, d, -1, -1, k, t), "find");
      // with the entity type, or both criteria, left to their default: anything goes
      Entity_kind K0 = Entity_kind::ANY_KIND;
      Entity_type T0 = Entity_type::ALL;
      constexpr StateVector_type U = StateVector_type::UNIVAL, M = StateVector_type::MULTIVAL;
      found(s.find(n, dom), s.end(), lookup(n, d, -1, -1, K0, T0), "find");
      found(cs.find(n, dom), cs.cend(), lookup(n, d, -1, -1, K0, T0), "find");
      found(s.find(n, dom, k), s.end(), lookup(n, d, -1, -1, k, T0), "find");
      found(cs.find(n, dom, k), cs.cend(), lookup(n, d, -1, -1, k, T0), "find");
      found(s.template find<D, U>(n, dom), s.end(), lookup(n, d, 0, -1, K0, T0), "find");
      found(cs.template find<D, U>(n, dom), cs.cend(), lookup(n, d, 0, -1, K0, T0), "find");
      found(s.template find<D, M>(n, dom), s.end(), lookup(n, d, 1, -1, K0, T0), "find");
      found(cs.template find<D, M>(n, dom), cs.cend(), lookup(n, d, 1, -1, K0, T0), "find");
      found(s.template find<D, U>(n, dom, k), s.end(), lookup(n, d, 0, -1, k, T0), "find");
      found(cs.template find<D, U>(n, dom, k), cs.cend(), lookup(n, d, 0, -1, k, T0), "find");
      found(s.template find<D, StateVector_type::UNIVAL>(n, dom, k, t), s.end(), lookup(n, d, 0, -1, k, t), "find");
      found(cs.template find<D, StateVector_type::UNIVAL>(n, dom, k, t), cs.cend(), lookup(n, d, 0, -1, k, t), "find");
      found(s.template find<D, StateVector_type::MULTIVAL>(n, dom, k, t), s.end(), lookup(n, d, 1, -1, k, t), "find");
      found(cs.template find<D, StateVector_type::MULTIVAL>(n, dom, k, t), cs.cend(), lookup(n, d, 1, -1, k, t), "find");
      with_elem(e, [&](auto tag) {
        using T = typename decltype(tag)::type;
        found(s.template find<T, D>(n, dom, k, t), s.end(), lookup(n, d, 0, e, k, t), "find");
        found(cs.template find<T, D>(n, dom, k, t), cs.cend(), lookup(n, d, 0, e, k, t), "find");
        found(s.template find<T, D, StateVector_type::MULTIVAL>(n, dom, k, t), s.end(), lookup(n, d, 1, e, k, t), "find");
        found(cs.template find<T, D, StateVector_type::MULTIVAL>(n, dom, k, t), cs.cend(), lookup(n, d, 1, e, k, t), "find");
        found(s.template find<T, D>(n, dom), s.end(), lookup(n, d, 0, e, K0, T0), "find");
        found(cs.template find<T, D>(n, dom), cs.cend(), lookup(n, d, 0, e, K0, T0), "find");
        found(s.template find<T, D>(n, dom, k), s.end(), lookup(n, d, 0, e, k, T0), "find");
        found(cs.template find<T, D>(n, dom, k), cs.cend(), lookup(n, d, 0, e, k, T0), "find");
        found(s.template find<T, D, M>(n, dom), s.end(), lookup(n, d, 1, e, K0, T0), "find");
        found(cs.template find<T, D, M>(n, dom), cs.cend(), lookup(n, d, 1, e, K0, T0), "find");
        found(s.template find<T, D, M>(n, dom, k), s.end(), lookup(n, d, 1, e, k, T0), "find");
        found(cs.template find<T, D, M>(n, dom, k), cs.cend(), lookup(n, d, 1, e, k, T0), "find");
        found(s.template find<T, D, UniStateVector>(n, dom), s.end(), lookup(n, d, 0, e, K0, T0), "find");
        found(cs.template find<T, D, UniStateVector>(n, dom), cs.cend(), lookup(n, d, 0, e, K0, T0), "find");
        found(s.template find<T, D, MultiStateVector>(n, dom), s.end(), lookup(n, d, 1, e, K0, T0), "find");
        found(cs.template find<T, D, MultiStateVector>(n, dom), cs.cend(), lookup(n, d, 1, e, K0, T0), "find");
        if constexpr (!meshset<D>) if (multi) this->template find_get<MultiStateVector, T>(true, n, d, dom, e, k, t);
        if (!multi || meshset<D>) this->template find_get<UniStateVector, T>(false, n, d, dom, e, k, t);
      });
    });
  }

  // One lookup, done just before an operation and again just after it
  std::function<void()> probe() {
    std::string n = some_name();
    int d = g.chance(1, 2) ? 0 : g.draw(ndom()), e = g.chance(1, 3) ? 1 : g.draw(kElems), what = g.draw(4);
    Entity_kind k = g.flip() ? Entity_kind::ANY_KIND : g.chance(1, 2) ? Entity_kind::CELL : g.pick(kinds);
    Entity_type t = g.flip() ? Entity_type::ALL : some_type();
    return [=]() {
      State &s = *st;
      State const &cs = s;
      if (what == 0) {
        int w = lookup(n, -1, -1, -1, k, t);
        found(s.find(n, k, t), s.end(), w, "find");
        found(cs.find(n, k, t), cs.cend(), w, "find");
        return;
      }
      with_dom(d, [&](auto dom) {
        using D = typename decltype(dom)::element_type;
        if (what == 1) {
          found(s.find(n, dom, k, t), s.end(), lookup(n, d, -1, -1, k, t), "find");
          found(cs.template find<D, StateVector_type::MULTIVAL>(n, dom, k, t), cs.cend(), lookup(n, d, 1, -1, k, t), "find");
          return;
        }
        with_elem(e, [&](auto tag) {
          using T = typename decltype(tag)::type;
          int w = lookup(n, d, 0, e, k, t);
          if (what == 2) {
            found(s.template find<T, D>(n, dom, k, t), s.end(), w, "find");
            return;
          }
          std::shared_ptr<UniStateVector<T, D>> v;
          bool ok = s.get(n, dom, k, t, &v);
          CHECK_EQ(ok, w >= 0, "get", "field '" << n << "' found when asked again");
          CHECK(w < 0 || v.get() == f[w].p, "get", "pointer to field " << w << " asked for again");
        });
      });
    };
  }

  void copy_again() {   // copies of stored vectors, also of vectors of other domains
    if (f.empty()) return;
    int i = g.draw(f.size());
    Field q = f[i];
    c.say() << "; copy field " << i;
    with_elem(q.elem, [&](auto tag) {
      using T = typename decltype(tag)::type;
      with_dom(q.dom, [&](auto dom) {
        using D = typename decltype(dom)::element_type;
        if (q.multi) return;
        copy_stored(dynamic_cast<UniStateVector<T, D> &>(*f[i].p), q);
      });
    });
  }
  template <class T> void copy_stored(UniStateVector<T, Mesh> &v, Field q) {
    if (q.dom == 1) {
      q.dom = 0;
      q.v[0].resize(mesh[0]->num_entities(q.kind, q.type), Enc<T>::read(T()));
    }
    int dup = lookup(q.name, q.dom, 0, q.elem, q.kind, q.type);
    added(st->add(v), q, dup);
  }
  template <class T, class D> void copy_stored(UniStateVector<T, D> &v, Field q) {
    int dup = lookup(q.name, q.dom, 0, q.elem, q.kind, q.type);
    added(st->add(v), q, dup);
  }

  void write() {
    if (h.empty()) return;
    Handle &x = h[g.draw(h.size())];
    Field &q = f[x.f];
    if (q.v.empty()) return;
    int m = g.draw(q.v.size());
    if (q.v[m].empty()) return;
    int i = g.draw(q.v[m].size()), v = next();
    c.say() << "; write field " << x.f << " at " << i << " through " << x.what;
    x.write(m, i, v);
    q.v[m][i] = v;
    c.label("write");
  }
};

void history(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 8;
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  int own = t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size();
  o.tiles = own ? g.draw(std::min(own, g.chance(1, 6) ? 6 : 2) + 1) : 0;
  GenOpts go2;
  go2.maxcells = 4;
  Topo t2 = gen_topo(g, c, go2);
  World w{g, c};
  w.names = name_pool(g, 2, 6);
  bool many = g.chance(1, 200);
  if (many) for (int i = 0; i < 300; ++i) w.names.push_back("v" + std::to_string(i));
  w.mesh[0] = std::make_shared<GenMesh>(t, o);
  w.mesh[1] = std::make_shared<GenMesh>(t2, MeshOpts());
  w.ncells = t.cn.size();
  for (int i = g.chance(1, 2) ? 0 : g.draw(3); i > 0; --i) {
    Mesh &m = *w.mesh[0];
    auto k = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE});
    w.sets.push_back(make_meshset("set" + std::to_string(i), m, k,
                                  g.subset(entity_list(m, k, Entity_type::PARALLEL_OWNED), 1, 2),
                                  g.subset(entity_list(m, k, Entity_type::PARALLEL_GHOST), 1, 2), g.flip()));
    c.label("sets");
  }
  w.kinds = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE,
             Entity_kind::CORNER, Entity_kind::CELL};
  w.st = State::create(w.mesh[0]);
  CHECK(w.st->mesh() == w.mesh[0], "mesh", "mesh of the state");
  int nm = g.draw(3);
  std::vector<int> all;
  for (int k = 0; k < w.ncells; ++k)
    if (t.etype(Entity_kind::CELL, k) != Entity_type::BOUNDARY_GHOST) all.push_back(k);
  for (int m = 0; m < nm; ++m) w.st->add_material("m" + std::to_string(m), g.subset(all, 1, 2));
  c.say() << topo_summary(t) << "; " << o.tiles << " tiles, " << w.sets.size() << " sets, " << nm << " materials";
  w.verify();
  int nops = g.range(1, g.chance(1, 30) ? 90 : g.chance(1, 3) ? 24 : 10);
  if (many) {
    for (int i = g.range(60, 300); i > 0; --i) w.add();
    w.verify();
  }
  for (int i = 0; i < nops; ++i) {
    auto again = w.probe();
    again();
    switch (g.draw(6)) {
      case 0: case 1: w.add(); break;
      case 2: case 3: w.find(); break;
      case 4: w.write(); break;
      default: w.copy_again();
    }
    again();
    if (i == nops - 1 || g.chance(3, 4)) w.verify();
  }
  std::ostringstream os;
  os << *w.st;
  w.verify();
  c.nontrivial(w.f.size() >= 2);
  if (w.h.size()) c.label("handles");
  // handles outlive the manager
  w.st.reset();
  for (auto &f : w.f) f.p = nullptr;
  for (auto &x : w.h) w.check_handle(x);
  w.write();
  for (auto &x : w.h) w.check_handle(x);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P16",
          "random histories of adding fields (uninitialised, by value, by array, by layout, by copy; on the state's "
          "mesh, another mesh, tiles and mesh sets; any kind, type and of six element types), looking them up with exact, open "
          "and near-miss criteria and writing through handles; non-trivial: at least two fields added",
          40000, 800000,
          {{"history", 1, history}},
          {"type ALL and kind ANY_KIND leave that criterion open, as documented"}};
}
