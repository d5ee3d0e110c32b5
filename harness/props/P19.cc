// P19: fields through the mesh and back
#include "JaliState.h"
#include "JaliStateVector.h"
#include "genmesh.hh"
#include "genstate.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Content {   // a field on all entities of a kind of the mesh
  int elem;
  std::vector<double> v;
  bool operator==(Content const &o) const { return elem == o.elem && v == o.v; }
};
using Key = std::pair<std::string, int>;

template <class T> struct Flat {
  static void put(std::vector<double> &v, T const &t) { v.push_back(t); }
  static T draw(Gen &g) { return static_cast<T>(g.real(-1e6, 1e6)); }
};
template <> struct Flat<double> {
  static void put(std::vector<double> &v, double t) { v.push_back(t); }
  static double draw(Gen &g) {
    switch (g.draw(4)) {
      case 0: return some_real(g, -10, 10);
      case 1: return g.real(-1e300, 1e300);
      case 2: return g.pick(std::vector<double>{0, -1, 5e-324, -1.7976931348623157e308, 1.0 / 3,
                                                std::numeric_limits<double>::infinity()});
      default: return g.real(-1, 1) * 1e-12;
    }
  }
};
template <> struct Flat<int> {
  static void put(std::vector<double> &v, int t) { v.push_back(t); }
  static int draw(Gen &g) {
    return g.chance(1, 3) ? g.pick(std::vector<int>{0, -1, 2147483647, -2147483647 - 1}) : g.range(-1000, 1000);
  }
};
template <std::size_t N> struct Flat<std::array<double, N>> {
  static void put(std::vector<double> &v, std::array<double, N> const &t) { v.insert(v.end(), t.begin(), t.end()); }
  static std::array<double, N> draw(Gen &g) {
    std::array<double, N> a;
    for (auto &x : a) x = Flat<double>::draw(g);
    return a;
  }
};
template <> struct Flat<Rec> {
  static void put(std::vector<double> &v, Rec const &r) { v.push_back(r.a); v.push_back(r.b); }
  static Rec draw(Gen &g) { return Enc<Rec>::make(g.draw(100)); }
};
template <> struct Flat<float> {
  static void put(std::vector<double> &v, float t) { v.push_back(t); }
  static float draw(Gen &g) { return g.draw(100); }
};
const int kFloat = kElems;
template <class F> void with_any(int e, F f) {
  if (e == kFloat) f(Tag<float>());
  else with_elem(e, f);
}

template <class T, class D> std::vector<double> flat(UniStateVector<T, D> const &v) {
  std::vector<double> r;
  for (auto it = v.cbegin(); it != v.cend(); ++it) Flat<T>::put(r, *it);
  return r;
}

// type name under which a mesh of that dimension keeps an element type
std::string mesh_type(int elem, int sdim) {
  switch (elem) {
    case 0: return "INT";
    case 1: return "DOUBLE";
    case 2: return sdim == 2 ? "VECTOR" : "";
    case 3: return sdim == 3 ? "VECTOR" : sdim == 2 ? "TENSOR" : "";
    case 4: return sdim == 3 ? "TENSOR" : "";
    default: return "";
  }
}

struct Entry {   // a vector of the state
  std::string name;
  bool own_mesh;
  int elem;
  Entity_kind kind;
  Entity_type type;
  std::vector<double> v;
  std::function<std::vector<double>()> read;
  size_t n;
  bool multi;
};

void roundtrip(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 8;
  Topo t = gen_topo(g, c, go);
  MeshOpts o = gen_mesh_opts(g);
  int own = t.list(Entity_kind::CELL, Entity_type::PARALLEL_OWNED).size();
  o.tiles = own ? g.draw(std::min(own, g.chance(1, 6) ? 6 : 2) + 1) : 0;
  GenOpts go2;
  go2.maxcells = 4;
  Topo t2 = gen_topo(g, c, go2);
  auto mesh = std::make_shared<GenMesh>(t, o);
  auto other = std::make_shared<GenMesh>(t2, MeshOpts());
  std::shared_ptr<Mesh> bmesh = mesh, bother = other;
  auto st = State::create(bmesh);
  c.say() << topo_summary(t) << "; " << o.tiles << " tiles";
  std::vector<int> storable;
  for (auto k : {Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CELL})
    if ((int)mesh->num_entities(k, Entity_type::ALL) == t.count(k)) storable.push_back((int)k);

  std::map<Key, Content> kept;     // what the mesh has to keep
  std::vector<Entry> entries;
  if (g.flip()) {
    ints all;
    for (int k = 0; k < (int)t.cn.size(); ++k)
      if (t.etype(Entity_kind::CELL, k) != Entity_type::BOUNDARY_GHOST) all.push_back(k);
    st->add_material("m", g.subset(all, 1, 2));
  }
  bool many = g.chance(1, 16);     // many fields of one kind
  Entity_kind mkind = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE});
  std::vector<std::string> names = name_pool(g, 3, many ? 40 : g.chance(1, 4) ? 20 : 8);
  auto add = [&](auto tag, int elem) {
    using T = typename decltype(tag)::type;
    Entry e;
    e.name = g.pick(names);
    e.elem = elem;
    e.kind = g.chance(1, 6) ? g.pick(std::vector<Entity_kind>{Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::CORNER})
                            : g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE});
    e.type = g.chance(3, 4) ? Entity_type::ALL
                            : g.pick(std::vector<Entity_type>{Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                                                              Entity_type::BOUNDARY_GHOST});
    e.multi = g.chance(1, 8);
    if (many && g.chance(7, 8)) { e.kind = mkind; e.type = Entity_type::ALL; }
    int where = g.chance(3, 4) ? 0 : g.draw(2 + mesh->num_tiles());
    e.own_mesh = where == 0;
    c.say() << "; " << (e.multi ? "multi " : "") << (elem == kFloat ? "float" : elem_name(elem)) << " '" << e.name
            << "' on domain " << where << e.kind << e.type;
    if (e.multi) {
      st->template add<T, Mesh, MultiStateVector>(e.name, bmesh, e.kind, e.type, Flat<T>::draw(g));
      return;
    }
    size_t before = st->size();
    auto put = [&](auto dom) {
      using D = typename decltype(dom)::element_type;
      auto &v = st->template add<T, D, UniStateVector>(e.name, dom, e.kind, e.type);
      if ((size_t)st->size() == before) return;
      T const same = Flat<T>::draw(g);
      bool few = g.chance(1, 2);
      for (auto &x : v) x = few ? same : Flat<T>::draw(g);
      e.v = flat(v);
      e.n = v.size();
      auto *p = &v;
      e.read = [p] { return flat(*p); };
      entries.push_back(e);
    };
    if (where == 0) put(bmesh);
    else if (where == 1) put(bother);
    else put(mesh->tiles()[where - 2]);
  };
  auto some_elem = [&] { return g.chance(1, 10) ? g.range(5, kFloat) : g.draw(5); };
  auto check_mesh = [&] {
    CHECK_EQ(mesh->fields.size(), kept.size(), "stored", "number of fields on the mesh");
    for (auto &k : kept) {
      auto it = mesh->fields.find(k.first);
      CHECK(it != mesh->fields.end(), "stored", "field '" << k.first.first << "' on" << (Entity_kind)k.first.second
            << " is not on the mesh");
      CHECK_EQ(it->second.type, mesh_type(k.second.elem, t.sdim), "stored", "type of field '" << k.first.first << "'");
      std::vector<double> v = it->second.d;
      if (k.second.elem == 0) v.assign(it->second.i.begin(), it->second.i.end());
      CHECK(v == k.second.v, "stored", "values of field '" << k.first.first << "' on" << (Entity_kind)k.first.second
            << " on the mesh: " << pbt::str(v) << ", in the state " << pbt::str(k.second.v));
    }
  };
  auto export_model = [&] {
    for (auto &e : entries) {
      if (!e.own_mesh || (int)e.n != (int)mesh->num_entities(e.kind, Entity_type::ALL)) continue;
      if (mesh_type(e.elem, t.sdim).empty()) continue;
      if (std::find(storable.begin(), storable.end(), (int)e.kind) == storable.end()) continue;
      bool taken = false;
      for (auto &k : kept)
        if (k.first.first == e.name && (k.first.second != (int)e.kind || k.second.elem != e.elem)) taken = true;
      if (taken) { c.label("refused by the mesh"); continue; }
      kept[{e.name, (int)e.kind}] = Content{e.elem, e.v};
    }
  };
  auto check_state = [&](char const *when) {
    for (auto &e : entries)
      CHECK(e.read() == e.v, "state", "values of '" << e.name << "' in the state " << when);
  };

  int rounds = g.range(1, 3), other_entries = 0;
  for (int r = 0; r < rounds; ++r) {
    int n = many && r == 0 ? g.range(8, 40) : g.range(r ? 0 : 1, g.chance(1, 20) ? 24 : 6);
    for (int i = 0; i < n; ++i) {
      int e = some_elem();
      with_any(e, [&](auto tag) { add(tag, e); });
    }
    if (r) {   // change values of fields exported before
      for (auto &e : entries)
        if (e.own_mesh && g.chance(1, 3))
          with_any(e.elem, [&](auto tag) {
            using T = typename decltype(tag)::type;
            std::shared_ptr<UniStateVector<T, Mesh>> v;
            for (auto it = st->begin(); it != st->end(); ++it) {
              v = std::dynamic_pointer_cast<UniStateVector<T, Mesh>>(*it);
              if (v && v->name() == e.name && v->domain() == bmesh && v->entity_kind() == e.kind &&
                  v->entity_type() == e.type) break;
              v.reset();
            }
            if (!v) return;
            for (auto &x : *v) x = Flat<T>::draw(g);
            e.v = flat(*v);
          });
    }
    size_t before = st->size();
    c.say() << "; export";
    st->export_to_mesh();
    CHECK_EQ((size_t)st->size(), before, "state", "number of fields of the state after the export");
    check_state("after the export");
    export_model();
    check_mesh();

    // a new state from the mesh
    auto st2 = State::create(bmesh);
    for (int twice = 0; twice < (g.chance(1, 4) ? 2 : 1); ++twice) {
      st2->init_from_mesh();
      CHECK_EQ((size_t)st2->size(), kept.size(), "init", "number of fields of the new state");
      for (auto &k : kept) {
        with_any(k.second.elem, [&](auto tag) {
          using T = typename decltype(tag)::type;
          Entity_kind kind = (Entity_kind)k.first.second;
          std::shared_ptr<UniStateVector<T, Mesh>> v;
          bool ok = st2->get(k.first.first, bmesh, kind, Entity_type::ALL, &v);
          CHECK(ok && v, "init", "field '" << k.first.first << "' on" << kind << " is not in the new state");
          CHECK(v->entity_type() == Entity_type::ALL && v->entity_kind() == kind, "init", "kind of '" << k.first.first << "'");
          CHECK(flat(*v) == k.second.v, "init", "values of '" << k.first.first << "' in the new state: "
                << pbt::str(flat(*v)) << ", stored were " << pbt::str(k.second.v));
        });
      }
      check_mesh();
    }
    // storage is not shared
    for (auto &k : kept)
      with_any(k.second.elem, [&](auto tag) {
        using T = typename decltype(tag)::type;
        std::shared_ptr<UniStateVector<T, Mesh>> v;
        st2->get(k.first.first, bmesh, (Entity_kind)k.first.second, Entity_type::ALL, &v);
        for (auto &x : *v) x = T();
      });
    check_state("after the import");
    check_mesh();

    // the state itself takes in what it does not have
    if (g.chance(1, 4)) {
      size_t want = entries.size(), multis = st->size() - entries.size() - other_entries;
      ints fresh;
      std::vector<Entry> got;
      for (auto &k : kept) {
        bool there = false;
        for (auto &e : entries)
          there |= e.own_mesh && e.name == k.first.first && e.elem == k.second.elem && (int)e.kind == k.first.second;
        CHECK(there, "model", "field '" << k.first.first << "' came from nowhere");
      }
      st->init_from_mesh();
      CHECK_EQ((size_t)st->size(), want + multis + other_entries, "init", "fields of the exporting state after reading the mesh");
      check_state("after reading the mesh");
    }
  }
  c.nontrivial(kept.size() >= 2);
  if (entries.size() > kept.size()) c.label("some not exportable");
}

}  // namespace

pbt::Property pbt::property() {
  return {"P19",
          "random collections of fields of supported and other element types, on any kind and type of entity of the "
          "mesh, another mesh and tiles, and multi-material ones, exported to a mesh that keeps fields in memory "
          "(repeatedly, with changes in between) and read back into new states and the same one; non-trivial: at "
          "least two fields kept by the mesh",
          40000, 800000,
          {{"roundtrip", 1, roundtrip}},
          {"the mesh framework refuses names in use by a field of another kind or type, as documented"}};
}
