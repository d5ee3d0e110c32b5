// P11: set algebra of mesh sets against std::set
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

struct Model { std::set<int> own, gho; bool map; ints o, g; std::string name; };

std::set<int> uni(std::set<int> a, std::set<int> const &b) { a.insert(b.begin(), b.end()); return a; }
std::set<int> sub(std::set<int> a, std::set<int> const &b) { for (int x : b) a.erase(x); return a; }
std::set<int> isect(std::set<int> const &a, std::set<int> const &b) {
  std::set<int> r;
  for (int x : a) if (b.count(x)) r.insert(x);
  return r;
}
std::string str(std::set<int> const &s) { return pbt::str(ints(s.begin(), s.end())); }

void expressions(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 16;
  Topo t = gen_topo(g, c, go);
  GenMesh m(t, MeshOpts::all());
  Entity_kind k = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE,
      Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER});
  ints own = entity_list(m, k, Entity_type::PARALLEL_OWNED), gho = entity_list(m, k, Entity_type::PARALLEL_GHOST);
  std::set<int> O(own.begin(), own.end()), G(gho.begin(), gho.end());
  bool many = g.chance(1, 8);        // many sparse sets, many operands
  int n0 = many ? g.range(6, 14) : g.range(1, 5);
  std::vector<std::shared_ptr<MeshSet>> s;
  std::vector<Model> md;
  std::vector<bool> registered;
  c.say() << topo_summary(t) << "; sets of" << k << ":";
  for (int i = 0; i < n0; ++i) {
    int num = many ? 1 : g.range(0, 4), den = many ? 6 : 4;
    ints o = g.subset(own, num, den), gh = g.subset(gho, many ? 1 : g.range(0, 4), den);
    g.shuffle(o);
    g.shuffle(gh);
    Model x;
    x.own.insert(o.begin(), o.end());
    x.gho.insert(gh.begin(), gh.end());
    x.map = g.flip();
    x.name = "s" + std::to_string(i);
    x.o = o;
    x.g = gh;
    bool own_only = g.chance(1, 6);     // not known to the mesh
    if (own_only) s.push_back(std::make_shared<MeshSet>(x.name, m, k, o, gh, x.map));
    else s.push_back(make_meshset(x.name, m, k, o, gh, x.map));
    registered.push_back(!own_only);
    if (g.chance(1, 4)) {               // a set of the same name on another kind
      Entity_kind k2 = g.flip() ? Entity_kind::CELL : Entity_kind::NODE;
      if (k2 == k) k2 = Entity_kind::FACE;
      make_meshset(x.name, m, k2, g.subset(entity_list(m, k2, Entity_type::PARALLEL_OWNED), 1, 4), ints(), g.flip());
    }
    md.push_back(x);
    c.say() << " " << x.name << "=" << str(x.own) << "+" << str(x.gho);
  }
  int steps = g.range(1, g.chance(1, 30) ? 30 : 8);
  bool rich = false;
  for (int q = 0; q < steps; ++q) {
    int op = g.draw(4), cnt = many && g.flip() ? g.range(4, 14) : g.range(1, g.chance(1, 20) ? 12 : 4);
    std::vector<int> idx;
    for (int i = 0; i < cnt; ++i) idx.push_back(g.draw(s.size()));
    bool tmp = g.flip();
    std::vector<std::shared_ptr<MeshSet>> a;
    for (int i : idx) a.push_back(s[i]);
    Model r;
    r.own = md[idx[0]].own;
    r.gho = md[idx[0]].gho;
    r.map = md[idx[0]].map;
    std::shared_ptr<MeshSet> res;
    int before = m.num_sets(k);
    const char *name = "";
    switch (op) {
      case 0:
        name = "merge";
        for (int i : idx) { r.own = uni(r.own, md[i].own); r.gho = uni(r.gho, md[i].gho); }
        res = merge(a, tmp);
        break;
      case 1: {
        name = "subtract";
        std::vector<std::shared_ptr<MeshSet>> b(a.begin() + 1, a.end());
        for (size_t i = 1; i < idx.size(); ++i) {
          r.own = sub(r.own, md[idx[i]].own);
          r.gho = sub(r.gho, md[idx[i]].gho);
        }
        res = subtract(a[0], b, tmp);
        break;
      }
      case 2:
        name = "intersect";
        for (int i : idx) { r.own = isect(r.own, md[i].own); r.gho = isect(r.gho, md[i].gho); }
        res = intersect(a, tmp);
        break;
      default:
        name = "complement";
        for (int i : idx) { r.own = uni(r.own, md[i].own); r.gho = uni(r.gho, md[i].gho); }
        r.own = sub(O, r.own);
        r.gho = sub(G, r.gho);
        res = complement(a, tmp);
    }
    std::ostringstream w;
    w << name << pbt::str(idx) << (tmp ? " temporary" : "");
    c.say() << "; " << w.str();
    c.label(name);
    CHECK(res != nullptr, "null", w.str() << " gave no set");
    for (size_t i = 0; i < s.size(); ++i)
      CHECK(res != s[i], "alias", w.str() << " gave back its operand " << md[i].name);
    ints o = res->entities<Entity_type::PARALLEL_OWNED>(), gh = res->entities<Entity_type::PARALLEL_GHOST>();
    CHECK_SET(o, ints(r.own.begin(), r.own.end()), "owned", "owned entities of " << w.str());
    CHECK_SET(gh, ints(r.gho.begin(), r.gho.end()), "ghost", "ghost entities of " << w.str());
    ints cat = o;
    cat.insert(cat.end(), gh.begin(), gh.end());
    CHECK(cat == res->entities<Entity_type::ALL>(), "all", "full list of " << w.str());
    CHECK(res->kind() == k && &res->mesh() == &m, "meta", "kind or mesh of " << w.str());
    CHECK_EQ(m.num_sets(k), before + (tmp ? 0 : 1), "registered", "sets of the mesh after " << w.str());
    {   // per-kind views of the mesh's sets
      auto const &every = m.sets();
      CHECK(m.sets(Entity_kind::ANY_KIND) == every && m.num_sets(Entity_kind::ANY_KIND) == (int)every.size(),
            "views", "sets of any kind after " << w.str());
      for (auto kk : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE,
                      Entity_kind::WEDGE, Entity_kind::CORNER}) {
        std::vector<std::shared_ptr<MeshSet>> want;
        for (auto const &x : every) if (x->kind() == kk) want.push_back(x);
        CHECK(m.sets(kk) == want && m.num_sets(kk) == (int)want.size(), "views", "sets of" << kk << "after " << w.str());
      }
      for (size_t i = 0; i < s.size(); ++i)
        if (registered[i])
          CHECK(std::count(every.begin(), every.end(), s[i]) == 1, "views", md[i].name << " in the mesh after " << w.str());
    }
    registered.push_back(!tmp);
    if (!tmp) CHECK(m.sets().back() == res, "registered", "last set of the mesh after " << w.str());
    bool any = false;
    for (int e : cat) any = any || res->index_in_set(e) >= 0;
    if (r.map || any) {
      int n = m.num_entities(k, Entity_type::ALL);
      for (int e = 0; e < n; ++e) {
        auto it = std::find(cat.begin(), cat.end(), e);
        CHECK_EQ(res->index_in_set(e), it == cat.end() ? -1 : int(it - cat.begin()), "map",
                 "index of " << e << " in " << w.str());
      }
    }
    for (size_t i = 0; i < s.size(); ++i) {
      CHECK(s[i]->entities<Entity_type::PARALLEL_OWNED>() == md[i].o &&
            s[i]->entities<Entity_type::PARALLEL_GHOST>() == md[i].g && s[i]->name() == md[i].name,
            "operand", md[i].name << " was changed by " << w.str());
    }
    rich = rich || (idx.size() > 1 && !r.own.empty() && r.own != O);
    r.map = r.map || any;
    r.o = o;
    r.g = gh;
    r.name = res->name();
    if (g.chance(1, 3)) { r.name = "r" + std::to_string(q); res->set_name(r.name); }
    s.push_back(res);
    md.push_back(r);
  }
  c.label(gho.empty() ? "all owned" : "with ghosts");
  c.nontrivial(rich);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P11",
          "random sequences of merge, subtract, intersect and complement over a growing pool of sets on "
          "generated meshes with ghosts; non-trivial: some operation on two or more operands with a result "
          "that is neither empty nor everything",
          45000, 900000,
          {{"expressions", 1, expressions}},
          {"operands are sets of one kind on one mesh"}};
}
