// P12: histories of additions to and removals from mesh sets
#include "genmesh.hh"
using namespace jv;
using namespace Jali;

namespace {

void check_set(Ctx &c, Mesh const &m, MeshSet const &s, std::set<int> const &own,
               std::set<int> const &gho, bool map, std::string const &what) {
  ints o = s.entities<Entity_type::PARALLEL_OWNED>(), gh = s.entities<Entity_type::PARALLEL_GHOST>();
  ints all = s.entities<Entity_type::ALL>();
  CHECK_SET(o, ints(own.begin(), own.end()), "owned", "owned entities after " << what);
  CHECK_SET(gh, ints(gho.begin(), gho.end()), "ghost", "ghost entities after " << what);
  ints cat = o;
  cat.insert(cat.end(), gh.begin(), gh.end());
  CHECK(all == cat, "all", "full list after " << what << ": " << pbt::str(all)
        << " is not the owned entities " << pbt::str(o) << " followed by the ghosts " << pbt::str(gh));
  CHECK_EQ(s.num_entities(Entity_type::PARALLEL_OWNED), (unsigned)o.size(), "size", "owned size after " << what);
  CHECK_EQ(s.num_entities(Entity_type::PARALLEL_GHOST), (unsigned)gh.size(), "size", "ghost size after " << what);
  CHECK_EQ(s.num_entities(), (unsigned)all.size(), "size", "size after " << what);
  CHECK_EQ(s.num_entities(s.kind(), Entity_type::ALL), (unsigned)all.size(), "size", "size of kind after " << what);
  CHECK(s.num_entities(Entity_type::BOUNDARY_GHOST) == 0 && s.entities<Entity_type::BOUNDARY_GHOST>().empty(), "size",
        "boundary ghosts in the set after " << what);
  int n = m.num_entities(s.kind(), Entity_type::ALL);
  for (int e = 0; e < n; ++e) {
    int want = -1;
    if (map) {
      auto it = std::find(all.begin(), all.end(), e);
      if (it != all.end()) want = it - all.begin();
    }
    CHECK_EQ(s.index_in_set(e), want, "map", "index of " << e << " after " << what);
  }
}

void history(Gen &g, Ctx &c) {
  GenOpts go;
  go.maxcells = g.chance(1, 40) ? 90 : 12;
  Topo t = gen_topo(g, c, go);
  GenMesh m(t, MeshOpts::all());
  Entity_kind k = g.pick(std::vector<Entity_kind>{Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE,
      Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER});
  ints own = entity_list(m, k, Entity_type::PARALLEL_OWNED), gho = entity_list(m, k, Entity_type::PARALLEL_GHOST),
       bnd = entity_list(m, k, Entity_type::BOUNDARY_GHOST);
  bool map = g.chance(3, 4);
  ints o0 = g.subset(own, 1, 3), g0 = g.subset(gho, 1, 3);
  g.shuffle(o0);
  g.shuffle(g0);
  struct H { std::shared_ptr<MeshSet> s; std::set<int> mo, mg; };     // the set and copies of it
  std::vector<H> hs(1);
  hs[0].mo.insert(o0.begin(), o0.end());
  hs[0].mg.insert(g0.begin(), g0.end());
  hs[0].s = make_meshset("s", m, k, o0, g0, map);
  c.say() << topo_summary(t) << "; set of" << k << "owned " << pbt::str(o0) << " ghost " << pbt::str(g0)
          << (map ? " with map:" : ":");
  check_set(c, m, *hs[0].s, hs[0].mo, hs[0].mg, map, "construction");
  CHECK(hs[0].s->kind() == k && hs[0].s->name() == "s" && &hs[0].s->mesh() == &m, "meta", "name, kind or mesh of the set");
  int steps = g.range(1, g.chance(1, 20) ? 120 : 14);
  bool hadg = !gho.empty();
  int changed = 0;
  ints all = own;
  all.insert(all.end(), gho.begin(), gho.end());
  all.insert(all.end(), bnd.begin(), bnd.end());
  std::set<int> so(own.begin(), own.end()), sg(gho.begin(), gho.end());
  for (int i = 0; i < steps; ++i) {
    std::ostringstream w;
    size_t at = g.draw(hs.size());
    auto &s = hs[at].s;
    auto &mo = hs[at].mo, &mg = hs[at].mg;
    auto in = [&](int e) { return mo.count(e) || mg.count(e); };
    auto add = [&](int e) { if (so.count(e)) { mo.insert(e); changed++; } else if (sg.count(e)) { mg.insert(e); changed++; } };
    auto rem = [&](int e) { changed += mo.erase(e) + mg.erase(e); };
    int probe = g.pick(all);
    Entity_type pty = g.pick(std::vector<Entity_type>{Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST,
                                                      Entity_type::ALL});
    if (map) s->index_in_set(probe);
    s->num_entities(pty);
    if (at) w << " [copy " << at << "]";
    // what to remove may be named by the lists of a set itself
    auto of = [&](MeshSet const &x, int i) -> ints const & {
      return i == 0 ? x.entities<Entity_type::ALL>() : i == 1 ? x.entities<Entity_type::PARALLEL_OWNED>()
                                                             : x.entities<Entity_type::PARALLEL_GHOST>();
    };
    switch (g.chance(1, 8) ? 4 + g.draw(2) : g.draw(4)) {
      case 4: {
        ints const &l = of(*hs[g.draw(hs.size())].s, g.draw(3));
        if (l.empty()) break;
        int const &e = l[g.draw(l.size())];
        w << " rem " << e << " (named by a list of a set)";
        rem(int(e));
        s->rem_entity(e);
        break;
      }
      case 5: {
        ints const &l = of(*hs[g.draw(hs.size())].s, g.draw(3));
        w << " rem " << pbt::str(l) << " (a list of a set)";
        for (int e : l) rem(e);
        s->rem_entities(l);
        break;
      }
      case 0: {
        int e = g.pick(all);
        if (in(e)) { rem(e); s->rem_entity(e); w << " rem " << e; break; }
        add(e);
        s->add_entity(e);
        w << " add " << e;
        break;
      }
      case 1: {
        int e = g.pick(all);
        rem(e);
        s->rem_entity(e);
        w << " rem " << e;
        break;
      }
      case 2: {   // list of new entities, possibly of one type only
        ints from = g.draw(3) == 0 ? own : g.draw(2) == 0 ? gho : all, l;
        for (int e : g.subset(from, 1, 3)) if (!in(e)) l.push_back(e);
        g.shuffle(l);
        for (int e : l) add(e);
        s->add_entities(l);
        w << " add " << pbt::str(l);
        break;
      }
      default: {
        ints from = g.draw(3) == 0 ? own : g.draw(2) == 0 ? gho : all;
        ints l = g.subset(from, 1, 3);
        if (!l.empty() && g.chance(1, 3)) l.push_back(l[g.draw(l.size())]);   // named twice
        g.shuffle(l);
        for (int e : l) rem(e);
        s->rem_entities(l);
        w << " rem " << pbt::str(l);
        break;
      }
    }
    c.say() << w.str();
    if (map) {        // one entity, asked for just before the operation too
      int p = in(probe) ? 1 : 0;
      CHECK_EQ(s->index_in_set(probe) >= 0 ? 1 : 0, p, "map", "presence of " << probe << " asked again after " << w.str());
    }
    CHECK_EQ(s->num_entities(pty), pty == Entity_type::PARALLEL_OWNED ? mo.size() : pty == Entity_type::PARALLEL_GHOST
             ? mg.size() : mo.size() + mg.size(), "count", "number of entities" << pty << "asked again after " << w.str());
    if (i == steps - 1 || g.chance(3, 4))
    for (size_t j = 0; j < hs.size(); ++j)
      check_set(c, m, *hs[j].s, hs[j].mo, hs[j].mg, map, w.str() + (j == at ? "" : " of another copy"));
    if (g.chance(1, 6)) {
      H h = hs[at];
      h.s = std::make_shared<MeshSet>(*h.s);
      c.say() << " copy";
      check_set(c, m, *h.s, h.mo, h.mg, map, "copying");
      CHECK(h.s->kind() == k && h.s->name() == hs[at].s->name() && &h.s->mesh() == &m, "meta",
            "name, kind or mesh of a copy");
      if (hs.size() < 3) hs.push_back(h);
    }
  }
  if (hs.size() > 1) {
    c.label("with copies");
    hs[1].s->clear();
    for (auto ty : {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL})
      CHECK_EQ(hs[1].s->num_entities(ty), 0u, "clear", "number of entities" << ty << "of a cleared set");
    CHECK(hs[1].s->entities<Entity_type::ALL>().empty() && hs[1].s->entities<Entity_type::PARALLEL_OWNED>().empty() &&
          hs[1].s->entities<Entity_type::PARALLEL_GHOST>().empty(), "clear", "lists of a cleared set");
    for (int e : all) CHECK_EQ(hs[1].s->index_in_set(e), -1, "clear", "index of " << e << " in a cleared set");
    for (size_t j = 0; j < hs.size(); ++j)
      if (j != 1) check_set(c, m, *hs[j].s, hs[j].mo, hs[j].mg, map, "clearing another copy");
  }
  c.label(hadg ? "with ghosts" : "all owned");
  c.label(map ? "with map" : "without map");
  c.nontrivial(changed >= 2);
  CHECK(m.find_meshset("s", k) == hs[0].s, "find", "the set is not the one the mesh has under its name");
}

}  // namespace

pbt::Property pbt::property() {
  return {"P12",
          "random histories of additions and removals, one by one and in lists, over generated meshes "
          "with ghosts, on the set and on copies of it; non-trivial: at least two changes",
          60000, 1200000,
          {{"history", 1, history}},
          {"an entity already in the set is not added again (documented: no check for duplicates)"}};
}
