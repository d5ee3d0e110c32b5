// P21: geometric models and domains as registries
#include "BoxRegion.hh"
#include "Domain.hh"
#include "GeometricModel.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "jutil.hh"
using namespace jv;
using namespace JaliGeometry;

namespace {

std::unique_ptr<Region> make(Gen &g, int maxdim) {
  std::string name = "r" + std::to_string(g.draw(8));
  if (g.chance(1, 10)) name = g.flip() ? "" : "R0";
  unsigned id = g.chance(1, 10) ? 2000000000u + g.draw(5) : g.draw(12);
  int d = g.range(1, maxdim);
  Point a(d), b(d);
  for (int i = 0; i < d; ++i) { a[i] = g.range(0, 1); b[i] = g.range(1, 2); }
  switch (g.draw(5)) {
    case 0: return std::unique_ptr<Region>(new PointRegion(name, id, a));
    case 1: return std::unique_ptr<Region>(new PlaneRegion(name, id, a, b));
    case 2: return std::unique_ptr<Region>(new LogicalRegion(name, id, "Union", {"a"}));
    case 3: return std::unique_ptr<Region>(new LabeledSetRegion(name, id, "CELL", "f", "x", "l"));
    default: return std::unique_ptr<Region>(new BoxRegion(name, id, a, b));
  }
}

void verify(Ctx &c, GeometricModel const &gm, unsigned dim, std::vector<RegionPtr> const &md,
            std::vector<std::unique_ptr<Region>> const &pool, const char *when) {
  CHECK_EQ(gm.dimension(), dim, "dimension", "dimension of model " << when);
  CHECK_EQ(gm.Num_Regions(), (int)md.size(), "count", "number of regions " << when);
  for (size_t i = 0; i < md.size(); ++i)
    CHECK(gm.Region_i(i) == md[i], "index", "region " << i << " " << when);
  auto first = [&](std::function<bool(RegionPtr)> f) -> RegionPtr {
    for (auto r : md) if (f(r)) return r;
    return nullptr;
  };
  for (auto &p : pool) {
    CHECK(gm.FindRegion(p->name()) == first([&](RegionPtr r) { return r->name() == p->name(); }), "name",
          "region by name \"" << p->name() << "\" " << when);
    CHECK(gm.FindRegion((int)p->id()) == first([&](RegionPtr r) { return r->id() == p->id(); }), "id",
          "region by ID " << p->id() << " " << when);
  }
  for (int id = -1; id < 13; ++id)
    CHECK(gm.FindRegion(id) == first([&](RegionPtr r) { return (int)r->id() == id; }), "id",
          "region by ID " << id << " " << when);
  for (std::string n : {"", "r", "R1", "r0 ", "r1", "nope"})
    CHECK(gm.FindRegion(n) == first([&](RegionPtr r) { return r->name() == n; }), "name",
          "region by name \"" << n << "\" " << when);
}

void model(Gen &g, Ctx &c) {
  std::vector<std::unique_ptr<Region>> pool;
  int np = g.range(1, g.chance(1, 20) ? g.chance(1, 20) ? 300 : 40 : 10);
  for (int i = 0; i < np; ++i) pool.push_back(make(g, 3));
  bool listed = g.flip();
  int dim = g.range(listed ? 1 : 0, listed ? 3 : 4);
  std::vector<RegionPtr> md;
  std::unique_ptr<GeometricModel> gm;
  c.say() << "model of dimension " << dim << ":";
  if (listed) {
    int n = g.range(0, 6);
    for (int i = 0; i < n; ++i) md.push_back(pool[g.draw(np)].get());
    gm.reset(new GeometricModel(dim, md));
    c.say() << " " << n << " regions at construction";
  } else {
    bool threw = false;
    try { gm.reset(new GeometricModel(dim)); } catch (std::exception &) { threw = true; }
    CHECK_EQ(threw, dim < 2 || dim > 3, "refuse", "model of dimension " << dim << " refused");
    if (threw) return;
  }
  verify(c, *gm, dim, md, pool, "at construction");
  int steps = g.range(0, g.chance(1, 20) ? g.chance(1, 20) ? 400 : 80 : 10), added = 0, refused = 0;
  for (int s = 0; s < steps; ++s) {
    // one query, asked just before and again just after an addition
    Region *asked = g.flip() ? pool[g.draw(np)].get() : nullptr;
    bool by_name = g.flip();
    auto again = [&]() {
      if (!asked) return;
      RegionPtr want = nullptr;
      for (auto q : md) if (!want && (by_name ? q->name() == asked->name() : q->id() == asked->id())) want = q;
      CHECK((by_name ? gm->FindRegion(asked->name()) : gm->FindRegion((int)asked->id())) == want, by_name ? "name" : "id",
            "region \"" << asked->name() << "\" / " << asked->id() << " asked again");
    };
    again();
    RegionPtr r = pool[g.draw(np)].get();
    bool ok = (int)r->dimension() <= dim, threw = false;
    try { gm->Add_Region(r); } catch (Errors::Message &) { threw = true; }
    c.say() << " add " << r->name() << "/" << r->id() << "/dim" << r->dimension();
    CHECK_EQ(threw, !ok, "refuse", "region of dimension " << r->dimension() << " in model of dimension "
             << dim << " refused");
    if (ok) { md.push_back(r); added++; } else refused++;
    again();
    if (s == steps - 1 || g.chance(3, 4)) verify(c, *gm, dim, md, pool, "after adding");
    if (g.chance(1, 5)) {
      GeometricModel copy(*gm);
      verify(c, copy, dim, md, pool, "in a copy");
      RegionPtr r2 = pool[g.draw(np)].get();
      if ((int)r2->dimension() <= dim) copy.Add_Region(r2);
      verify(c, *gm, dim, md, pool, "after adding to a copy");
    }
  }
  c.label(refused ? "with refusals" : "no refusal");
  c.nontrivial(md.size() > 1);
}

void domain(Gen &g, Ctx &c) {
  std::vector<std::unique_ptr<Region>> pool;
  std::vector<std::unique_ptr<GeometricModel>> gms;
  int np = g.range(1, 6), ng = g.range(1, 4), dim = g.range(0, 5);
  for (int i = 0; i < np; ++i) pool.push_back(make(g, 3));
  for (int i = 0; i < ng; ++i) gms.emplace_back(new GeometricModel(g.range(2, 3)));
  std::vector<RegionPtr> fr;
  std::vector<GeometricModelPtr> gl;
  std::unique_ptr<Domain> d;
  bool listed = g.flip(), threw = false;
  if (listed) {
    for (int i = g.range(0, 4); i > 0; --i) fr.push_back(pool[g.draw(np)].get());
    for (int i = g.range(0, 4); i > 0; --i) gl.push_back(gms[g.draw(ng)].get());
  }
  c.say() << "domain of dimension " << dim << (listed ? " with " : " without ") << gl.size() << " models and "
          << fr.size() << " regions at construction;";
  try { d.reset(listed ? new Domain(dim, gl, fr) : new Domain(dim)); } catch (std::exception &) { threw = true; }
  CHECK_EQ(threw, dim < 2 || dim > 3, "refuse", "domain of dimension " << dim << " refused");
  if (threw) return;
  auto check = [&](Domain const &x, const char *when) {
    CHECK_EQ(x.spatial_dimension(), (unsigned)dim, "dimension", "dimension of domain " << when);
    CHECK_EQ(x.Num_Geometric_Models(), (int)gl.size(), "count", "number of models " << when);
    CHECK_EQ(x.Num_Free_Regions(), (int)fr.size(), "count", "number of free regions " << when);
    for (size_t i = 0; i < gl.size(); ++i) CHECK(x.Geometric_Model_i(i) == gl[i], "index", "model " << i << when);
    for (size_t i = 0; i < fr.size(); ++i) CHECK(x.Free_Region_i(i) == fr[i], "index", "region " << i << when);
  };
  check(*d, "at construction");
  int steps = g.range(0, g.chance(1, 20) ? 40 : 8);
  for (int s = 0; s < steps; ++s) {
    bool threw = false, ok;
    if (g.flip()) {
      RegionPtr r = pool[g.draw(np)].get();
      ok = (int)r->dimension() <= dim;
      try { d->Add_Free_Region(r); } catch (std::exception &) { threw = true; }
      if (ok) fr.push_back(r);
      c.say() << " region";
    } else {
      GeometricModelPtr m = gms[g.draw(ng)].get();
      ok = (int)m->dimension() == dim;
      try { d->Add_Geometric_Model(m); } catch (std::exception &) { threw = true; }
      if (ok) gl.push_back(m);
      c.say() << " model";
    }
    CHECK_EQ(threw, !ok, "refuse", "addition refused");
    check(*d, "after adding");
    if (g.chance(1, 4)) { Domain copy(*d); check(copy, "in a copy"); }
  }
  c.nontrivial(gl.size() + fr.size() > 1);
}

}  // namespace

pbt::Property pbt::property() {
  return {"P21",
          "random histories of additions to geometric models and domains with repeated names, IDs and "
          "regions of any dimension, all lookups after each; non-trivial: at least two entries",
          400000, 8000000,
          {{"model", 3, model}, {"domain", 2, domain}},
          {}};
}
