// P20: messages, exception behaviour, names of enumerated values
#include <sys/wait.h>
#include <unistd.h>

#include "GeometricModel.hh"
#include "BoxRegion.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
#include "MeshFactory.hh"
#include "Mesh_simple.hh"
#include "jutil.hh"
using namespace jv;
using Errors::Message;

namespace {

std::string text(Gen &g) {
  static const char *cs = "abcXYZ %d%s\\\n\t\"'{}|<>&-_.,;:!?#";
  std::string s;
  int n = g.chance(1, 20) ? g.range(100, 3000) : g.range(0, 12);
  for (int i = 0; i < n; ++i) s += cs[g.draw(31)];
  if (n && g.chance(1, 3000)) while (s.size() < 70000) s += s;      // a very long one
  return s;
}

// One piece of a message; a number is followed by a bar so that it can be read back
struct Piece { int kind; std::string s; double x; };

void check_text(Ctx &c, std::string const &got, std::vector<Piece> const &ps, const char *where) {
  size_t at = 0;
  for (auto &p : ps) {
    if (p.kind != 3) {
      CHECK(got.compare(at, p.s.size(), p.s) == 0, "text", where << ": expected \"" << p.s
            << "\" at " << at << " of \"" << got << "\"");
      at += p.s.size();
    } else {
      size_t bar = got.find('|', at);
      CHECK(bar != std::string::npos && bar > at, "number", where << ": no number at " << at
            << " of \"" << got << "\"");
      std::string num = got.substr(at, bar - at);
      char *end;
      double v = strtod(num.c_str(), &end);
      CHECK(*end == 0, "number", where << ": \"" << num << "\" is not a number");
      CHECK_NEAR(v, p.x, std::fabs(p.x) * 1e-5, "number", where << ": number \"" << num << "\"");
      at = bar;
    }
  }
  CHECK_EQ(at, got.size(), "text", where << ": length of \"" << got << "\"");
}

void messages(Gen &g, Ctx &c) {
  std::vector<Piece> ps;
  std::string init;
  Message m0;
  switch (g.draw(3)) {
    case 0: break;
    case 1: init = text(g); m0 = Message(init.c_str()); break;
    default: init = text(g); m0 = Message(init); break;
  }
  Message *m = &m0, other("other");
  if (init.size()) ps.push_back({0, init, 0});
  int n = g.range(0, 14);
  c.nontrivial(n >= 2);
  for (int i = 0; i < n; ++i) {
    switch (g.draw(8)) {
      case 0: { std::string s = text(g); *m << s.c_str(); ps.push_back({0, s, 0}); break; }
      case 1: { std::string s = text(g); *m << s; ps.push_back({0, s, 0}); break; }
      case 2: {
        int v = g.chance(1, 4) ? g.pick(ints{INT32_MIN, INT32_MAX, 0, -1}) : g.range(0, 100000) - 50000;
        *m << v;
        ps.push_back({2, std::to_string(v), 0});
        break;
      }
      case 3: {
        double v = g.chance(1, 3) ? std::ldexp(g.real(-1, 1), g.range(-900, 900))
                                  : some_real(g, -1e4, 1e4);
        *m << v << "|";
        ps.push_back({3, "", v});
        ps.push_back({0, "|", 0});
        break;
      }
      case 4: { std::string s = text(g); m->add_data(s.c_str()); ps.push_back({0, s, 0}); break; }
      case 5: { std::string s = text(g); m->add_data(s); ps.push_back({0, s, 0}); break; }
      case 6: {
        std::string s = text(g);
        Message &r = *m << "x" << s << "y" << 7;
        CHECK(&r == m, "chain", "streaming returns another message");
        ps.push_back({0, "x" + s + "y7", 0});
        break;
      }
      default: {   // a copy is independent
        Message copy(*m);
        copy << "junk";
        other = *m;
        break;
      }
    }
    check_text(c, m->what(), ps, "message");
  }
  c.say() << "message \"" << m->what() << "\"";
  Exceptions::set_exception_behavior_raise();
  try {
    Exceptions::Jali_throw(*m);
    c.fail("raise", "nothing was thrown");
  } catch (Exceptions::Jali_exception &e) {
    CHECK(dynamic_cast<Message *>(&e), "raise", "thrown object lost its type");
    check_text(c, e.what(), ps, "thrown message");
  }
  try {
    throw Message(*m);
  } catch (std::exception &e) {
    check_text(c, e.what(), ps, "message caught as std::exception");
  }
}

struct Own : public Exceptions::Jali_exception {
  explicit Own(int v) : v(v) {}
  int v;
};

// Raise an error in some part of the library; returns a name and how it was seen
enum { SITES = 9 };
std::string raise(int site) {
  try {
    switch (site) {
      case 0: { Message m("here"); m << 42; Exceptions::Jali_throw(m); break; }
      case 1: Exceptions::Jali_throw(Errors::CutTimeStep()); break;
      case 2: Exceptions::Jali_throw(Own(17)); break;
      case 3: {
        std::vector<JaliGeometry::RegionPtr> none;
        JaliGeometry::GeometricModel gm(2, none);
        Point a(0.0, 0.0, 0.0), b(1.0, 1.0, 1.0);
        JaliGeometry::BoxRegion box("b", 1, a, b);
        gm.Add_Region(&box);
        break;
      }
      case 4: {
        JaliGeometry::LabeledSetRegion r("l", 1, "CELL", "f", "x", "1");
        r.inside(Point(0.0, 0.0, 0.0));
        break;
      }
      case 5: { JaliGeometry::LogicalRegion r("l", 1, "Xor", {"a", "b"}); break; }
      case 6: {
        JaliGeometry::BoxRegion box("b", 1, Point(0.0, 0.0), Point(1.0, 1.0));
        box.inside(Point(0.0, 0.0, 0.0));
        break;
      }
      case 7: {
        Jali::MeshFactory f(MPI_COMM_WORLD);
        f.framework(Jali::MOAB);
        break;
      }
      default: {
        Jali::Mesh_simple m2(0, 0, 1, 1, 1, 1, MPI_COMM_WORLD);
        break;
      }
    }
  } catch (Message &m) {
    return std::string("Message:") + m.what();
  } catch (Errors::CutTimeStep &) {
    return "CutTimeStep";
  } catch (Own &o) {
    return "Own" + std::to_string(o.v);
  } catch (Exceptions::Jali_exception &) {
    return "Jali_exception";
  } catch (std::exception &) {
    return "std::exception";
  }
  return "nothing";
}

void behaviour(Gen &g, Ctx &c) {
  int n = g.range(1, 6);
  bool abort_ = false;
  Exceptions::set_exception_behavior_raise();
  bool both = false;
  for (int i = 0; i < n; ++i) {
    switch (g.draw(4)) {
      case 0: Exceptions::set_exception_behavior_raise(); abort_ = false; c.say() << "raise; "; break;
      case 1: Exceptions::set_exception_behavior_abort(); abort_ = true; c.say() << "abort; "; break;
      case 2: {
        bool a = g.flip();
        Exceptions::set_exception_behavior(a ? Exceptions::ABORT : Exceptions::RAISE);
        abort_ = a;
        c.say() << "set(" << (a ? "abort" : "raise") << "); ";
        break;
      }
      default: break;
    }
    CHECK(Exceptions::exception_behavior() == (abort_ ? Exceptions::ABORT : Exceptions::RAISE),
          "behaviour", "behaviour reads back wrong");
    int site = g.draw(SITES);
    c.say() << "error at site " << site << "; ";
    if (!abort_) {
      std::string r = raise(site);
      std::string want = site == 0 ? "Message:here42" : site == 1 ? "CutTimeStep"
          : site == 2 ? "Own17" : "Message:";
      bool ok = site <= 2 ? r == want : r.compare(0, want.size(), want) == 0 && r.size() > want.size();
      if (!ok) Exceptions::set_exception_behavior_raise();
      CHECK(ok, "raise", "error at site " << site << " reached the caller as \"" << r << "\"");
    } else {
      both = true;
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        signal(SIGABRT, SIG_DFL);
        raise(site);
        _exit(3);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      bool ok = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 3 && WEXITSTATUS(st) != 0);
      if (!ok) Exceptions::set_exception_behavior_raise();
      CHECK(ok, "abort", "the program went on after an error at site " << site
            << " though the behaviour is abort");
    }
  }
  c.nontrivial(n > 1);
  c.label(both ? "with abort" : "raise only");
  Exceptions::set_exception_behavior_raise();
}

template <class E>
std::string printed(E e) {
  std::ostringstream os;
  os << e;
  return os.str();
}
std::string trim(std::string s) {
  size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

void names(Gen &g, Ctx &c) {
  using namespace Jali;
  int which = g.draw(4), v = g.range(-10, 20);
  if (g.chance(1, 8)) v = g.pick(ints{-128, 127, -3, -2, -1});
  c.nontrivial(v >= 0 && v < 9);
  auto both = [&](std::string const &fn, std::string const &out, std::string const &want, bool exact) {
    CHECK_EQ(trim(out), trim(fn), "names", "streamed name against string function");
    if (exact) CHECK_EQ(trim(fn), want, "names", "name of value " << v);
  };
  if (which == 0) {
    const char *n[] = {"NODE", "EDGE", "FACE", "CELL", "SIDE", "WEDGE", "CORNER", "FACET", "BOUNDARY_FACE"};
    Entity_kind k = static_cast<Entity_kind>(v);
    both(Entity_kind_string(k), printed(k), v >= 0 && v < 9 ? std::string("Entity_kind::") + n[v] : "", true);
    CHECK_EQ(entity_valid_kind(k), v >= 0 && v <= 3, "valid", "entity_valid_kind(" << v << ")");
  } else if (which == 1) {
    const char *n[] = {"TYPE_UNKNOWN", "DELETED", "PARALLEL_OWNED", "PARALLEL_GHOST", "BOUNDARY_GHOST", "ALL"};
    Entity_type t = static_cast<Entity_type>(v);
    both(Entity_type_string(t), printed(t),
         v >= -1 && v < 5 ? std::string("Entity_type::") + n[v + 1] : "", true);
    CHECK_EQ(valid_entity_type(t), v >= 0 && v < 5, "valid", "valid_entity_type(" << v << ")");
  } else if (which == 2) {
    const char *n[] = {"CELLTYPE_UNKNOWN", "TRI", "QUAD", "POLYGON", "TET", "PRISM", "PYRAMID", "HEX", "POLYHED"};
    Cell_type t = static_cast<Cell_type>(v & 0xff);
    int u = v & 0xff;
    both(Cell_type_string(t), printed(t), u < 9 ? std::string("Cell_type::") + n[u] : "", true);
    CHECK_EQ(cell_valid_type(t), u >= 1 && u <= 8, "valid", "cell_valid_type(" << u << ")");
  } else {
    const char *n[] = {"INDEX", "BLOCK", "METIS", "ZOLTAN_GRAPH", "ZOLTAN_RCB"};
    Partitioner_type t = static_cast<Partitioner_type>(v & 0xff);
    int u = v & 0xff;
    both(Partitioner_type_string(t), printed(t), u < 5 ? std::string("Partitioner_type::") + n[u] : "", true);
  }
  c.say() << "enumeration " << which << " value " << v;
}

}  // namespace

pbt::Property pbt::property() {
  return {"P20",
          "random message histories; random sequences of behaviour changes and errors raised in "
          "several parts of the library (aborts in child processes); all enumeration values; "
          "non-trivial: at least two operations, or a value with a name",
          80000, 1600000,
          {{"messages", 12, messages}, {"behaviour", 3, behaviour}, {"names", 5, names}},
          {"errors are raised from one thread"}};
}
