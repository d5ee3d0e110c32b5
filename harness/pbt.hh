// Property-based-testing engine: every random choice is an entry on a tape.
// A failing case is its tape; shrinking edits the tape; replaying reads it.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// Thrown by a property when the code under test broke it.
struct Fail {
  std::string tag, msg;
};
// Thrown when the generator cannot make a case out of these choices.
struct Discard {};

constexpr size_t MAXTAPE = 1 << 17;

class Gen {
 public:
  Gen(uint64_t seed, uint32_t *store, volatile uint32_t *len)
      : s_(seed), random_(true), out_(store), n_(len) { *n_ = 0; }
  Gen(std::vector<uint32_t> const &tape, uint32_t *store, volatile uint32_t *len)
      : s_(0), random_(false), in_(tape), out_(store), n_(len) { *n_ = 0; }

  // Uniform in [0, n)
  uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    if (*n_ >= MAXTAPE) throw Discard();
    uint32_t v;
    if (random_) {
      v = static_cast<uint32_t>((splitmix(s_) >> 32) % n);
    } else {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (v >= n) v = v % n;
    }
    out_[*n_] = v;
    *n_ = *n_ + 1;
    h_ = (h_ ^ v) * 0x100000001b3ULL;
    return v;
  }
  int range(int lo, int hi) {  // inclusive; shrinks to lo
    return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
  }
  bool chance(int num, int den) {  // shrinks to false
    return static_cast<int>(draw(den)) >= den - num;
  }
  bool flip() { return draw(2) == 1; }
  double unit() { return draw((1u << 24) + 1) / double(1u << 24); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T>
  T const &pick(std::vector<T> const &v) { return v[draw(v.size())]; }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - draw(i)]);
  }
  std::vector<int> subset(std::vector<int> const &v, int num, int den) {
    std::vector<int> r;
    for (int x : v) if (chance(num, den)) r.push_back(x);
    return r;
  }
  uint64_t hash() const { return h_; }

 private:
  uint64_t s_;
  bool random_;
  std::vector<uint32_t> in_;
  size_t pos_ = 0;
  uint32_t *out_;
  volatile uint32_t *n_;
  uint64_t h_ = 0xcbf29ce484222325ULL;
};

class Ctx {
 public:
  bool nontrivial_ = false;
  std::map<std::string, uint64_t> labels_;
  std::ostringstream desc_;

  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(std::string const &l) { labels_[l]++; }
  // History of the case, in words: printed as a sample and in the replay file
  std::ostringstream &say() { return desc_; }

  [[noreturn]] void fail(std::string const &tag, std::string const &msg) {
    throw Fail{tag, msg};
  }
};

struct Sub {
  std::string name;
  int weight;                         // share of the cases
  std::function<void(Gen &, Ctx &)> run;
};

struct Property {
  std::string id;
  std::string rule;                   // how cases are made, what is non-trivial
  uint64_t quick_cases, thorough_cases;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
};

// Defined by each property's file
Property property();

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// CHECK(condition, tag, message-stream)
#define CHECK(cond, tag, msg)                                              \
  do {                                                                     \
    if (!(cond)) {                                                         \
      std::ostringstream os_;                                              \
      os_ << msg << "  [" #cond "]";                                       \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

#define CHECK_EQ(a, b, tag, msg)                                           \
  do {                                                                     \
    auto va_ = (a);                                                        \
    auto vb_ = (b);                                                        \
    if (!(va_ == vb_)) {                                                   \
      std::ostringstream os_;                                              \
      os_ << msg << ": got " << va_ << ", expected " << vb_;               \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

// |a - b| <= tol, NaN fails
#define CHECK_NEAR(a, b, tol, tag, msg)                                    \
  do {                                                                     \
    double va_ = (a);                                                      \
    double vb_ = (b);                                                      \
    if (!(std::fabs(va_ - vb_) <= (tol))) {                                \
      std::ostringstream os_;                                              \
      os_.precision(17);                                                   \
      os_ << msg << ": got " << va_ << ", expected " << vb_ << " (tol "    \
          << (tol) << ")";                                                 \
      c.fail(tag, os_.str());                                              \
    }                                                                      \
  } while (0)

namespace pbt {
template <class T>
std::string str(std::vector<T> const &v) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << +v[i];
  os << "]";
  return os.str();
}
inline std::string str(std::vector<std::string> const &v) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i];
  os << "]";
  return os.str();
}
}  // namespace pbt

#endif
