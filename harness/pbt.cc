// Supervisor: forks workers, watches for crashes and hangs, confirms and
// shrinks a failure, writes the replay file and the evidence.
#include "pbt.hh"

#include <mpi.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

using namespace pbt;

#ifdef PBT_COVER
extern "C" void __gcov_dump();
#endif

namespace {

// End the process without running destructors (but keep coverage counts, if
// built with them)
[[noreturn]] void leave(int rc) {
#ifdef PBT_COVER
  __gcov_dump();
#endif
  _exit(rc);
}

constexpr int NW = 8;
constexpr double HANG_S = 60.0;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Slot {  // in shared memory, one per worker
  volatile uint64_t case_id;
  volatile double beat;
  volatile uint32_t sub;
  volatile uint32_t len;
  volatile uint32_t busy;
  uint32_t tape[MAXTAPE];
};

struct Outcome {
  bool failed = false;
  std::string tag, msg;
};

uint64_t fnv(std::string const &s) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (unsigned char ch : s) h = (h ^ ch) * 0x100000001b3ULL;
  return h;
}

Property P;
std::string rundir;

void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  if (getenv("PBT_VERBOSE") == nullptr) {
    dup2(fd, 1);
    dup2(fd, 2);
  }
  close(fd);
}

// Run one case in this process
Outcome run_one(Sub const &sub, Gen &g, Ctx &c, bool *discarded) {
  Outcome o;
  *discarded = false;
  try {
    sub.run(g, c);
  } catch (Fail const &f) {
    o.failed = true;
    o.tag = f.tag;
    o.msg = f.msg;
  } catch (Discard const &) {
    *discarded = true;
  } catch (std::exception const &e) {
    o.failed = true;
    o.tag = "unexpected-exception";
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.failed = true;
    o.tag = "unexpected-exception";
    o.msg = "unexpected exception of unknown type";
  }
  return o;
}

std::string clean(std::string s, size_t n = 4000) {
  for (char &ch : s) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
  if (s.size() > n) s = s.substr(0, n) + "...";
  return s;
}

void mpi_up() {
  int argc = 1;
  static char name[] = "verif";
  static char *av[] = {name, nullptr};
  char **argv = av;
  MPI_Init(&argc, &argv);
}

uint32_t sub_of(uint64_t id, int totw) {
  uint64_t k = id % totw;
  for (uint32_t i = 0; i < P.subs.size(); ++i) {
    if (k < static_cast<uint64_t>(P.subs[i].weight)) return i;
    k -= P.subs[i].weight;
  }
  return 0;
}

uint64_t case_seed(uint64_t seed, uint64_t id) {
  uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ fnv(P.id) ^ (id * 0xd1342543de82ef95ULL);
  splitmix(s);
  return splitmix(s);
}

// ---- worker ---------------------------------------------------------------

[[noreturn]] void worker(int w, uint64_t start, uint64_t ncases, uint64_t seed,
                         double deadline, Slot *slot, int totw, int gen) {
  signal(SIGINT, SIG_DFL);
  quiet();
  mpi_up();
  std::ofstream rec(rundir + "/rec-" + std::to_string(w) + "-" + std::to_string(gen),
                    std::ios::binary);
  std::ofstream smp(rundir + "/smp-" + std::to_string(w) + "-" + std::to_string(gen));
  std::map<std::string, uint64_t> labels;
  std::map<uint32_t, int> nsmp;
  uint64_t evals = 0, discards = 0;
  std::map<uint32_t, uint64_t> sub_evals, sub_nt;
  int rc = 0;
  for (uint64_t id = start; id < ncases; id += NW) {
    if (now() > deadline) { rc = 3; break; }
    uint32_t si = sub_of(id, totw);
    slot->case_id = id;
    slot->sub = si;
    slot->beat = now();
    slot->busy = 1;
    Gen g(case_seed(seed, id), slot->tape, &slot->len);
    Ctx c;
    bool disc;
    Outcome o = run_one(P.subs[si], g, c, &disc);
    slot->busy = 0;
    if (disc) { discards++; continue; }
    evals++;
    sub_evals[si]++;
    for (auto const &l : c.labels_) labels[l.first] += l.second;
    uint64_t h = g.hash() ^ (0x9e3779b97f4a7c15ULL * (si + 1));
    if (c.nontrivial_) {
      sub_nt[si]++;
      rec.write(reinterpret_cast<char *>(&h), 8);
      if (nsmp[si] < 1 && id > static_cast<uint64_t>(totw) * 3) {
        nsmp[si]++;
        smp << P.subs[si].name << "\t" << clean(c.desc_.str(), 700) << "\n";
      }
    }
    if (o.failed) {
      std::ofstream f(rundir + "/fail-" + std::to_string(w));
      f << id << "\n" << si << "\n" << clean(o.tag) << "\n" << clean(o.msg) << "\n";
      for (uint32_t i = 0; i < slot->len; ++i) f << slot->tape[i] << " ";
      f << "\n";
      f.close();
      rc = 4;
      break;
    }
  }
  rec.close();
  smp.close();
  std::ofstream st(rundir + "/stat-" + std::to_string(w) + "-" + std::to_string(gen));
  st << evals << " " << discards << "\n";
  for (auto const &s : sub_evals)
    st << "S " << s.first << " " << s.second << " " << sub_nt[s.first] << "\n";
  for (auto const &l : labels) st << "L " << l.second << " " << clean(l.first) << "\n";
  st.close();
  leave(rc);
}

// ---- isolated execution of tapes (for confirming, shrinking, replaying) ----

struct Result {      // in shared memory
  volatile uint32_t done, failed, discarded;
  char tag[256];
  char msg[4200];
  char desc[16400];
  volatile uint32_t len;
  uint32_t tape[MAXTAPE];
};
Result *res;

void wait_child(pid_t p, double limit, bool *hung, int *status) {
  double t0 = now();
  *hung = false;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(p, status, WNOHANG);
    if (r == p) return;
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, status, 0);
      *hung = true;
      return;
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 2;
  }
}

// Forks; MPI must be up in this process already
Outcome run_isolated(uint32_t si, std::vector<uint32_t> const &tape,
                     std::vector<uint32_t> *used, std::string *desc, double limit) {
  res->done = 0;
  res->failed = 0;
  res->discarded = 0;
  res->len = 0;
  res->tag[0] = res->msg[0] = res->desc[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    if (getenv("PBT_VERBOSE") == nullptr) quiet();
    Gen g(tape, res->tape, &res->len);
    Ctx c;
    bool disc;
    Outcome o = run_one(P.subs[si], g, c, &disc);
    res->discarded = disc;
    res->failed = o.failed;
    snprintf(res->tag, sizeof res->tag, "%s", clean(o.tag, 200).c_str());
    snprintf(res->msg, sizeof res->msg, "%s", clean(o.msg).c_str());
    snprintf(res->desc, sizeof res->desc, "%s", c.desc_.str().substr(0, 16000).c_str());
    res->done = 1;
    leave(0);
  }
  bool hung;
  int status;
  wait_child(p, limit, &hung, &status);
  Outcome o;
  if (hung) {
    o.failed = true;
    o.tag = "hang";
    o.msg = "the case did not end in time";
  } else if (!res->done) {
    o.failed = true;
    o.tag = "crash";
    std::ostringstream os;
    os << "the process running the case died, ";
    if (WIFSIGNALED(status)) os << "signal " << WTERMSIG(status);
    else os << "exit code " << WEXITSTATUS(status) << (WEXITSTATUS(status) == 77 ?
            " (AddressSanitizer report)" : "");
    o.msg = os.str();
  } else {
    o.failed = res->failed;
    o.tag = res->tag;
    o.msg = res->msg;
  }
  if (used) used->assign(res->tape, res->tape + res->len);
  if (desc) *desc = res->desc;
  return o;
}

// Runs cases first, first+NW, ..., last of a seed in one fresh process, for a
// failure that needs what earlier cases left behind
Outcome run_sequence(uint64_t seed, uint64_t first, uint64_t last, int totw,
                     std::string *desc, double limit) {
  res->done = res->failed = 0;
  res->tag[0] = res->msg[0] = res->desc[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    if (getenv("PBT_VERBOSE") == nullptr) quiet();
    Outcome o;
    for (uint64_t id = first; id <= last; id += NW) {
      Gen g(case_seed(seed, id), res->tape, &res->len);
      Ctx c;
      bool disc;
      o = run_one(P.subs[sub_of(id, totw)], g, c, &disc);
      if (o.failed || id == last) {
        snprintf(res->desc, sizeof res->desc, "%s", c.desc_.str().substr(0, 16000).c_str());
        break;
      }
    }
    res->failed = o.failed;
    snprintf(res->tag, sizeof res->tag, "%s", clean(o.tag, 200).c_str());
    snprintf(res->msg, sizeof res->msg, "%s", clean(o.msg).c_str());
    res->done = 1;
    leave(0);
  }
  bool hung;
  int status;
  wait_child(p, limit, &hung, &status);
  Outcome o;
  o.failed = hung || !res->done || res->failed;
  o.tag = hung ? "hang" : !res->done ? "crash" : std::string(res->tag);
  o.msg = hung ? "did not end in time" : !res->done ? "the process died" : std::string(res->msg);
  if (desc) *desc = res->desc;
  return o;
}

void shrink(uint32_t si, std::vector<uint32_t> &tape, std::string const &tag,
            double budget) {
  double end = now() + budget;
  double limit = tag == "hang" ? 5.0 : HANG_S;
  auto fails = [&](std::vector<uint32_t> const &t, std::vector<uint32_t> *used) {
    Outcome o = run_isolated(si, t, used, nullptr, limit);
    return o.failed && o.tag == tag;
  };
  auto smaller = [](std::vector<uint32_t> const &a, std::vector<uint32_t> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t k = std::max<size_t>(1, tape.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= tape.size() && now() < end;) {
        std::vector<uint32_t> t(tape.begin(), tape.begin() + i), used;
        t.insert(t.end(), tape.begin() + i + k, tape.end());
        if (fails(t, &used) && smaller(used, tape)) {
          tape = used;
          progress = true;
        } else {
          i += k;
        }
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(1, tape.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= tape.size() && now() < end; i += k) {
        std::vector<uint32_t> t = tape, used;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          if (t[j]) any = true;
          t[j] = 0;
        }
        if (any && fails(t, &used) && smaller(used, tape)) {
          tape = used;
          progress = true;
        }
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < tape.size() && now() < end; ++i) {
      uint32_t lo = 0;
      while (i < tape.size() && lo < tape[i] && now() < end) {
        uint32_t mid = lo + (tape[i] - lo) / 2;
        std::vector<uint32_t> t = tape, used;
        t[i] = mid;
        if (fails(t, &used) && smaller(used, tape)) {
          tape = used;
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
}

std::string jesc(std::string const &s) {
  std::ostringstream o;
  o << '"';
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') o << '\\' << ch;
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o << b;
    } else o << ch;
  }
  o << '"';
  return o.str();
}

bool read_replay(std::string const &path, uint32_t *si, std::vector<uint32_t> *tape,
                 std::vector<uint64_t> *seq) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  bool got = false;
  *si = 0;
  while (std::getline(f, line)) {
    if (line.compare(0, 5, "sub: ") == 0) {
      bool found = false;
      for (uint32_t i = 0; i < P.subs.size(); ++i)
        if (P.subs[i].name == line.substr(5)) { *si = i; found = true; }
      if (!found) return false;
    }
    if (line.compare(0, 10, "sequence: ") == 0) {
      std::istringstream is(line.substr(10));
      uint64_t v;
      while (is >> v) seq->push_back(v);
      got = true;
    }
    if (line.compare(0, 6, "tape: ") == 0) {
      std::istringstream is(line.substr(6));
      uint32_t v;
      while (is >> v) tape->push_back(v);
      got = true;
    }
  }
  return got;
}

}  // namespace

#ifndef PBT_NO_MAIN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:malloc_fill_byte=190:"
         "max_malloc_fill_size=1048576:detect_odr_violation=0:"
         "allocator_may_return_null=0:max_allocation_size_mb=4096:"
         "handle_segv=1:allow_user_segv_handler=0:detect_stack_use_after_return=0";
}

int main(int argc, char **argv) {
  P = property();
  std::string tier = "quick", replay, evidence, replaydir = ".";
  rundir = ".";
  uint64_t seed = 1, ncases = 0;
  double tlimit = 0;
  std::string only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") ncases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--time") tlimit = atof(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--evidence") evidence = next();
    else if (a == "--rundir") rundir = next();
    else if (a == "--replaydir") replaydir = next();
    else if (a == "--only") only = next();
  }
  if (!only.empty()) {
    std::vector<Sub> keep;
    for (auto &s : P.subs) if (s.name == only) keep.push_back(s);
    P.subs = keep;
  }
  res = static_cast<Result *>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (!replay.empty()) {
    uint32_t si;
    std::vector<uint32_t> tape;
    std::vector<uint64_t> seq;
    if (!read_replay(replay, &si, &tape, &seq)) {
      fprintf(stderr, "cannot read replay file %s\n", replay.c_str());
      return 2;
    }
    mpi_up();
    std::string desc;
    int tw = 0;
    for (auto const &sb : P.subs) tw += sb.weight;
    Outcome o = seq.size() == 3 ? run_sequence(seq[0], seq[1], seq[2], tw, &desc, 900)
                                : run_isolated(si, tape, nullptr, &desc, HANG_S);
    printf("%s\n", desc.c_str());
    if (o.failed) {
      printf("FAILED %s/%s: %s\n", P.subs[si].name.c_str(), o.tag.c_str(), o.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), replay.c_str());
      fflush(stdout);
      leave(1);
    }
    printf("replayed without failure\n");
    fflush(stdout);
    leave(0);
  }

  if (ncases == 0) ncases = tier == "thorough" ? P.thorough_cases : P.quick_cases;
  if (tlimit == 0) tlimit = tier == "thorough" ? 600 : 120;
  double t0 = now(), deadline = t0 + tlimit;
  int totw = 0;
  for (auto const &s : P.subs) totw += s.weight;

  Slot *slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * NW, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pid_t pids[NW];
  int gens[NW];
  bool live[NW];
  auto launch = [&](int w, uint64_t start) {
    slots[w].busy = 0;
    slots[w].beat = now();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) worker(w, start, ncases, seed, deadline, &slots[w], totw, gens[w]);
    pids[w] = p;
    live[w] = true;
  };
  for (int w = 0; w < NW; ++w) {
    gens[w] = 0;
    launch(w, w);
  }
  struct Found { uint64_t id; uint32_t si; std::string tag, msg; std::vector<uint32_t> tape; };
  std::vector<Found> found;
  bool capped = false;
  int env_errors = 0;
  for (;;) {
    bool any = false;
    for (int w = 0; w < NW; ++w) {
      if (!live[w]) continue;
      any = true;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        if (slots[w].busy && now() - slots[w].beat > HANG_S) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          hung = true;
        } else {
          continue;
        }
      }
      live[w] = false;
      if (!hung && WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) {
        if (WEXITSTATUS(st) == 3) capped = true;
        continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 4) {
        std::ifstream f(rundir + "/fail-" + std::to_string(w));
        Found fd;
        std::string line;
        std::getline(f, line); fd.id = strtoull(line.c_str(), nullptr, 10);
        std::getline(f, line); fd.si = atoi(line.c_str());
        std::getline(f, fd.tag);
        std::getline(f, fd.msg);
        std::getline(f, line);
        std::istringstream is(line);
        uint32_t v;
        while (is >> v) fd.tape.push_back(v);
        found.push_back(fd);
        deadline = std::min(deadline, now());  // others stop at their next case
        continue;
      }
      // crash or hang
      if (slots[w].busy) {
        Found fd;
        fd.id = slots[w].case_id;
        fd.si = slots[w].sub;
        fd.tag = hung ? "hang" : "crash";
        fd.msg = hung ? "no progress" : "process died";
        fd.tape.assign(slots[w].tape, slots[w].tape + slots[w].len);
        found.push_back(fd);
      } else if (++env_errors < 20) {  // died outside a case: MPI start-up trouble
        gens[w]++;
        usleep(200000);
        launch(w, w);
      } else {
        fprintf(stderr, "workers keep dying outside the property\n");
        leave(2);
      }
    }
    if (!any) break;
    if (!found.empty()) {  // a failure is known: let nobody run on
      for (int w = 0; w < NW; ++w)
        if (live[w]) {
          kill(pids[w], SIGKILL);
          int st;
          waitpid(pids[w], &st, 0);
          live[w] = false;
        }
      break;
    }
    usleep(3000);
  }
  double searched = now() - t0;

  // ---- a failure: confirm three times, shrink, save
  int violations = 0;
  std::string vpath;
  if (!found.empty()) {
    std::sort(found.begin(), found.end(),
              [](Found const &a, Found const &b) { return a.id < b.id; });
    mpi_up();
    for (auto &fd : found) {
      int again = 0;
      Outcome o;
      for (int k = 0; k < 3; ++k) {
        o = run_isolated(fd.si, fd.tape, nullptr, nullptr, HANG_S);
        if (o.failed) again++;
      }
      if (again < 3) {
        // alone it passes: does it fail after the cases that ran before it?
        uint64_t start = fd.id % NW;
        double lim = searched + 60;
        Outcome q = run_sequence(seed, start, fd.id, totw, nullptr, lim);
        if (q.failed) {
          for (uint64_t k = 1; k * NW < fd.id - start; k *= 2) {
            Outcome r = run_sequence(seed, fd.id - k * NW, fd.id, totw, nullptr, lim);
            if (r.failed) { start = fd.id - k * NW; break; }
          }
          int seqs = 0;
          std::string desc;
          for (int k = 0; k < 3; ++k) {
            q = run_sequence(seed, start, fd.id, totw, &desc, lim);
            if (q.failed) seqs++;
          }
          if (seqs == 3) {
            vpath = replaydir + "/" + P.id + "-sequence.replay";
            std::ofstream f(vpath);
            f << "property: " << P.id << "\ntag: " << q.tag << "\nmessage: " << q.msg
              << "\nonly: " << only << "\nsequence: " << seed << " " << start << " " << fd.id
              << "\n---- the last case, in words\n" << desc << "\n";
            f.close();
            violations++;
            printf("%s (after the cases before it): %s\n", q.tag.c_str(), q.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), vpath.c_str());
            fflush(stdout);
            break;
          }
        }
        fprintf(stderr, "case %llu of %s failed once (%s: %s) but only %d of 3 replays\n",
                (unsigned long long)fd.id, P.subs[fd.si].name.c_str(), fd.tag.c_str(),
                fd.msg.c_str(), again);
        continue;
      }
      std::string tag = o.failed ? o.tag : fd.tag;
      shrink(fd.si, fd.tape, tag, tag == "hang" ? 60 : 45);
      std::string desc;
      o = run_isolated(fd.si, fd.tape, nullptr, &desc, HANG_S);
      vpath = replaydir + "/" + P.id + "-" + P.subs[fd.si].name + ".replay";
      std::ofstream f(vpath);
      f << "property: " << P.id << "\nsub: " << P.subs[fd.si].name << "\ntag: " << o.tag
        << "\nmessage: " << o.msg << "\nseed: " << seed << "\ncase: " << fd.id << "\ntape: ";
      for (auto v : fd.tape) f << v << " ";
      f << "\n---- the case, in words\n" << desc << "\n";
      f.close();
      violations++;
      printf("%s/%s: %s\n", P.subs[fd.si].name.c_str(), o.tag.c_str(), o.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), vpath.c_str());
      fflush(stdout);
      break;
    }
    if (!violations) {
      fprintf(stderr, "no failure reproduced\n");
      leave(2);
    }
  }

  // ---- evidence
  uint64_t evals = 0, discards = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::map<int, std::pair<uint64_t, uint64_t>> subs;
  std::vector<std::string> samples;
  std::map<std::string, int> sampled;
  for (int w = 0; w < NW; ++w)
    for (int gi = 0; gi <= gens[w]; ++gi) {
      std::string suf = std::to_string(w) + "-" + std::to_string(gi);
      std::ifstream st(rundir + "/stat-" + suf);
      std::string line;
      if (std::getline(st, line)) {
        std::istringstream is(line);
        uint64_t a = 0, b = 0;
        is >> a >> b;
        evals += a;
        discards += b;
      }
      while (std::getline(st, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "S") {
          int i; uint64_t a, b;
          is >> i >> a >> b;
          subs[i].first += a;
          subs[i].second += b;
        } else if (k == "L") {
          uint64_t a;
          is >> a;
          std::string rest;
          std::getline(is, rest);
          labels[rest.substr(rest.empty() ? 0 : 1)] += a;
        }
      }
      std::ifstream rec(rundir + "/rec-" + suf, std::ios::binary);
      uint64_t h;
      while (rec.read(reinterpret_cast<char *>(&h), 8)) distinct.insert(h);
      std::ifstream sm(rundir + "/smp-" + suf);
      while (std::getline(sm, line)) {
        std::string nm = line.substr(0, line.find('\t'));
        if (sampled[nm]++ < 3) {
          line[nm.size()] = ':';
          samples.push_back(line);
        }
      }
    }
  if (!evidence.empty()) {
    std::ofstream e(evidence);
    e << "{\n \"property\": " << jesc(P.id) << ",\n \"tier\": " << jesc(tier)
      << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
      << ",\n  \"rule\": " << jesc(P.rule) << ",\n  \"planned_cases\": " << ncases
      << ",\n  \"discarded\": " << discards << ",\n  \"time_capped\": "
      << (capped ? "true" : "false") << ",\n  \"search_s\": " << searched
      << ",\n  \"per_subcheck\": {";
    bool first = true;
    for (auto const &s : subs) {
      e << (first ? "" : ",") << "\n   " << jesc(P.subs[s.first].name)
        << ": {\"evaluations\": " << s.second.first << ", \"nontrivial\": "
        << s.second.second << "}";
      first = false;
    }
    e << "\n  },\n  \"classes\": {";
    first = true;
    for (auto const &l : labels) {
      e << (first ? "" : ",") << "\n   " << jesc(l.first) << ": " << l.second;
      first = false;
    }
    e << "\n  },\n  \"samples\": [";
    first = true;
    if (samples.empty()) samples.push_back("(no non-trivial case completed)");
    for (auto const &s : samples) {
      e << (first ? "" : ",") << "\n   " << jesc(s);
      first = false;
    }
    e << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto const &s : P.assumptions) {
      e << (first ? "" : ",") << "\n  " << jesc(s);
      first = false;
    }
    e << "\n ],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
  }
  if (violations) {
    fflush(stdout);
    leave(1);
  }
  if (distinct.empty()) {
    fprintf(stderr, "no non-trivial case ran\n");
    leave(2);
  }
  printf("%s %s: %llu cases, %zu distinct non-trivial, %.1f s%s, no violation\n", P.id.c_str(),
         tier.c_str(), (unsigned long long)evals, distinct.size(), searched,
         capped ? " (time cap)" : "");
  fflush(stdout);
  leave(0);
}
#endif
