// Deterministic-simulation core: seeded choices, cases, fork-isolated runs,
// minimisation, replay, evidence.  One integer decides a run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace sim {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a * 31 + b + 0x1234567); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  template <class V> auto& pick(V& v) { return v[(size_t)below((int)v.size())]; }
};

const int NARG = 8;
struct Op {
  int uid = 0;
  int k = 0;
  int a[NARG] = {0, 0, 0, 0, 0, 0, 0, 0};
};
struct Case {
  std::string world;
  std::string prop;
  uint64_t sched = 0;      // seed of the schedule / fault choices; 0 = unperturbed
  std::vector<int> cfg;
  std::vector<Op> ops;
};

// A violated property. `cls` identifies the kind (kept fixed by minimisation).
struct Violation {
  std::string cls, msg;
  Violation(const std::string& c, const std::string& m) : cls(c), msg(m) {}
};
// The run met something that makes it useless (e.g. an op not applicable in a
// way that stops the run).  Not a violation.
struct Stop { std::string why; };

struct Ctx {
  std::string prop;
  uint64_t sched = 0;
  bool verbose = false;
  uint64_t hash = 88172645463325252ULL;
  std::map<std::string, long> counters;
  std::vector<uint64_t> states;
  std::string knownHits;            // ';' separated ids of known findings met
  int opIndex = -1;
  const Op* curOp = nullptr;
  std::string* sink = nullptr;       // also receives the text of every event
  bool nontrivial = false;
  void ev(const std::string& s);     // add to the trace
  void count(const std::string& n, long k = 1) { counters[n] += k; }
  void fault(const std::string& n, long k = 1) { counters["fault:" + n] += k; }
  void probe(const std::string& n, long k = 1) { counters["probe:" + n] += k; }
  void state(uint64_t h) { if (states.size() < 400) states.push_back(h); }
  void beginOp(int i, const Op& op);
  void known(const std::string& id) { knownHits += id + ";"; }
  // choice stream of the current op (0 when the schedule is unperturbed)
  Rng opRng(uint64_t salt) const;
  bool has(const char* p) const { return prop == p; }
};
extern Ctx* g_ctx;

struct World {
  virtual ~World() {}
  virtual void generate(Rng& r, const std::string& prop, Case& c) = 0;
  virtual void run(const Case& c, Ctx& ctx) = 0;
  virtual std::string describe(const Case&, const Op& op) {
    std::ostringstream o; o << "op" << op.k; for (int i = 0; i < NARG; i++) o << (i ? "," : "(") << op.a[i]; o << ")"; return o.str();
  }
};
void registerWorld(const std::string& name, World* w);
World* findWorld(const std::string& name);

#define VFAIL(cls, expr) do { std::ostringstream _o; _o << expr; throw sim::Violation(cls, _o.str()); } while (0)

// allocator seam
void arenaBegin(uint64_t seed, bool scramble);
uint64_t arenaAllocCount();
// rand() seam
void randSeed(uint64_t seed);

} // namespace sim
