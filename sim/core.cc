#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

Ctx* g_ctx = nullptr;

static std::map<std::string, World*>& worlds() { static std::map<std::string, World*> m; return m; }
void registerWorld(const std::string& n, World* w) { worlds()[n] = w; }
World* findWorld(const std::string& n) { auto it = worlds().find(n); return it == worlds().end() ? nullptr : it->second; }

struct PropWorld { const char* prop; const char* world; int weight; };
extern const PropWorld g_propWorlds[];
extern const char* const g_realComponents;
extern const char* const g_stubs;

// ---------------------------------------------------------------- shared page
struct Shm {
  volatile int status;        // 0 = not finished
  volatile uint64_t hash;
  volatile int opIndex;
  volatile int opKind;
  volatile uint32_t len;
  char buf[1 << 20];
};
static Shm* g_shm = nullptr;

void Ctx::ev(const std::string& s) {
  hash = hcomb(hash, hstr(s)); if (sink) { *sink += s; *sink += '\n'; }
  if (g_shm) g_shm->hash = hash;
  if (verbose) { fprintf(stdout, "   %s\n", s.c_str()); fflush(stdout); }
}
void Ctx::beginOp(int i, const Op& op) {
  opIndex = i; curOp = &op;
  if (g_shm) { g_shm->opIndex = i; g_shm->opKind = op.k; }
}
Rng Ctx::opRng(uint64_t salt) const {
  return Rng(hcomb(hcomb(sched, curOp ? (uint64_t)curOp->uid : 0), salt));
}

struct Result {
  int status = 0;             // 0 ok, 1 violation, 2 stop(harness), 9 machinery error
  std::string cls, msg, known;
  uint64_t hash = 0;
  std::map<std::string, long> counters;
  std::vector<uint64_t> states;
  bool nontrivial = false;
};

static std::string esc(const std::string& s) { std::string r; for (char c : s) r += (c == '\n' || c == '\t') ? ' ' : c; if (r.size() > 3000) r.resize(3000); return r; }

static void childBody(const Case& c, bool verbose) {
  Ctx ctx; g_ctx = &ctx; ctx.prop = c.prop; ctx.sched = c.sched; ctx.verbose = verbose;
  arenaBegin(hcomb(c.sched, 77), c.sched != 0);
  randSeed(hcomb(c.sched, 78));
  std::ostringstream out;
  int st = 0; std::string cls, msg;
  try {
    World* w = findWorld(c.world);
    w->run(c, ctx);
  } catch (Violation& v) { st = 1; cls = v.cls; msg = v.msg; }
  catch (Stop& s) { st = 2; msg = s.why; }
  catch (std::exception& e) { st = 1; cls = "exception"; msg = std::string("escaped std::exception: ") + e.what(); }
  if (st) ctx.ev("END " + cls);
  out << "R\t" << st << "\t" << esc(cls) << "\t" << esc(msg) << "\n";
  out << "K\t" << ctx.knownHits << "\n";
  out << "N\t" << (ctx.nontrivial ? 1 : 0) << "\n";
  for (auto& k : ctx.counters) out << "C\t" << k.first << "\t" << k.second << "\n";
  for (auto h : ctx.states) out << "S\t" << h << "\n";
  std::string s = out.str();
  if (s.size() > sizeof(g_shm->buf)) s.resize(sizeof(g_shm->buf));
  memcpy(g_shm->buf, s.data(), s.size());
  g_shm->len = (uint32_t)s.size();
  g_shm->status = 1;
  if (verbose) { fflush(stdout); }
  _exit(0);
}

static int g_cpuLimit = 8;

static Result runIsolated(const Case& c, bool verbose = false) {
  g_shm->status = 0; g_shm->hash = 0; g_shm->opIndex = -1; g_shm->len = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = g_cpuLimit;
    setitimer(ITIMER_PROF, &tv, nullptr);
    signal(SIGPROF, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); }
    else { int fd = open("/dev/null", O_WRONLY); if (!getenv("SIM_STDERR")) dup2(fd, 2); close(fd); }
    childBody(c, verbose);
    _exit(0);
  }
  Result r;
  if (p < 0) { r.status = 9; r.msg = "fork failed"; return r; }
  int st; 
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.hash = g_shm->hash;
  if (g_shm->status == 1 && WIFEXITED(st)) {
    std::string s(g_shm->buf, g_shm->len);
    std::istringstream in(s); std::string line;
    while (std::getline(in, line)) {
      std::vector<std::string> f; size_t a = 0;
      for (;;) { size_t b = line.find('\t', a); f.push_back(line.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
      if (f[0] == "R") { r.status = atoi(f[1].c_str()); r.cls = f[2]; r.msg = f[3]; }
      else if (f[0] == "K") r.known = f[1];
      else if (f[0] == "N") r.nontrivial = f[1] == "1";
      else if (f[0] == "C") r.counters[f[1]] += atol(f[2].c_str());
      else if (f[0] == "S") r.states.push_back(strtoull(f[1].c_str(), nullptr, 10));
    }
    return r;
  }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
    // 98: the arena is exhausted: unbounded growth, deterministic.
    if (WEXITSTATUS(st) == 97) { r.status = 9; r.msg = "arena"; return r; }
    r.status = 1; r.cls = "memory-exhausted"; r.msg = "run allocated more than 2 GB";
    return r;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
    r.status = 1; r.cls = "write-after-free"; r.msg = "memory was written after it had been freed (found at a later allocation, during op #" + std::to_string(g_shm->opIndex) + ")";
    return r;
  }
  r.status = 1;
  std::ostringstream m;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF) r.cls = "hang"; else { r.cls = "crash"; }
    m << (sg == SIGPROF ? "no termination within the CPU limit" : "process died with signal ") << (sg == SIGPROF ? "" : strsignal(sg)) << " during op #" << g_shm->opIndex << " kind " << g_shm->opKind;
  } else { r.cls = "crash"; m << "process exited with " << WEXITSTATUS(st) << " during op #" << g_shm->opIndex; }
  r.msg = m.str();
  if (r.cls == "hang") r.hash = 0;    // a busy loop may not be cut at the same event
  return r;
}

// --------------------------------------------------------------- case <-> text
static std::string caseText(const Case& c, const Result* r) {
  std::ostringstream o;
  o << "world " << c.world << "\nprop " << c.prop << "\nsched " << c.sched << "\ncfg";
  for (int v : c.cfg) o << " " << v;
  o << "\n";
  World* w = findWorld(c.world);
  for (auto& op : c.ops) {
    o << "op " << op.uid << " " << op.k;
    for (int i = 0; i < NARG; i++) o << " " << op.a[i];
    if (w) o << "   # " << w->describe(c, op);
    o << "\n";
  }
  if (r) { o << "expect " << r->cls << "\nhash " << r->hash << "\n# " << r->msg << "\n"; }
  return o.str();
}
static bool parseCase(const std::string& path, Case& c, std::string& cls, uint64_t& hash) {
  std::ifstream in(path); if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    size_t h = line.find('#'); if (h != std::string::npos) line.resize(h);
    std::istringstream l(line); std::string k; if (!(l >> k)) continue;
    if (k == "world") l >> c.world; else if (k == "prop") l >> c.prop; else if (k == "sched") l >> c.sched;
    else if (k == "cfg") { int v; while (l >> v) c.cfg.push_back(v); }
    else if (k == "op") { Op o; l >> o.uid >> o.k; for (int i = 0; i < NARG; i++) l >> o.a[i]; c.ops.push_back(o); }
    else if (k == "expect") l >> cls; else if (k == "hash") l >> hash;
  }
  return findWorld(c.world) != nullptr;
}

static Case makeCase(const std::string& prop, uint64_t seed, uint64_t index) {
  Rng r(hcomb(hcomb(seed, hstr(prop)), index));
  int total = 0;
  for (const PropWorld* p = g_propWorlds; p->prop; p++) if (prop == p->prop) total += p->weight;
  int x = r.below(total);
  Case c;
  for (const PropWorld* p = g_propWorlds; p->prop; p++) if (prop == p->prop) { if (x < p->weight) { c.world = p->world; break; } x -= p->weight; }
  c.prop = prop;
  // one run in five is unperturbed (no schedule or address scrambling)
  c.sched = r.chance(1, 5) ? 0 : (r.next() >> 1) | 1;
  World* w = findWorld(c.world);
  w->generate(r, prop, c);
  int uid = 1; for (auto& o : c.ops) if (!o.uid) o.uid = uid++;
  return c;
}

// ------------------------------------------------------------------ minimise
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Case minimise(Case c, const Result& orig, double budget, int& runs) {
  double t0 = nowS();
  int saved = g_cpuLimit; if (orig.cls == "hang") { g_cpuLimit = 2; budget = std::min(budget, 30.0); }
  auto fails = [&](const Case& k) { runs++; Result r = runIsolated(k); return r.status == 1 && r.cls == orig.cls; };
  auto left = [&]() { return nowS() - t0 < budget; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    size_t n = 2;
    while (c.ops.size() > 0 && left()) {
      size_t len = c.ops.size(); size_t chunk = (len + n - 1) / n; bool red = false;
      for (size_t s = 0; s < len && left(); s += chunk) {
        Case t = c; t.ops.erase(t.ops.begin() + s, t.ops.begin() + std::min(len, s + chunk));
        if (fails(t)) { c = t; red = true; progress = true; break; }
      }
      if (red) { n = n > 2 ? n - 1 : 2; continue; }
      if (chunk <= 1) break;
      n = std::min(len, n * 2);
    }
    if (c.sched != 0 && left()) { Case t = c; t.sched = 0; if (fails(t)) { c = t; progress = true; } }
    for (size_t i = 0; i < c.ops.size() && left(); i++)
      for (int j = 0; j < NARG && left(); j++) {
        if (c.ops[i].a[j] == 0) continue;
        Case t = c; t.ops[i].a[j] = 0; if (fails(t)) { c = t; progress = true; continue; }
        int v = c.ops[i].a[j];
        if (v / 2 != 0) { t = c; t.ops[i].a[j] = v / 2; if (fails(t)) { c = t; progress = true; } }
      }
  }
  g_cpuLimit = saved;
  return c;
}

// --------------------------------------------------------------- known findings
struct Known { std::string id, prop, cls, contains, replay, what; };
// The committed file is a line format: known<TAB>id<TAB>property<TAB>class<TAB>substring<TAB>replay<TAB>what
static std::vector<Known> loadKnown(const std::string& path) {
  std::vector<Known> v; std::ifstream in(path); std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "known\t") != 0) continue;
    std::vector<std::string> f; size_t a = 0;
    for (;;) { size_t b = line.find('\t', a); f.push_back(line.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
    if (f.size() < 7) continue;
    v.push_back(Known{f[1], f[2], f[3], f[4], f[5], f[6]});
  }
  return v;
}
static const Known* matchKnown(const std::vector<Known>& ks, const std::string& prop, const Result& r) {
  for (auto& k : ks) if (k.prop == prop && k.cls == r.cls && (k.contains.empty() || r.msg.find(k.contains) != std::string::npos)) return &k;
  return nullptr;
}

// --------------------------------------------------------------------- search
struct Agg {
  long runs = 0, nontrivial = 0, stops = 0, knownRuns = 0, ops = 0;
  std::map<std::string, long> counters;
  std::map<std::string, long> stopWhy;
  std::unordered_set<uint64_t> traces, states;
  std::vector<std::string> samples;
};

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) r += '?'; else r += (char)c; }
  return r + "\"";
}

struct Args { std::map<std::string, std::string> m; std::string get(const std::string& k, const std::string& d) const { auto i = m.find(k); return i == m.end() ? d : i->second; } };

static std::string selfExe() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; return b; }

// exit status of a fresh process replaying `file`
static int freshReplay(const std::string& file) {
  pid_t p = fork();
  if (p == 0) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
    std::string exe = selfExe();
    execl(exe.c_str(), exe.c_str(), "replay", file.c_str(), (char*)nullptr);
    _exit(127);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}

static Shm* mapShm() { void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return (Shm*)m; }

static int workerMain(const Args& a, int w, int nw, volatile int* stopFlag) {
  g_shm = mapShm();
  std::string prop = a.get("prop", ""), outdir = a.get("outdir", "/tmp");
  uint64_t seed = strtoull(a.get("seed", "1").c_str(), nullptr, 10);
  double secs = atof(a.get("seconds", "30").c_str());
  long maxRuns = atol(a.get("runs", "100000000").c_str());
  std::vector<Known> known = loadKnown(a.get("known", ""));
  double t0 = nowS(); Agg g; long machinery = 0, unreproducible = 0; int rc = 0;
  for (uint64_t i = (uint64_t)w; (long)i < maxRuns && nowS() - t0 < secs && !*stopFlag; i += (uint64_t)nw) {
    Case c = makeCase(prop, seed, i);
    Result r = runIsolated(c);
    if (r.status == 9) { if (++machinery > 20) { rc = 3; break; } continue; }
    g.runs++; g.ops += (long)c.ops.size();
    for (auto& k : r.counters) g.counters[k.first] += k.second;
    for (auto s : r.states) g.states.insert(s);
    bool fresh = g.traces.insert(r.hash).second;
    if (r.nontrivial && fresh) g.nontrivial++;
    if (r.status == 2) { g.stops++; g.stopWhy[r.msg.substr(0, 60)]++; }
    if (g.samples.size() < 2 && r.status == 0 && r.nontrivial) g.samples.push_back(caseText(c, nullptr));
    // determinism spot check: one run in 64 is executed twice
    if ((i / (uint64_t)nw) % 64 == 7) {
      Result r2 = runIsolated(c); g.counters["determinism_pairs"]++;
      if (r2.hash != r.hash || r2.status != r.status) g.counters["determinism_mismatch"]++;
    }
    if (r.status == 1) {
      const Known* k = matchKnown(known, prop, r);
      if (k) { g.knownRuns++; g.counters["known:" + k->id]++; continue; }
      Result r2 = runIsolated(c);
      if (!(r2.status == 1 && r2.cls == r.cls && r2.hash == r.hash)) { unreproducible++; continue; }
      int mruns = 0;
      Case m = minimise(c, r, atof(a.get("minimise", "20").c_str()), mruns);
      Result rm = runIsolated(m);
      if (rm.status != 1 || rm.cls != r.cls) { m = c; rm = r; }
      // the minimised run may land on a listed finding
      if (matchKnown(known, prop, rm)) { m = c; rm = r; }
      std::string path = outdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
      { std::ofstream o(path); o << "# seed " << seed << " run " << i << " (minimised with " << mruns << " runs from " << c.ops.size() << " to " << m.ops.size() << " operations)\n" << caseText(m, &rm); }
      int fr = freshReplay(path);
      if (fr != 1) { unreproducible++; continue; }
      std::ofstream v(outdir + "/viol." + std::to_string(w)); v << path << "\n" << rm.cls << "\n" << rm.msg << "\n";
      *stopFlag = 1; rc = 1; break;
    }
  }
  std::ofstream o(outdir + "/agg." + std::to_string(w));
  o << "runs\t" << g.runs << "\nnontrivial\t" << g.nontrivial << "\nstops\t" << g.stops << "\nops\t" << g.ops << "\nmachinery\t" << machinery << "\nunrep\t" << unreproducible << "\nknownruns\t" << g.knownRuns << "\n";
  for (auto& k : g.counters) o << "C\t" << k.first << "\t" << k.second << "\n";
  for (auto& k : g.stopWhy) o << "W\t" << k.first << "\t" << k.second << "\n";
  for (auto h : g.traces) o << "T\t" << h << "\n";
  for (auto h : g.states) o << "S\t" << h << "\n";
  for (auto& s : g.samples) { std::string e; for (char ch : s) { if (ch == '\n') e += "\\n"; else if (ch == '\t') e += ' '; else e += ch; } o << "X\t" << e << "\n"; }
  o.close();
  return rc;
}

static int search(const Args& a) {
  std::string prop = a.get("prop", ""), outdir = a.get("outdir", "/tmp"), tier = a.get("tier", "quick");
  int nw = atoi(a.get("workers", "8").c_str());
  double t0 = nowS();
  volatile int* stopFlag = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *stopFlag = 0;
  // listed findings: replay each
  std::vector<Known> known = loadKnown(a.get("known", ""));
  g_shm = mapShm();
  int nk = 0;
  for (auto& k : known) if (k.prop == prop) {
    Case c; std::string cls; uint64_t h;
    std::string f = a.get("verif", ".") + "/" + k.replay;
    if (!parseCase(f, c, cls, h)) { printf("known finding %s: replay file unreadable\n", k.id.c_str()); return 3; }
    Result r = runIsolated(c);
    if (r.status == 1 && matchKnown(known, prop, r) && matchKnown(known, prop, r)->id == k.id) {
      printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), k.id.c_str(), k.what.c_str()); nk++;
    } else if (r.status == 1) { printf("VIOLATION property=%s replay=%s\n%s: %s\n", prop.c_str(), f.c_str(), r.cls.c_str(), r.msg.c_str()); return 1; }
    else printf("known finding %s no longer reproduces\n", k.id.c_str());
  }
  // committed regression cases: fixed seeds that once failed
  std::vector<pid_t> pids;
  for (int w = 0; w < nw; w++) {
    std::string f = outdir + "/viol." + std::to_string(w); unlink(f.c_str());
    f = outdir + "/agg." + std::to_string(w); unlink(f.c_str());
  }
  fflush(stdout);
  for (int w = 0; w < nw; w++) {
    pid_t p = fork();
    if (p == 0) { _exit(workerMain(a, w, nw, stopFlag)); }
    pids.push_back(p);
  }
  bool machineryError = false;
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) == 3) machineryError = true; }
  Agg g; long unrep = 0, machinery = 0; std::unordered_set<uint64_t> tr, stt; std::vector<std::string> samples;
  for (int w = 0; w < nw; w++) {
    std::ifstream in(outdir + "/agg." + std::to_string(w)); std::string line; if (!in) { machineryError = true; continue; }
    while (std::getline(in, line)) {
      std::vector<std::string> f; size_t x = 0;
      for (;;) { size_t b = line.find('\t', x); f.push_back(line.substr(x, b == std::string::npos ? b : b - x)); if (b == std::string::npos) break; x = b + 1; }
      if (f[0] == "runs") g.runs += atol(f[1].c_str()); else if (f[0] == "nontrivial") g.nontrivial += atol(f[1].c_str());
      else if (f[0] == "stops") g.stops += atol(f[1].c_str()); else if (f[0] == "ops") g.ops += atol(f[1].c_str());
      else if (f[0] == "machinery") machinery += atol(f[1].c_str()); else if (f[0] == "unrep") unrep += atol(f[1].c_str());
      else if (f[0] == "knownruns") g.knownRuns += atol(f[1].c_str());
      else if (f[0] == "C") g.counters[f[1]] += atol(f[2].c_str()); else if (f[0] == "W") g.stopWhy[f[1]] += atol(f[2].c_str());
      else if (f[0] == "T") tr.insert(strtoull(f[1].c_str(), nullptr, 10)); else if (f[0] == "S") stt.insert(strtoull(f[1].c_str(), nullptr, 10));
      else if (f[0] == "X" && samples.size() < 3) samples.push_back(f[1]);
    }
  }
  // violations: the lowest-numbered worker's
  std::string path, cls, msg; int nv = 0;
  for (int w = 0; w < nw; w++) {
    std::ifstream in(outdir + "/viol." + std::to_string(w)); if (!in) continue;
    std::string p, c, m; std::getline(in, p); std::getline(in, c); std::getline(in, m); nv++;
    if (path.empty()) { path = p; cls = c; msg = m; }
  }
  double wall = nowS() - t0;
  std::ostringstream e;
  e << "{\n \"property\": " << jstr(prop) << ", \"tier\": " << jstr(tier) << ", \"seed\": " << a.get("seed", "1") << ", \"level\": \"exploration\",\n";
  e << " \"coverage\": {\n  \"evaluations\": " << g.runs << ",\n  \"distinct_nontrivial\": " << std::min<long>(g.nontrivial, (long)tr.size()) << ",\n";
  e << "  \"rule\": " << jstr("a case is one seeded simulated run (swarm configuration + operation/fault list + schedule seed); it is non-trivial when the oracles of this property were evaluated on a state with real work (the world sets the flag) and distinct when its event-trace hash is new") << ",\n";
  e << "  \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) e << (i ? ", " : "") << jstr(samples[i]); e << "],\n";
  e << "  \"runs_per_hour\": " << (long)(wall > 0 ? (double)g.runs / wall * 3600 : 0) << ",\n  \"seeds\": " << g.runs << ",\n  \"operations_simulated\": " << g.ops << ",\n";
  e << "  \"simulated_time\": " << jstr("the code under test has no clock; simulated progress is counted in operations and scheduling points") << ",\n";
  e << "  \"distinct_traces\": " << tr.size() << ",\n  \"distinct_states\": " << stt.size() << ",\n  \"runs_stopped_early\": " << g.stops << ",\n  \"runs_on_known_findings\": " << g.knownRuns << ",\n";
  e << "  \"unreproducible_failures\": " << unrep << ",\n";
  e << "  \"faults_injected\": {"; bool first = true;
  for (auto& k : g.counters) if (k.first.compare(0, 6, "fault:") == 0) { e << (first ? "" : ", ") << jstr(k.first.substr(6)) << ": " << k.second; first = false; }
  e << "},\n  \"probes\": {"; first = true;
  for (auto& k : g.counters) if (k.first.compare(0, 6, "probe:") == 0) { e << (first ? "" : ", ") << jstr(k.first.substr(6)) << ": " << k.second; first = false; }
  e << "},\n  \"counters\": {"; first = true;
  for (auto& k : g.counters) if (k.first.compare(0, 6, "probe:") && k.first.compare(0, 6, "fault:")) { e << (first ? "" : ", ") << jstr(k.first) << ": " << k.second; first = false; }
  e << "},\n  \"stop_reasons\": {"; first = true;
  for (auto& k : g.stopWhy) { e << (first ? "" : ", ") << jstr(k.first) << ": " << k.second; first = false; }
  e << "},\n  \"real_components\": " << jstr(g_realComponents) << ",\n";
  e << "  \"stubbed_components\": " << jstr(g_stubs) << "\n },\n";
  e << " \"violations\": " << nv << ",\n \"assumptions\": [\"sampled, not exhaustive\", \"oracles and reference models in /verif/sim are trusted\"],\n \"wall_s\": " << wall << "\n}\n";
  std::string ef = a.get("evidence", ""); if (!ef.empty()) { std::ofstream o(ef); o << e.str(); }
  printf("%s: %ld runs (%ld non-trivial, %zu traces, %zu states, %ld stopped, %ld known) in %.1fs\n", prop.c_str(), g.runs, g.nontrivial, tr.size(), stt.size(), g.stops, g.knownRuns, wall);
  if (a.get("stats", "") == "1") {
    for (auto& k : g.counters) printf("  %-40s %ld\n", k.first.c_str(), k.second);
    for (auto& k : g.stopWhy) printf("  stop %-40s %ld\n", k.first.c_str(), k.second);
  }
  if (g.counters["determinism_mismatch"]) printf("note: %ld of %ld repeated runs differed\n", g.counters["determinism_mismatch"], g.counters["determinism_pairs"]);
  if (!path.empty()) {
    printf("VIOLATION property=%s replay=%s\n%s: %s\n", prop.c_str(), path.c_str(), cls.c_str(), msg.c_str());
    return 1;
  }
  if (machineryError) { printf("machinery error\n"); return 3; }
  if (unrep) { printf("error: %ld failing runs did not replay identically\n", unrep); return 4; }
  if (g.runs == 0) { printf("error: nothing ran\n"); return 5; }
  return 0;
}

} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: sim search|replay|one|determinism ...\n"); return 2; }
  std::string cmd = argv[1];
  setenv("EUROPA_HOME", "/nonexistent", 0);
  if (cmd == "replay") {
    g_shm = mapShm();
    bool v = argc > 3 && std::string(argv[3]) == "-v";
    Case c; std::string cls; uint64_t h = 0;
    if (!parseCase(argv[2], c, cls, h)) { printf("cannot read %s\n", argv[2]); return 2; }
    Result r = runIsolated(c, v);
    printf("status %d cls %s hash %llu\n%s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    if (r.status == 1) { printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), argv[2]); if (!cls.empty() && (cls != r.cls || h != r.hash)) { printf("differs from the recorded failure (%s %llu)\n", cls.c_str(), (unsigned long long)h); return 6; } return 1; }
    return r.status == 0 ? 0 : 2;
  }
  Args a;
  for (int i = 2; i + 1 < argc; i += 2) a.m[std::string(argv[i]).substr(2)] = argv[i + 1];
  if (cmd == "search") return search(a);
  if (cmd == "one" || cmd == "dump") {
    g_shm = mapShm();
    Case c = makeCase(a.get("prop", ""), strtoull(a.get("seed", "1").c_str(), 0, 10), strtoull(a.get("index", "0").c_str(), 0, 10));
    if (cmd == "dump") { printf("%s", caseText(c, nullptr).c_str()); return 0; }
    Result r = runIsolated(c, a.get("v", "1") == "1");
    printf("status %d cls %s hash %llu\n%s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    return r.status;
  }
  if (cmd == "triage") {          // development aid: minimise several failures and show them
    g_shm = mapShm(); long from = atol(a.get("from", "0").c_str()), n = atol(a.get("n", "200").c_str()), maxf = atol(a.get("max", "8").c_str());
    std::string only = a.get("cls", ""), notc = a.get("notcls", ""); long found = 0;
    std::vector<Known> known = loadKnown(a.get("known", "/verif/known_findings.txt"));
    for (long i = from; i < from + n && found < maxf; i++) {
      Case c = makeCase(a.get("prop", ""), strtoull(a.get("seed", "1").c_str(), 0, 10), (uint64_t)i);
      Result r = runIsolated(c);
      if (r.status == 9) { printf("run %ld machinery %s\n", i, r.msg.c_str()); continue; }
      if (r.status != 1 || (!only.empty() && r.cls != only) || (!notc.empty() && r.cls == notc) || matchKnown(known, c.prop, r)) continue;
      int mr = 0; Case m = minimise(c, r, atof(a.get("minimise", "6").c_str()), mr);
      Result rm = runIsolated(m); found++;
      printf("=== run %ld %s: %s\n", i, rm.cls.c_str(), rm.msg.c_str()); fflush(stdout);
      { std::ofstream o(a.get("outdir", "/verif/work/t") + "/" + c.prop + "-" + std::to_string(i) + ".replay"); o << caseText(m, &rm); }
      if (a.get("text", "0") == "1") printf("%s", caseText(m, &rm).c_str());
      fflush(stdout);
      runIsolated(m, true);
    }
    return 0;
  }
  if (cmd == "determinism") {
    g_shm = mapShm(); long bad = 0, n = atol(a.get("n", "200").c_str()); uint64_t x = 0;
    for (long i = 0; i < n; i++) {
      Case c = makeCase(a.get("prop", ""), strtoull(a.get("seed", "1").c_str(), 0, 10), (uint64_t)i);
      Result r1 = runIsolated(c), r2 = runIsolated(c);
      if (r1.hash != r2.hash || r1.status != r2.status) { bad++; printf("run %ld differs\n", i); }
      x = hcomb(x, r1.hash);
    }
    printf("%ld runs, %ld differ, digest %llu\n", n, bad, (unsigned long long)x);
    return bad ? 1 : 0;
  }
  return 2;
}
