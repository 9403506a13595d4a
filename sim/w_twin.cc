// World "twin" (C17): the same program is run several times, each time in a
// process of its own forked from here, under another placement of heap objects
// and after or next to other engines.  Every observable line must be the same.
#include "side.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <errno.h>
using namespace sim;
using namespace EUROPA;

namespace {
const char* mopName3[] = {"pred", "param", "pcon", "sub", "if", "local", "con"};
struct TwinWorld : World {
  static int cf(const Case& c, size_t i) { return sideCfg(c, i); }
  void generate(Rng& r, const std::string&, Case& c) override {
    bool ord = r.chance(2, 3), times = r.chance(1, 6);
    // 0..12 as in world solver; 13 real agenda, 14 kind of disturbance, 15 amount
    c.cfg = {r.below(2), ord ? 1 + r.below(3) : 0, r.below(3), r.below(2), 0, r.below(4) == 0, r.below(1000), r.chance(1, 3), r.below(6), times, r.below(1000), r.below(1000), r.below(12), r.chance(4, 5), r.below(16), r.below(1000)};
    genModelOps(r, c, r.range(1, 4), r.chance(4, 5), r.chance(1, 2)); genConfigOps(r, c, r.chance(1, 3) ? "C11" : "C09");
    std::vector<int> w = g_baseWeights; w[O_CHECK] = w[O_SNAP] = w[O_UNDO] = 0;
    auto add = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
    if (r.chance(1, 3)) { genSessOps(r, c, r.range(5, 40), w); add(O_PROP); return; }
    w[O_DELT] = w[O_CAN] = w[O_RST] = w[O_DELC] = w[O_UNORD] = w[O_RESTR] = 1; w[O_PROP] = 8; w[O_TOK] = 16; w[O_ACT] = w[O_MERGE] = w[O_REJ] = w[O_SPEC] = w[O_ORD] = 2; w[O_CON] = 14;
    genSessOps(r, c, r.range(3, 22), w); add(S_ATTACH); for (int i = r.range(1, 6); i > 0; i--) { int x = r.below(8); add(x < 4 ? S_SOLVE : x < 6 ? S_STEP : x < 7 ? S_RESET : S_BACKJUMP); }
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= S_ATTACH && op.k < S_SVEND ? std::string(g_svops[op.k - S_ATTACH]) : op.k >= 200 ? std::string(op.k == G_FILTER ? "config.filter" : "config.handler") : op.k >= 100 && op.k < M_END ? std::string("model.") + mopName3[op.k - 100] : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  // the whole program, in the surroundings number `variant`
  static std::string once(const Case& c, int variant, bool verbose) {
    int kind = cf(c, 14), n = cf(c, 15); std::string out; Ctx k; k.sink = &out; k.verbose = verbose; Ctx quiet; std::string where = "model";
    arenaBegin((uint64_t)n * 7 + (uint64_t)variant * 1000003 + 1, variant > 0);
    std::vector<Side*> other;
    try {
      if (variant > 0 && (kind & 1)) {       // another engine ran, or still runs, in this process
        Side* o = new Side; sideOpen(*o, c); int left = n % 20; for (auto& op : c.ops) { if (op.k >= 100 && op.k < S_ATTACH) continue; if (left-- <= 0) break; sideStep(*o, c, op, quiet); }
        if (kind & 2) { if (o->S) delete o->S; delete o->s.p.eng; } }
      if (variant > 0 && (kind & 4)) { Side* o = new Side; sideOpen(*o, c); other.push_back(o); }
      std::vector<char*> junk; Rng jr((uint64_t)n + (uint64_t)variant);
      Side x; sideOpen(x, c); if (verbose) fprintf(stdout, "%s\n%s\n", x.s.m.nddl().c_str(), x.g.xml("S").c_str());
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; if (op.k >= 100 && op.k < S_ATTACH) continue; where = "op " + std::to_string(i);
        if (variant > 0) for (int j = jr.below(4); j > 0; j--) junk.push_back(new char[(size_t)jr.range(8, 400)]);
        for (auto& o : other) if (jr.chance(2, 3)) { Op q = c.ops[(i * 7 + 3) % c.ops.size()]; if (q.k < 100) sideStep(*o, c, q, quiet); }
        sideStep(x, c, op, k);
      }
    } catch (Error& er) { out += "error: " + er.getMsg() + " in " + where + "\n"; } catch (Violation& v) { out += "violation " + v.cls + " in " + where + "\n"; }
    catch (Stop& v) { out += "stop " + v.why + "\n"; } catch (std::exception& er) { out += std::string("exception: ") + er.what() + "\n"; }
    return out;
  }
  struct Got { std::string text; int st = 0; };
  static Got isolated(const Case& c, int variant, bool verbose) {
    int fd[2]; Got g; if (pipe(fd)) throw Stop{"pipe"}; fflush(stdout); pid_t p = fork(); if (p < 0) throw Stop{"fork"};
    if (p == 0) { close(fd[0]); struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &tv, nullptr); std::string s = once(c, variant, verbose && variant == 0); const char* q = s.data(); size_t n = s.size(); while (n) { ssize_t w = write(fd[1], q, n); if (w <= 0) break; q += w; n -= (size_t)w; } fflush(stdout); _exit(0); }
    close(fd[1]); char b[65536]; for (;;) { ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; g.text.append(b, (size_t)n); } close(fd[0]); while (waitpid(p, &g.st, 0) < 0 && errno == EINTR) {} return g;
  }
  void run(const Case& c, Ctx& cx) override {
    Got a = isolated(c, 0, cx.verbose), b = isolated(c, 1, cx.verbose); cx.nontrivial = a.text.size() > 200; cx.count("program_pairs"); int kind = cf(c, 14);
    if (kind & 1) cx.fault(kind & 2 ? "engine-ran-before-and-was-shut-down" : "engine-left-alive"); if (kind & 4) cx.fault("engine-runs-in-between"); cx.fault("heap-placement-scrambled");
    std::istringstream ia(a.text), ib(b.text); std::string x, y, last; long n = 0;
    for (;; n++) {
      bool ha = (bool)std::getline(ia, x), hb = (bool)std::getline(ib, y); if (!ha && !hb) break; if (x.compare(0, 6, "token ") && x.compare(0, 2, "  ")) last = x;
      if (ha != hb || x != y) { if (a.st || b.st) break; cx.ev("differ"); VFAIL("differs", "line " << n << " of what the program shows is '" << (ha ? x : "(end)") << "' and, with other surroundings, '" << (hb ? y : "(end)") << "'"); }
    }
    if (a.st != b.st) { cx.ev("died"); VFAIL("died", "the program ends with status " << a.st << " and, with other surroundings, " << b.st); } if (a.st) { cx.ev("died"); VFAIL("died", "the program ends with status " << a.st); }
    cx.ev(std::to_string(hstr(a.text))); cx.count("lines_compared", n); for (auto& m : {"solved", "exhausted", "timed out", "failed "}) { size_t q = a.text.find(m); if (q != std::string::npos) cx.probe(std::string("seen:") + m); }
    size_t e = a.text.find("\nerror: "); if (e != std::string::npos) VFAIL("error", a.text.substr(e + 1, 300)); cx.state(hstr(a.text));
  }
};
struct Reg { Reg() { registerWorld("twin", new TwinWorld); } } reg;
}
