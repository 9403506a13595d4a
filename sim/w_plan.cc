// World "plan": one client edits a plan database with model rules, timelines
// and merging.  Properties C04 (times), C05 (reversibility), C06 (rules),
// C07 (timelines); the checks run at every propagated point.
#include "checks.h"
using namespace sim;
using namespace EUROPA;

namespace {
const char* mopName[] = {"pred", "param", "pcon", "sub", "if", "local", "con"};

struct PlanWorld : World, PlanChecks {
  void generate(Rng& r, const std::string& prop, Case& c) override {
    // cfg: 0 classes-1, 1 timeline mask, 2-3 objects, 4 pure temporal, 5 auto propagation, 6 agenda seed, 7 durations
    bool temporal = prop == "C04"; bool ord = prop == "C07" || r.chance(1, 3);
    c.cfg = {r.below(2), ord ? 1 + r.below(3) : r.below(4), r.below(prop == "C07" ? 3 : 2), r.below(2), temporal && r.chance(2, 3) ? 1 : 0, r.below(4) == 0, r.below(1000), prop == "C07" && r.chance(1, 2)};
    if (c.cfg[4]) { c.cfg[2] = c.cfg[3] = 0; for (int i = r.range(1, 3); i > 0; i--) { Op o; o.k = M_PRED; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); } for (int i = r.below(4); i > 0; i--) { Op o; o.k = M_SUB; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); o.a[1] = 0; c.ops.push_back(o); } }
    else genModelOps(r, c, prop == "C06" ? r.range(2, 5) : r.range(1, 4), prop == "C06" || r.chance(3, 4), prop == "C06" || prop == "C05" || r.chance(1, 3));
    std::vector<int> w = g_baseWeights; int n = r.range(8, 60);
    if (prop == "C05") { w[O_SNAP] = 6; w[O_UNDO] = 4; w[O_RESTR] = 1; }
    if (prop == "C06") { w[O_SPEC] = 18; w[O_RST] = 12; w[O_CAN] = 10; w[O_ORD] = 1; w[O_UNORD] = 1; w[O_MERGE] = 10; w[O_CON] = 4; }
    if (prop == "C07") { w[O_ORD] = 25; w[O_UNORD] = 10; w[O_REJ] = 4; w[O_CAN] = 8; w[O_ACT] = 16; w[O_DELT] = 5; }
    if (prop == "C04") { w[O_CON] = 18; w[O_DELC] = 9; }
    genSessOps(r, c, n, w);
    Op o; o.k = O_PROP; c.ops.push_back(o); o.k = prop == "C05" ? O_UNDO : O_CHECK; c.ops.push_back(o);
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= 100 && op.k < M_END ? std::string("model.") + mopName[op.k - 100] : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  void run(const Case& c, Ctx& cx) override {
    ctx = &cx; std::string where = "model";
    auto cf = [&](size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; };
    try {
      s.ctx = ctx; s.m.durations = cf(7) != 0; s.m.build(c); pure = cf(4) != 0; s.temporalOnly = pure;
      s.p.open((uint64_t)cf(6) + cx.sched, cf(5) != 0); s.p.load(s.m); s.p.closeAll();
      if (cx.verbose) fprintf(stdout, "%s\n", s.m.nddl().c_str());
      Rng ur(cx.sched + 77);
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; if (op.k >= 100) continue; cx.beginOp((int)i, op); where = g_sops[op.k % NSOP];
        if (op.k == O_CHECK) { s.propagate(); check(op); continue; }
        if (op.k == O_UNDO) { undoAll(op); continue; }
        if (!s.apply(op)) { cx.count("skipped"); continue; }
        where += " (" + s.last + ")"; cx.nontrivial = true;
        if (op.k == O_PROP || s.p.ce->getAutoPropagation()) check(op); else light();
      }
      cx.state(hstr(s.p.dump()));
    } catch (Error& er) { VFAIL("unexpected-error", where << ": " << er.getMsg() << " | " << er.getCondition() << " (after " << s.last << ")"); }
    catch (std::exception& er) { VFAIL("unexpected-exception", where << ": " << er.what()); }
  }
  void undoAll(const Op& op) {
    if (!s.snap) return; Rng r((uint64_t)op.a[0] * 1000 + (uint64_t)op.a[1]); int n = (int)s.decs.size();
    while (s.undoOne(r)) { if (r.chance(1, 5)) { s.propagate(); } }
    s.snap = false; s.propagate(); ctx->count("undo_windows"); ctx->count("undone_decisions", n); ctx->fault("history-undone-in-random-order");
    std::string now = s.p.dump(); if (now != s.snapDump) VFAIL("not-restored", "after undoing every decision since the snapshot the plan differs:\n" << diff(s.snapDump, now));
    ctx->probe("undo:restored");
  }
  // invariants which do not need propagation
  void light() { if (ctx->has("C05")) states(); if (ctx->has("C07")) sequences(); }
  void check(const Op& op) {
    s.propagate(); bool ok = s.p.cons(); ctx->count(ok ? "checks_consistent" : "checks_inconsistent"); light();
    if (ctx->has("C04")) times(op);
    if (!ok) return;
    if (ctx->has("C05")) merged();
    if (ctx->has("C06")) rules();
    if (ctx->has("C07")) ordering();
  }

};
struct Reg { Reg() { registerWorld("plan", new PlanWorld); } } reg;
}
