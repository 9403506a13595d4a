// World "solver": chronological search on a plan database.  C09 (answers), C10
// (backing out), C11 (open decisions against the plan, with other clients).
#include "solv.h"
using namespace sim;
using namespace EUROPA;

namespace {
const char* mopName2[] = {"pred", "param", "pcon", "sub", "if", "local", "con"};
const unsigned NOLIMIT = 1000000;

struct Choice { int kind = 0; std::string a, b, o; double v = 0; std::string key; };   // 0 activate, 1 merge, 2 reject, 3 order, 4 value
struct Watch { virtual void made(SOLVERS::DecisionPointId) = 0; virtual void took(SOLVERS::DecisionPointId, bool ok) = 0; virtual void undid(SOLVERS::DecisionPointId) = 0; virtual void gaveUp(SOLVERS::DecisionPointId) = 0; virtual ~Watch() {} };

struct Sv : SOLVERS::SearchListener {
  Watch* watch = nullptr;
  SOLVERS::Solver* s = nullptr; bool active = false; PlanChecks* pc = nullptr; Ctx* ctx = nullptr; bool record = false; std::vector<std::string> dumps; const SConfig* g = nullptr; int failed = 0, retracted = 0; bool busy = false; bool over = false;
  std::string full() { Plan& p = pc->s.p; p.refresh(); return p.dump() + reported(p, s); }
  void compare(const std::string& when) {
    size_t d = s->getDepth(); if (!record || d >= dumps.size()) return; std::string n = full(); ctx->count("restores_checked");
    if (n != dumps[d]) VFAIL("not-restored", when << " at depth " << d << " the plan differs from what it was before the decisions that were backed out:\n" << PlanChecks::diff(dumps[d], n));
  }
  void notifyCreated(SOLVERS::DecisionPointId d) override { active = true; if (watch) watch->made(d); if (record) compare("when the next decision is made"); }
  void notifyDeleted(SOLVERS::DecisionPointId) override { active = false; }
  void notifyUndone(SOLVERS::DecisionPointId d) override { if (watch) watch->undid(d); }
  void notifyStepSucceeded(SOLVERS::DecisionPointId dp) override { active = false; if (watch) watch->took(dp, true); pc->s.p.refresh(); if (ctx->verbose) fprintf(stdout, "    step %u: %s%s\n", s->getStepCount(), s->getLastExecutedDecision().substr(0, 150).c_str(), pc->s.p.cons() ? "" : " INCONSISTENT"); if (record) { size_t d = s->getDepth(); dumps.resize(d); dumps.push_back(full()); } }
  void notifyStepFailed(SOLVERS::DecisionPointId dp) override { failed++; if (watch) watch->took(dp, false); if (ctx->verbose) fprintf(stdout, "    failed: %s\n", s->getLastExecutedDecision().substr(0, 150).c_str()); }
  void notifyRetractSucceeded(SOLVERS::DecisionPointId) override { active = true; retracted++; if (record) { pc->s.p.propagate(); compare("after a failed step has been undone"); } }
  void notifyRetractNotDone(SOLVERS::DecisionPointId dp) override { retracted++; if (watch) watch->gaveUp(dp); if (record) { pc->s.p.propagate(); compare("after a decision has been retracted"); } }
};

struct SolverWorld : World, PlanChecks, Watch {
  SConfig g; Sv* sv = nullptr; std::string where; std::string prop;

  void generate(Rng& r, const std::string& prop, Case& c) override {
    bool ord = r.chance(2, 3), times = r.chance(1, 5);
    // cfg as in world plan (0..7); 8 manager order, 9 times decided, 10 horizon, 11 handlers, 12 threats
    c.cfg = {r.below(2), ord ? 1 + r.below(3) : 0, r.below(2), r.below(2), 0, prop == "C11" && r.below(5) == 0, r.below(1000), r.chance(1, 3), r.below(6), times ? 1 : 0, r.below(1000), r.below(1000), r.below(12)};
    genModelOps(r, c, r.range(1, prop == "C11" ? 4 : 3), r.chance(4, 5), r.chance(1, 2));
    genConfigOps(r, c, prop);
    std::vector<int> w = g_baseWeights; w[O_CHECK] = w[O_SNAP] = w[O_UNDO] = 0;
    auto add = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
    auto sess = [&](int n) { genSessOps(r, c, n, w); };
    if (prop == "C11") {
      sess(r.below(20)); add(S_ATTACH); for (int i = r.range(3, 14); i > 0; i--) { sess(r.range(1, 5)); int x = r.below(10); add(x < 3 ? S_STEP : x < 4 ? S_SOLVE : x < 5 ? S_RESET : x < 6 ? S_RESETN : x < 7 ? S_BACKJUMP : S_OBS); if (r.chance(1, 4)) add(S_ATTACH); }
      add(S_OBS);
    } else {
      w[O_DELT] = w[O_CAN] = w[O_RST] = w[O_DELC] = w[O_UNORD] = w[O_RESTR] = 1; w[O_PROP] = 8; w[O_TOK] = 14; w[O_ACT] = w[O_MERGE] = w[O_REJ] = w[O_SPEC] = w[O_ORD] = 2; w[O_CON] = 12;
      bool hard = r.chance(3, 5); size_t from = c.ops.size();
      if (hard) { w[O_CON] = 40; for (int i = r.range(0, 4); i > 0; i--) add(M_PCON); for (int i = r.range(0, 6); i > 0; i--) add(M_CON); if (r.chance(1, 2)) c.cfg[2] = c.cfg[3] = 0; from = c.ops.size(); }
      sess(r.range(3, hard ? 22 : 16)); add(S_ATTACH);
      // tightly constrained problems: few tokens which may be rejected, constraints which exclude each other
      if (hard) for (size_t i = from; i < c.ops.size(); i++) { Op& o = c.ops[i]; if (o.k == O_TOK && r.chance(5, 6)) { o.a[1] = 1 + 3 * r.below(300); o.a[2] = 1; } if (o.k == O_CON && r.chance(2, 3)) { o.a[2] = r.chance(1, 3) ? r.below(2) : 4 + r.below(2); if (o.a[2] > 3) o.a[4] = r.chance(1, 2) ? 1 : 0; } }

      if (prop == "C10") for (int i = r.range(2, 14); i > 0; i--) { int x = r.below(14); add(x < 5 ? S_STEP : x < 7 ? S_SOLVE : x < 8 ? S_RESET : x < 10 ? S_RESETN : x < 12 ? S_BACKJUMP : x < 13 ? S_TWICE : S_OBS); }
      else for (int i = r.range(1, 12); i > 0; i--) { int x = r.below(10); add(x < 4 ? S_STEP : x < 8 ? S_SOLVE : S_OBS); }
    }
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= S_ATTACH && op.k < S_SVEND ? std::string(g_svops[op.k - S_ATTACH]) : op.k >= 200 ? std::string(op.k == G_FILTER ? "config.filter" : "config.handler") : op.k >= 100 && op.k < M_END ? std::string("model.") + mopName2[op.k - 100] : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  static int cf(const Case& c, size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; }
  void openPlan(Sess& x, const Case& c, uint64_t agenda) { x.m.durations = cf(c, 7) != 0; x.m.build(c); x.p.open(agenda, cf(c, 5) != 0); x.p.load(x.m); x.p.closeAll(); }

  void run(const Case& c, Ctx& cx) override {
    ctx = &cx; prop = cx.prop; where = "model";
    try {
      s.ctx = ctx; openPlan(s, c, (uint64_t)cf(c, 6) + cx.sched); g.build(c, s.m, prop);
      if (cx.verbose) fprintf(stdout, "%s\n%s\n", s.m.nddl().c_str(), g.xml("S").c_str());
      if (prop == "C09") { answers(c); return; }
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; if (op.k >= 100 && op.k < S_ATTACH) continue; cx.beginOp((int)i, op);
        where = op.k >= S_ATTACH ? g_svops[op.k - S_ATTACH] : g_sops[op.k % NSOP];
        if (op.k < S_ATTACH) { client(op); continue; }
        solverOp(op);
      }
      cx.state(hstr(s.p.dump()));
    } catch (Error& er) { VFAIL("unexpected-error", where << ": " << er.getMsg() << " | " << er.getCondition() << " (after " << s.last << ")"); }
    catch (std::exception& er) { VFAIL("unexpected-exception", where << ": " << er.what()); }
  }
  void client(const Op& op) {
    if (sv) {
      if (prop == "C10") { ctx->count("skipped"); return; }
      if (sv->s->getDepth() > 0) { static const std::set<int> additive = {O_TOK, O_ACT, O_MERGE, O_REJ, O_SPEC, O_CON, O_PROP}; if (!additive.count(op.k) || !s.p.cons()) { ctx->count("skipped"); return; } ctx->fault("other-client-edits-during-search"); }
      if (sv->active) { sv->s->reset(0); sv->active = false; }
    }
    if (!s.apply(op)) { ctx->count("skipped"); return; }
    where += " (" + s.last + ")"; ctx->nontrivial = true; if (op.k == O_PROP && prop == "C11") observe();
  }
  void attach(uint64_t rs) {
    randSeed(rs); if (sv) delete sv->s; sv = new Sv; sv->s = makeSolver(s.p, g, "S"); sv->pc = this; sv->ctx = ctx; sv->g = &g; sv->s->addListener(sv->getId()); ctx->ev("attach"); ctx->count("solvers_attached");
  }
  void solverOp(const Op& op) {
    if (op.k == S_ATTACH) {
      if (prop != "C11" || !sv) { if (prop != "C11") s.propagate(); if (!s.p.cons() && prop != "C11") { ctx->count("inconsistent_problem"); throw Stop{"problem inconsistent"}; } attach((uint64_t)op.a[0] + ctx->sched); if (prop == "C10") { sv->record = true; sv->dumps.push_back(sv->full()); } return; }
      if (sv->s->getDepth() == 0) { ctx->fault("solver-replaced"); attach((uint64_t)op.a[0]); } return;
    }
    if (!sv) return; SOLVERS::Solver* S = sv->s; s.propagate();
    if (op.k == S_OBS) { observe(); return; }
    if (!s.p.cons() || S->isExhausted()) { S->reset(); sv->active = false; s.propagate(); s.p.refresh(); ctx->ev("reset"); backed("after reset"); observe(); return; }
    ctx->nontrivial = true; std::ostringstream tx; tx << where;
    switch (op.k) {
      case S_STEP: { S->setMaxSteps(NOLIMIT); S->setMaxDepth(NOLIMIT); for (int i = 1 + op.a[0] % 3; i > 0 && !S->isExhausted(); i--) S->step(); tx << " depth " << S->getDepth(); break; }
      case S_SOLVE: { unsigned n = 1 + (unsigned)op.a[0] % 40, d = op.a[1] % 3 ? NOLIMIT : (unsigned)op.a[2] % 12; bool ok = S->solve(n, d); tx << " " << n << " " << d << " -> " << (ok ? "solved" : S->isExhausted() ? "exhausted" : "timed out") << " depth " << S->getDepth(); ctx->probe(ok ? "solve:solved" : S->isExhausted() ? "solve:exhausted" : "solve:timeout"); if (S->isTimedOut()) ctx->fault("search-interrupted"); break; }
      case S_RESET: S->reset(); sv->active = false; ctx->fault("search-reset"); break;
      case S_RESETN: { unsigned long d = S->getDepth() ? (unsigned long)op.a[0] % (S->getDepth() + 1) : 0; tx << " " << d; unsigned long m = S->getDepth(); S->reset(d); sv->active = false; if (S->getDepth() != m - d) VFAIL("reset-depth", "reset(" << d << ") at depth " << m << " leaves " << S->getDepth() << " decisions"); ctx->fault("search-reset"); break; }
      case S_BACKJUMP: { unsigned long m = S->getDepth(); if (m == 0) return; unsigned long n = 1 + (unsigned long)op.a[0] % m; tx << " " << n << " of " << m; bool act = sv->active; bool ex = S->backjump(n); unsigned long want = m - (act ? n - 1 : n); if (S->getDepth() > want) VFAIL("backjump-depth", "jumping back " << n << " of " << m << (act ? " decisions and one being tried" : " decisions") << " leaves " << S->getDepth() << " in force"); ctx->count("backjumps_checked"); tx << (ex ? " exhausted" : ""); if (ex) sv->active = false; ctx->fault("search-backjump"); break; }
      case S_TWICE: { twice(op); return; }
    }
    s.dirty = false; s.p.refresh(); ctx->ev(tx.str());  where += " " + tx.str();
    backed("after " + tx.str()); observe();
  }
  void backed(const std::string& when) {
    s.propagate(); if (!sv->record) return;
    if (!s.p.cons()) VFAIL("not-restored", when << " the plan is inconsistent although every decision left on the stack had been consistent");
    if (sv->s->isExhausted() && sv->s->getDepth() == 0) sv->dumps.resize(1);
    sv->compare(when); sv->dumps.resize(std::min(sv->dumps.size(), (size_t)sv->s->getDepth() + 1));
  }
  void twice(const Op& op) {
    SOLVERS::Solver* S = sv->s; std::string res[2], plan[2]; unsigned lim = 10 + (unsigned)op.a[0] % 60;
    for (int i = 0; i < 2; i++) {
      S->reset(); sv->active = false; backed("after reset"); randSeed((uint64_t)op.a[1]); bool ok = S->solve(lim); s.p.refresh();
      std::ostringstream o; o << (ok ? "solved" : S->isExhausted() ? "exhausted" : "timed out") << " after " << S->getStepCount() << " steps at depth " << S->getDepth(); res[i] = o.str(); s.propagate(); plan[i] = sv->full();
    }
    ctx->ev("twice " + res[0]); ctx->count("solved_twice"); ctx->fault("search-repeated");
    if (res[0] != res[1]) VFAIL("second-answer", "solving the same problem again after reset: first " << res[0] << ", then " << res[1]);
    if (plan[0] != plan[1]) VFAIL("second-plan", "solving the same problem again after reset gives a different plan:\n" << diff(plan[0], plan[1]));
    S->reset(); sv->active = false; backed("after the last reset");
  }
  // ---- C11 -----------------------------------------------------------------
  void observe() {
    if (!sv || prop != "C11") return; s.propagate(); if (!s.p.cons()) return; SOLVERS::Solver* S = sv->s; s.p.refresh();
    // which rules match an entity is settled once for it; a subgoal which loses its master keeps the rules matched by it
    bool byMaster = false; for (auto& r : g.rules) if (!r.mrel.empty() || !r.mcls.empty() || !r.mpred.empty() || !r.mguards.empty()) byMaster = true;
    if (byMaster) for (auto& t : s.p.tokens()) if (s.p.nameOf(t).find('~') != std::string::npos) { ctx->probe("observed:orphans-skipped"); return; }
    std::vector<SFlaw> want = g.flaws(s.p); std::map<std::string, const SFlaw*> w; for (auto& f : want) w[f.name] = &f;
    std::vector<EntityId> got; IteratorId it = S->createIterator(); while (!it->done()) { EntityId e = it->next(); if (e.isId()) got.push_back(e); } delete static_cast<Iterator*>(it);
    std::map<std::string, int> seen; ctx->count("flaw_sets_checked"); ctx->count("flaws_checked", (long)want.size());
    for (auto& e : got) {
      std::string n = nameOf(s.p, e); auto f = w.find(n); 
      if (f == w.end()) VFAIL("not-a-flaw", n << " is reported as an open decision but is " << why(e));
      // a token can at once need support and ordering: at most one report for each manager
      if (seen[n]++) VFAIL("reported-twice", n << " is reported twice");
      if (f->second->prios.empty()) continue; double pr = S->getFlawHandler(e)->getPriority(); 
      if (!f->second->prios.count(pr)) { std::ostringstream o; for (double x : f->second->prios) o << " " << x; VFAIL("wrong-handler", n << " is handled with the rule of priority " << pr << ", the configuration selects" << o.str()); }
      ctx->count("handlers_checked"); if (!S->inScope(e)) VFAIL("in-scope", n << " is reported but not in scope");
    }
    for (auto& f : want) if (!seen.count(f.name)) VFAIL("flaw-missing", f.name << " is an open decision but not reported" << (S->inScope(f.e) ? " (in scope)" : ""));
    if (S->noMoreFlaws() != want.empty()) VFAIL("no-more-flaws", "noMoreFlaws() is " << S->noMoreFlaws() << " with " << want.size() << " open decisions");
    size_t n = S->getOpenDecisions().size(); if (n != want.size()) VFAIL("open-decisions", "getOpenDecisions lists " << n << " of " << want.size());
    SOLVERS::Solver* F = makeSolver(s.p, g, "F"); std::string a = reported(s.p, S), b = reported(s.p, F); delete F; if (a != b) VFAIL("fresh-solver", "a solver attached now sees other decisions than the one attached before:\n" << diff(a, b));
    if (!want.empty()) ctx->probe("observed:flaws"); else ctx->probe("observed:none");
  }
  std::string why(const EntityId e) {
    if (TokenId::convertable(e)) { TokenId t = e; return std::string(t->isInactive() ? "inactive" : t->isActive() ? "active" : t->isMerged() ? "merged" : "rejected") + ", and is not to be ordered or is filtered"; }
    ConstrainedVariableId v = e; return std::string(v->isSpecified() ? "specified " : "unspecified ") + s.p.dom(v->lastDomain()) + (g.excluded(s.p, G_UVM, e) ? " and excluded by a filter" : "");
  }
  // ---- C09 -----------------------------------------------------------------
  struct Out { std::string res, dump; bool solved = false, exhausted = false; };
  bool setup(Sess& x, const Case& c) { for (size_t i = 0; i < c.ops.size(); i++) { const Op& op = c.ops[i]; if (op.k == S_ATTACH) break; if (op.k >= 100) continue; if (&x == &s) ctx->beginOp((int)i, op); where = g_sops[op.k % NSOP]; bool did = x.apply(op); applied.push_back(did); if (did) ctx->nontrivial = true; } x.propagate(); return x.p.cons(); }
  std::vector<bool> applied; bool sameSetup = true;   // whether an operation is possible can depend on which conflict propagation ran into: then there is nothing to compare
  Out outcome(Sess& x, SOLVERS::Solver* S) { Out o; std::ostringstream t; o.solved = S->noMoreFlaws() && !S->isExhausted() && !S->isTimedOut(); o.exhausted = S->isExhausted(); t << (o.solved ? "solved" : o.exhausted ? "exhausted" : "open") << " after " << S->getStepCount() << " steps at depth " << S->getDepth(); o.res = t.str(); x.p.refresh(); x.propagate(); o.dump = x.p.dump(); return o; }
  void answers(const Case& c) {
    bool ok = setup(s, c); const unsigned LIM = 150;
    // run A, uninterrupted
    where = "solve"; randSeed(cfseed(c)); SOLVERS::Solver* A = makeSolver(s.p, g, "S"); Sv* wa = new Sv; wa->s = A; wa->pc = this; wa->ctx = ctx; wa->watch = this; A->addListener(wa->getId()); bool solved = ok ? A->solve(LIM) : false;
    if (!ok) { A->step(); if (!A->isExhausted()) { bool r2 = A->solve(LIM); if (r2) VFAIL("solved-inconsistent", "the problem is inconsistent but the solver reports a solution"); } ctx->probe("problem:inconsistent"); return; }
    Out a = outcome(s, A); ctx->ev("A " + a.res);  ctx->count("problems"); ctx->probe(solved ? "problem:solved" : A->isExhausted() ? "problem:exhausted" : "problem:limit"); ctx->count("search_steps", A->getStepCount());
    if (solved != a.solved && solved) VFAIL("no-more-flaws", "solve() returned success but flaws are left: " << reported(s.p, A));
    if (solved && A->isExhausted()) VFAIL("solved-and-exhausted", "the solver is exhausted and solved");
    if (solved) solution(A);
    if (!solved && !A->isExhausted()) { if (!A->isTimedOut()) VFAIL("no-answer", "solve() returned neither solved, exhausted nor timed out"); }
    wa->watch = nullptr; skipped(c);
    // run B, interrupted in the ways the case says
    Sess b; b.ctx = nullptr; openPlan(b, c, (uint64_t)cf(c, 6) + ctx->sched + 1); Ctx* keep = ctx; bool ok2 = setupQuiet(b, c); if (!sameSetup) return; if (!ok2) VFAIL("setup-differs", "the problem is inconsistent in a second engine"); 
    randSeed(cfseed(c)); SOLVERS::Solver* B = makeSolver(b.p, g, "S"); int left = 0; unsigned total = 0; (void)keep; (void)left;
    for (size_t i = 0; i < c.ops.size(); i++) {
      const Op& op = c.ops[i]; if (op.k <= S_ATTACH) continue; ctx->beginOp((int)i, op); if (B->isExhausted() || B->getStepCount() >= LIM) break; where = g_svops[op.k - S_ATTACH]; std::ostringstream tx; tx << where;
      if (op.k == S_STEP) { B->setMaxSteps(NOLIMIT); B->setMaxDepth(NOLIMIT); for (int k = 1 + op.a[0] % 6; k > 0 && !B->isExhausted() && B->getStepCount() < LIM; k--) B->step(); ctx->fault("single-step"); }
      else if (op.k == S_SOLVE) { unsigned n = std::min(1 + (unsigned)op.a[0] % 20, LIM - B->getStepCount()), d = op.a[1] % 3 ? NOLIMIT : (unsigned)op.a[2] % 8; bool r = B->solve(n, d); if (B->isTimedOut()) ctx->fault("search-interrupted"); if (r && B->isTimedOut()) VFAIL("solved-and-timed-out", "solve() returned success and timed out"); tx << " " << n << " " << d << (r ? " solved" : ""); }
      else { b.propagate(); if (b.p.cons()) { reported(b.p, B); B->printOpenDecisions(); B->getDecisionStackAsString(); B->noMoreFlaws(); ctx->fault("observed-between-steps"); } }
      tx << " at " << B->getStepCount(); ctx->ev(tx.str()); 
    }
    where = "resume"; if (!B->isExhausted() && B->getStepCount() < LIM) B->solve(LIM - B->getStepCount()); total = B->getStepCount(); (void)total;
    Out o = outcome(b, B); ctx->ev("B " + o.res);  ctx->count("interrupted_runs");
    if (solved || A->isExhausted()) {
      if (o.solved != a.solved || o.exhausted != a.exhausted) VFAIL("answer-differs", "uninterrupted: " << a.res << "; interrupted: " << o.res);
      if (o.res != a.res) VFAIL("answer-differs", "uninterrupted: " << a.res << "; interrupted: " << o.res);
      if (o.dump != a.dump) VFAIL("plan-differs", "the interrupted run ends in a different plan:\n" << diff(a.dump, o.dump));
    }
    if (A->isExhausted()) noSolution(c);
  }
  static uint64_t cfseed(const Case& c) { return (uint64_t)cf(c, 11) + 5; }
  bool setupQuiet(Sess& x, const Case& c) { size_t n = 0; for (auto& op : c.ops) { if (op.k == S_ATTACH) break; if (op.k >= 100) continue; if (x.apply(op) != applied[n++]) { sameSetup = false; ctx->probe("setup:schedule-dependent"); return false; } } x.propagate(); return x.p.cons(); }
  // the plan is a solution
  void solution(SOLVERS::Solver* A) {
    s.propagate(); if (!s.p.cons()) VFAIL("solution-inconsistent", "the plan returned as a solution is inconsistent"); std::vector<SFlaw> fl = g.flaws(s.p); if (!fl.empty()) VFAIL("solution-flawed", "solved, but " << fl[0].name << " is still open"); (void)A;
    checkPlan(s, "the solution"); ctx->count("solutions_checked"); states(); merged(); rules(); sequences();
  }
  // every constraint holds on the values; times by shortest paths
  std::string violated(Sess& x) {
    TOracle o; o.build(x.p); if (!o.sat) return "the times of the plan are contradictory";
    for (auto& c : x.p.ce->getConstraints()) {
      if (!c->isActive()) continue; std::string n = c->getName(); const std::vector<ConstrainedVariableId>& sc = c->getScope(); bool single = true; for (auto& v : sc) if (!v->isActive() || !v->lastDomain().isSingleton()) single = false; if (!single || sc.size() < 2) continue;
      double a = cast_double(sc[0]->lastDomain().getSingletonValue()), b = cast_double(sc[1]->lastDomain().getSingletonValue()); bool bad = false;
      if (n == "eq" || n == "concurrent") bad = a != b; else if (n == "neq") bad = a == b; else if (n == "leq" || n == "precedes") bad = a > b; else if (n == "strictlyPrecedes") bad = a >= b; else if (n == "temporalDistance" && sc.size() == 3) { if (sc[2]->lastDomain().isSingleton()) bad = a + b != cast_double(sc[2]->lastDomain().getSingletonValue()); } else continue;
      ctx->count("constraints_evaluated"); if (bad) return x.p.constraintText(c) + " is violated";
    }
    for (auto& v : x.p.ce->getVariables()) if (v->isActive() && v->lastDomain().isEmpty()) return x.p.nameOf(v) + " has no value";
    return "";
  }
  void checkPlan(Sess& x, const std::string& what) { std::string v = violated(x); if (!v.empty()) VFAIL("solution-violates", what << ": " << v); }

  // ---- independent search -----------------------------------------------------
  int nodes = 0;
  static TokenId byName(Sess& x, const std::string& n) { for (auto& t : x.p.tokens()) if (x.p.nameOf(t) == n) return t; return TokenId::noId(); }
  static ConstrainedVariableId varByName(Sess& x, const std::string& n) { for (auto& v : x.p.ce->getVariables()) if (x.p.nameOf(v) == n) return v; return ConstrainedVariableId::noId(); }
  static ObjectId objByName(Sess& x, const std::string& n) { for (auto& o : x.p.objects()) if (o->getName() == n) return o; return ObjectId::noId(); }
  std::vector<Choice> choices(Sess& x, const SFlaw& f) {
    std::vector<Choice> r; 
    if (f.mgr == G_OCM) { TokenId t = f.e; const Domain& st = t->getState()->lastDomain();
      for (auto& a : x.p.tokens()) if (a->isActive() && a->getPredicateName() == t->getPredicateName() && st.isMember(Token::MERGED) && x.canMerge(t, a)) { Choice c; c.kind = 1; c.a = f.name; c.b = x.p.nameOf(a); c.key = "merge " + c.b; r.push_back(c); }
      if (st.isMember(Token::ACTIVE)) { Choice c; c.kind = 0; c.a = f.name; c.key = "activate"; r.push_back(c); }
      if (st.isMember(Token::REJECTED)) { Choice c; c.kind = 2; c.a = f.name; c.key = "reject"; r.push_back(c); }
    } else if (f.mgr == G_TM) { TokenId t = f.e; auto m = x.p.db->getTokensToOrder();
      for (auto& e : m) if (e.second.first == t) for (auto& ob : e.second.second) { TimelineId tl = ob; std::vector<TokenId> v(tl->getTokenSequence().begin(), tl->getTokenSequence().end()); for (size_t i = 0; i <= v.size(); i++) { Choice c; c.kind = 3; c.o = ob->getName(); if (v.empty()) c.a = c.b = f.name; else if (i < v.size()) { c.a = f.name; c.b = x.p.nameOf(v[i]); } else { c.a = x.p.nameOf(v.back()); c.b = f.name; } c.key = "order " + c.o + " " + (i < v.size() ? x.p.nameOf(v[i]) : std::string("last")); r.push_back(c); } }
    } else { ConstrainedVariableId v = f.e; const Domain& d = v->lastDomain(); std::list<edouble> vs; if (d.isEnumerated()) d.getValues(vs); else for (long q = tnum(d.getLowerBound()); q <= tnum(d.getUpperBound()); q++) vs.push_back(edouble((double)q)); for (auto& q : vs) { Choice c; c.kind = 4; c.a = f.name; c.v = cast_double(q); c.key = "value " + std::to_string(c.v); if (x.p.db->getSchema()->isObjectType(d.getTypeName())) c.o = Entity::getTypedEntity<Object>(q)->getName(); r.push_back(c); } }
    return r;
  }
  static std::string text(Sess& x, const Choice& c) { std::ostringstream o; static const char* k[] = {"activate ", "merge ", "reject ", "order ", "set "}; o << k[c.kind] << c.a; if (c.kind == 1) o << " with " << c.b; if (c.kind == 3) o << " before " << c.b << " on " << c.o; if (c.kind == 4) { if (c.o.empty()) o << " = " << c.v; else o << " = " << c.o; } return o.str(); }
  static void take(Sess& x, const Choice& c) {
    switch (c.kind) { case 0: x.p.cl->activate(byName(x, c.a)); break; case 1: x.p.cl->merge(byName(x, c.a), byName(x, c.b)); break; case 2: x.p.cl->reject(byName(x, c.a)); break;
      case 3: x.p.cl->constrain(objByName(x, c.o), byName(x, c.a), byName(x, c.b)); break; default: x.p.cl->specify(varByName(x, c.a), c.o.empty() ? edouble(c.v) : edouble(objByName(x, c.o)->getKey())); } x.propagate(); x.p.refresh(); }
  static void back(Sess& x, const Choice& c) { switch (c.kind) { case 0: case 1: case 2: x.p.cl->cancel(byName(x, c.a)); break; case 3: x.p.cl->free(objByName(x, c.o), byName(x, c.a), byName(x, c.b)); break; default: x.p.cl->reset(varByName(x, c.a)); } x.propagate(); x.p.refresh(); }
  // ---- a decision is given up only when every choice it had has been tried ----
  struct Dec { SFlaw f; std::vector<Choice> all; std::set<std::string> tried; bool partial = false, hsts = false; };
  struct Missed { std::vector<Choice> path; Choice c; };
  std::map<eint, Dec> decs; std::vector<std::pair<eint, Choice>> taken; std::vector<Missed> missed; bool watchBroken = false;
  void made(SOLVERS::DecisionPointId dp) override {
    if (watchBroken) return; EntityId e = Entity::getEntity(dp->getFlawedEntityKey()); if (e.isNoId()) return; Dec d; s.p.refresh();
    int mgr = ConstrainedVariableId::convertable(e) ? G_UVM : TokenId(e)->isInactive() ? G_OCM : G_TM; d.f = SFlaw{e, mgr, g.handlers(s.p, mgr, e), nameOf(s.p, e)};
    d.hsts = mgr == G_OCM; d.partial = d.f.prios.empty();
    for (auto& r : g.rules) if (!r.filter && r.mgr == mgr && d.f.prios.count(r.prio)) { if (r.choice == "mergeOnly" || r.choice == "activateOnly") d.partial = true; }
    if (mgr == G_OCM) { d.hsts = false; for (auto& r : g.rules) if (!r.filter && r.mgr == mgr && d.f.prios.count(r.prio) && r.comp == "HSTSOpenConditionDecisionPoint") d.hsts = true; } else d.hsts = false;
    d.all = choices(s, d.f); decs[dp->getKey()] = d; ctx->count("decisions_watched");
  }
  std::string key(const Dec& d) {
    if (d.f.mgr == G_UVM) { ConstrainedVariableId v = d.f.e; return v->isSpecified() ? "value " + std::to_string(cast_double(v->getSpecifiedValue())) : ""; } TokenId t = d.f.e;
    if (d.f.mgr == G_OCM) return t->isActive() ? "activate" : t->isMerged() ? "merge " + s.p.nameOf(t->getActiveToken()) : t->isRejected() ? "reject" : "";
    for (auto& ob : s.p.objects()) if (TimelineId::convertable(ob)) { TimelineId tl = ob; const std::list<TokenId>& q = tl->getTokenSequence(); for (auto i = q.begin(); i != q.end(); ++i) if (*i == t) { auto j = i; ++j; return "order " + ob->getName() + " " + (j == q.end() ? std::string("last") : s.p.nameOf(*j)); } } return "";
  }
  void took(SOLVERS::DecisionPointId dp, bool ok) override {
    auto it = decs.find(dp->getKey()); if (it == decs.end()) { watchBroken = true; return; } Dec& d = it->second; std::string k = key(d); d.tried.insert(k); if (!ok) return;
    for (auto& c : d.all) if (c.key == k) { taken.push_back(std::make_pair(dp->getKey(), c)); return; } if (k.compare(0, 6, "merge ") == 0) { Choice c; c.kind = 1; c.a = d.f.name; c.b = k.substr(6); c.key = k; taken.push_back(std::make_pair(dp->getKey(), c)); return; }
    ctx->count("choices_not_predicted"); watchBroken = true;
  }
  void undid(SOLVERS::DecisionPointId dp) override { if (!taken.empty() && taken.back().first == dp->getKey()) taken.pop_back(); }
  void gaveUp(SOLVERS::DecisionPointId dp) override {
    auto it = decs.find(dp->getKey()); if (it == decs.end() || watchBroken) return; Dec& d = it->second; if (d.partial) { decs.erase(it); return; } ctx->count("decisions_given_up");
    for (auto& c : d.all) if (!d.tried.count(c.key) && !(d.hsts && c.kind == 0)) { Missed m; for (auto& t : taken) m.path.push_back(t.second); m.c = c; size_t same = 0; for (auto& o : missed) if (o.c.kind == c.kind) same++; if (same < 2) missed.push_back(m); } else ctx->count("choices_tried");
    decs.erase(it);
  }
  void skipped(const Case& c) {
    for (auto& m : missed) {
      Sess x; x.ctx = nullptr; openPlan(x, c, (uint64_t)cf(c, 6) + ctx->sched + 2); if (!setupQuiet(x, c)) return; where = "replay of decisions"; bool ok = true; std::string how;
      for (auto& q : m.path) { if (!known(x, q)) { ok = false; break; } how += "  " + text(x, q) + "\n"; take(x, q); if (!x.p.cons()) { ok = false; break; } } if (!ok || !known(x, m.c)) { ctx->count("choices_not_replayed"); continue; }
      if (m.c.kind == 1 && !x.canMerge(byName(x, m.c.a), byName(x, m.c.b))) continue;
      take(x, m.c); ctx->count("untried_choices_checked"); if (x.p.cons()) VFAIL("choice-skipped", "after these decisions\n" << how << "the solver gave up " << m.c.a << " without trying '" << text(x, m.c) << "', which is consistent"); }
  }
  bool known(Sess& x, const Choice& c) { switch (c.kind) { case 0: case 2: return !byName(x, c.a).isNoId(); case 1: return !byName(x, c.a).isNoId() && !byName(x, c.b).isNoId(); case 3: return !byName(x, c.a).isNoId() && !byName(x, c.b).isNoId() && !objByName(x, c.o).isNoId(); default: return !varByName(x, c.a).isNoId(); } }
  bool search(Sess& x, std::vector<Choice>& path) {
    if (++nodes > 400) throw Stop{"budget"}; if (!x.p.cons()) return false; std::vector<SFlaw> fl = g.flaws(x.p); if (fl.empty()) return true;
    // most constrained first
    size_t best = 0; std::vector<Choice> bc; for (size_t i = 0; i < fl.size(); i++) { std::vector<Choice> q = choices(x, fl[i]); if (i == 0 || q.size() < bc.size()) { best = i; bc = q; } if (bc.size() <= 1) break; } (void)best;
    for (auto& q : bc) { take(x, q); path.push_back(q); if (x.p.cons() && search(x, path)) return true; path.pop_back(); back(x, q); if (!x.p.cons()) throw Stop{"not restored"}; }
    return false;
  }
  void noSolution(const Case& c) {
    if (g.dynamic || g.partial) return; // the HSTS open condition handler takes for granted that every token will also be ordered
    bool hsts = false, noOrder = !g.threats; for (auto& r : g.rules) if (r.filter && !(r.mrel + r.mcls + r.mpred).empty()) return;   // then it matters which of two tokens supports the other
    for (auto& r : g.rules) { if (r.comp == "HSTSOpenConditionDecisionPoint") hsts = true; if (r.filter && (r.mgr == G_TM || r.mgr == G_MASTER)) noOrder = true; } if (hsts && noOrder) return;
    Sess x; x.ctx = nullptr; openPlan(x, c, (uint64_t)cf(c, 6) + ctx->sched + 2); if (!setupQuiet(x, c)) return; std::vector<Choice> path; bool found = false; nodes = 0; where = "independent search";
    try { found = search(x, path); } catch (Stop& st) { ctx->count("exhaustion_unchecked_" + st.why); return; }
    ctx->count("exhaustion_checked"); ctx->count("independent_nodes", nodes); if (!found) { ctx->probe("exhaustion:confirmed"); return; }
    Sess y; y.ctx = nullptr; openPlan(y, c, (uint64_t)cf(c, 6) + ctx->sched + 3); if (!setupQuiet(y, c)) return; std::string how; for (auto& q : path) { how += "  " + text(y, q) + "\n"; take(y, q); if (!y.p.cons()) return; } if (!g.flaws(y.p).empty() || !violated(y).empty()) { ctx->count("independent_unconfirmed"); return; }
    VFAIL("solution-missed", "the solver reports exhaustion but these decisions give a consistent plan without flaws:\n" << how);
  }
};
struct Reg { Reg() { registerWorld("solver", new SolverWorld); } } reg;
}
