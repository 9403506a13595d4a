// Solver configurations as data, the XML EUROPA reads, and an independent
// computation of the flaws such a configuration leaves in a plan.
#pragma once
#include "checks.h"
#include "Solver.hh"
#include "SolverDecisionPoint.hh"
#include "SearchListener.hh"
#include "FlawHandler.hh"
#include "Context.hh"
#include "tinyxml.h"

namespace sim {
using EUROPA::SOLVERS::SolverId;
enum SvOp { G_FILTER = 200, G_HANDLER, G_END, S_ATTACH = 300, S_STEP, S_SOLVE, S_RESET, S_RESETN, S_BACKJUMP, S_TWICE, S_OBS, S_SVEND };
extern const char* const g_svops[];
enum Mgr { G_MASTER, G_TM, G_OCM, G_UVM };

struct SRule {
  int mgr = 0; bool filter = false; std::string comp, cls, pred, var, mrel, mcls, mpred, policy, order, choice; double prio = 0;
  std::vector<std::pair<std::string, std::string>> guards, mguards;
  int statics() const { int n = 0; for (auto* s : {&cls, &pred, &var, &mrel, &mcls, &mpred}) if (!s->empty()) n++; return n; }
  std::string xml() const;
};
struct SFlaw { EUROPA::EntityId e; int mgr; std::set<double> prios; std::string name; };
struct SConfig {
  const Model* m = nullptr; std::vector<SRule> rules; int order = 0; long h0 = 0, h1 = 100; bool times = false, threats = true;
  bool dynamic = false, partial = false, random = false, hsts = false;   // dynamic filters, handlers which do not offer every choice
  void build(const Case& c, const Model& m, const std::string& prop);
  std::string xml(const std::string& name) const;
  bool excluded(Plan& p, int mgr, const EUROPA::EntityId e) const;
  std::set<double> handlers(Plan& p, int mgr, const EUROPA::EntityId e) const;
  std::vector<SFlaw> flaws(Plan& p) const;
private:
  bool stat(const SRule& r, const EUROPA::EntityId e) const; bool dyn(Plan& p, const SRule& r, const EUROPA::EntityId e) const;
  EUROPA::TokenId token(const EUROPA::EntityId e) const; std::vector<std::string> classes(const std::string& c) const; bool guard(Plan& p, const EUROPA::TokenId t, const std::pair<std::string, std::string>& g) const;
};
void genConfigOps(Rng& r, Case& c, const std::string& prop);
EUROPA::SOLVERS::Solver* makeSolver(Plan& p, const SConfig& g, const std::string& name);
std::string nameOf(Plan& p, const EUROPA::EntityId e);
// what the solver reports, as text: name and priority of the handler for each open decision
std::string reported(Plan& p, EUROPA::SOLVERS::Solver* s, bool prio = true);
std::string stackText(EUROPA::SOLVERS::Solver* s);
} // namespace sim
