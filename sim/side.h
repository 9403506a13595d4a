// A program under the simulator: model, engine, client session and solver,
// driven one operation at a time, with everything that can be seen as text.
// Configuration as in world "twin".
#pragma once
#include "solv.h"
namespace sim {
using namespace EUROPA;
inline int sideCfg(const Case& c, size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; }
struct TwinListener : SOLVERS::SearchListener {
  Sess* s = nullptr; Ctx* ctx = nullptr;
  std::string what(SOLVERS::DecisionPointId d) { EntityId e = Entity::getEntity(d->getFlawedEntityKey()); if (e.isNoId()) return "?"; s->p.refresh(); return nameOf(s->p, e); }
  std::string value(SOLVERS::DecisionPointId d) {
    EntityId e = Entity::getEntity(d->getFlawedEntityKey()); if (e.isNoId()) return "";
    if (TokenId::convertable(e)) { TokenId t = e; return t->isActive() ? " active" : t->isMerged() ? " merged " + s->p.nameOf(t->getActiveToken()) : t->isRejected() ? " rejected" : " inactive"; }
    ConstrainedVariableId v = e; if (!v->isSpecified()) return ""; Domain* x = v->baseDomain().copy(); if (x->isOpen()) x->close(); x->set(v->getSpecifiedValue()); std::string r = " = " + s->p.dom(*x); delete x; return r;
  }
  void notifyCreated(SOLVERS::DecisionPointId d) override { ctx->ev("decision about " + what(d)); }
  void notifyStepSucceeded(SOLVERS::DecisionPointId d) override { ctx->ev("step " + what(d) + value(d)); }
  void notifyStepFailed(SOLVERS::DecisionPointId d) override { ctx->ev("failed " + what(d) + value(d)); }
  void notifyRetractSucceeded(SOLVERS::DecisionPointId d) override { ctx->ev("retry " + what(d)); }
  void notifyRetractNotDone(SOLVERS::DecisionPointId d) override { ctx->ev("given up " + what(d)); }
};

struct Side { Sess s; SConfig g; SOLVERS::Solver* S = nullptr; TwinListener* l = nullptr; };
inline void sideShow(Side& x, Ctx& k);
inline void sideOpen(Side& x, const Case& c) { x.s.m.durations = sideCfg(c, 7) != 0; x.s.m.build(c); x.s.p.realAgenda = sideCfg(c, 13) != 0; x.s.p.open((uint64_t)sideCfg(c, 6) + c.sched, sideCfg(c, 5) != 0); x.s.p.load(x.s.m); x.s.p.closeAll(); x.g.build(c, x.s.m, c.prop); }
// one operation; the text of everything that can be seen afterwards
inline void sideStep(Side& x, const Case& c, const Op& op, Ctx& k) {
  if (op.k < S_ATTACH) { if (x.S && x.S->getDepth() > 0) return; if (!x.s.apply(op)) { k.ev("skipped"); return; } k.ev(x.s.last); sideShow(x, k); return; }
  if (op.k == S_ATTACH) { if (x.S) return; x.s.propagate(); randSeed((uint64_t)sideCfg(c, 11)); x.S = makeSolver(x.s.p, x.g, "S"); x.l = new TwinListener; x.l->s = &x.s; x.l->ctx = &k; x.S->addListener(x.l->getId()); return; }
  if (!x.S) return; x.s.propagate(); std::ostringstream t;
  if (!x.s.p.cons() || x.S->isExhausted()) { x.S->reset(); k.ev("reset"); x.s.propagate(); sideShow(x, k); return; }
  switch (op.k) {
    case S_SOLVE: { bool r = x.S->solve(1 + (unsigned)op.a[0] % 60, op.a[1] % 3 ? 100000u : (unsigned)op.a[2] % 12); t << (r ? "solved" : x.S->isExhausted() ? "exhausted" : "timed out"); k.probe(t.str()); break; }
    case S_STEP: x.S->setMaxSteps(100000); x.S->setMaxDepth(100000); x.S->step(); t << "step"; break;
    case S_RESET: x.S->reset(); t << "reset"; break;
    case S_BACKJUMP: { unsigned long m = x.S->getDepth(); if (!m) return; bool e = x.S->backjump(1 + (unsigned long)op.a[0] % m); t << "backjump " << e; break; }
    default: return; }
  t << " steps " << x.S->getStepCount() << " depth " << x.S->getDepth(); k.ev(t.str()); x.s.propagate(); sideShow(x, k); if (x.s.p.cons()) { k.ev(reported(x.s.p, x.S)); }
}
inline void sideShow(Side& x, Ctx& k) {
  std::string d = x.s.p.dump(); if (!x.s.p.cons()) { std::multiset<std::string> e; for (auto& v : x.s.p.ce->getVariables()) if (v->isActive() && v->lastDomain().isEmpty()) e.insert(x.s.p.nameOf(v)); for (auto& n : e) d += "emptied " + n + "\n"; } k.ev(d);
  std::ostringstream o; for (auto& t : x.s.p.tokens()) if (t->isInactive() && x.s.p.cons() && !x.s.dirty) { std::vector<TokenId> v; x.s.p.db->getCompatibleTokens(t, v, 1000, true); if (!v.empty()) { o << "compatible with " << x.s.p.nameOf(t); for (auto& a : v) o << " " << x.s.p.nameOf(a); o << "\n"; } }
  if (x.s.p.cons() && !x.s.dirty) for (auto& e : x.s.p.db->getTokensToOrder()) { std::vector<std::pair<ObjectId, std::pair<TokenId, TokenId>>> ch; x.s.p.db->getOrderingChoices(e.second.first, ch); o << "orderings of " << x.s.p.nameOf(e.second.first); for (auto& q : ch) o << " " << q.first->getName() << ":" << x.s.p.nameOf(q.second.first) << "<" << x.s.p.nameOf(q.second.second); o << "\n"; }
  k.ev(o.str());
}

}
