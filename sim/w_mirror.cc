// World "mirror" (C15): listeners on every part of a live engine rebuild its
// state from the notifications alone; the rebuilt state must be the real one
// after every operation, and a second engine which runs the same operations
// without listeners must show the same.
#include "side.h"
#include "ConstraintEngineListener.hh"
#include "PlanDatabaseListener.hh"
#include "DbClientListener.hh"
#include "RulesEngineListener.hh"
#include "RulesEngine.hh"
#include "Constraint.hh"
using namespace sim;
using namespace EUROPA;

namespace {
enum { L_ON = 400, L_OFF, L_ONSV };
std::string ks(eint k) { return std::to_string((long)cast_long(k)); }
#define MF(cls, expr) do { std::ostringstream _o; _o << expr; bad(cls, _o.str()); } while (0)
// Violations noticed inside a callback are kept until the operation is over.
struct Notes { std::string cls, msg; void bad(const char* c, const std::string& m) { if (cls.empty()) { cls = c; msg = m; } } };

struct CEMirror : ConstraintEngineListener {
  Notes* n; ConstraintEngineId ce;
  struct V { bool active = true; Domain* d = nullptr; }; struct C { bool active = true; };
  std::map<eint, V> vars; std::map<eint, C> cons; bool propagating = false; long commenced = 0, ended = 0; bool lastOk = true; std::map<std::string, long> seen;
  void bad(const char* c, const std::string& m) { n->bad(c, m); }
  CEMirror(const ConstraintEngineId e, Notes* nn) : ConstraintEngineListener(e), n(nn), ce(e) {
    for (auto& v : e->getVariables()) { V x; x.active = v->isActive(); x.d = v->lastDomain().copy(); vars[v->getKey()] = x; }
    for (auto& c : e->getConstraints()) { C x; x.active = c->isActive(); cons[c->getKey()] = x; }
  }
  void notifyPropagationCommenced() override { if (propagating) MF("nested-propagation", "propagation commences twice without an end"); propagating = true; commenced++; seen["commenced"]++; }
  void notifyPropagationCompleted() override { if (!propagating) MF("unannounced-end", "propagation completed without having commenced"); propagating = false; ended++; lastOk = true; if (!ce->constraintConsistent()) MF("completed-inconsistent", "propagation is reported completed but the engine is not consistent"); seen["completed"]++; }
  void notifyPropagationPreempted() override { if (!propagating) MF("unannounced-end", "propagation preempted without having commenced"); propagating = false; ended++; lastOk = false; if (!ce->provenInconsistent()) MF("preempted-consistent", "propagation is reported preempted but the engine is not inconsistent"); seen["preempted"]++; }
  void notifyAdded(const ConstraintId c) override { if (!cons.insert(std::make_pair(c->getKey(), C())).second) MF("constraint-added-twice", c->getName()); seen["constraint added"]++; }
  void notifyRemoved(const ConstraintId c) override { if (!cons.erase(c->getKey())) MF("unknown-constraint-removed", c->getName()); seen["constraint removed"]++; }
  void notifyActivated(const ConstraintId c) override { auto it = cons.find(c->getKey()); if (it == cons.end()) { MF("unknown-constraint-activated", c->getName()); return; } if (it->second.active && !c->isRedundant()) MF("constraint-activated-twice", c->getName()); it->second.active = true; seen["constraint activated"]++; }
  void notifyDeactivated(const ConstraintId c) override { auto it = cons.find(c->getKey()); if (it == cons.end()) { MF("unknown-constraint-deactivated", c->getName()); return; } if (!it->second.active) MF("constraint-deactivated-twice", c->getName()); it->second.active = false; seen["constraint deactivated"]++; }
  void notifyExecuted(const ConstraintId c) override { auto it = cons.find(c->getKey()); if (it == cons.end()) { MF("unknown-constraint-executed", c->getName()); return; } if (!it->second.active) MF("inactive-constraint-executed", c->getName()); if (!propagating) MF("executed-outside-propagation", c->getName()); seen["executed"]++; }
  void notifyAdded(const ConstrainedVariableId v) override { if (!vars.insert(std::make_pair(v->getKey(), V())).second) MF("variable-added-twice", ks(v->getKey())); seen["variable added"]++; }
  void notifyRemoved(const ConstrainedVariableId v) override { auto it = vars.find(v->getKey()); if (it == vars.end()) { MF("unknown-variable-removed", ks(v->getKey())); return; } vars.erase(it); seen["variable removed"]++; }
  void notifyActivated(const ConstrainedVariableId v) override { auto it = vars.find(v->getKey()); if (it == vars.end()) { MF("unknown-variable-activated", v->getName()); return; } if (it->second.active) MF("variable-activated-twice", v->getName()); it->second.active = true; it->second.d = nullptr; seen["variable activated"]++; }
  void notifyDeactivated(const ConstrainedVariableId v) override { auto it = vars.find(v->getKey()); if (it == vars.end()) { MF("unknown-variable-deactivated", v->getName()); return; } if (!it->second.active) MF("variable-deactivated-twice", v->getName()); it->second.active = false; seen["variable deactivated"]++; }
  void notifyChanged(const ConstrainedVariableId v, const DomainListener::ChangeType& t) override {
    auto it = vars.find(v->getKey()); if (it == vars.end()) { MF("unknown-variable-changed", v->getName()); return; } if (!it->second.active) MF("inactive-variable-changed", v->getName() << " " << DomainListener::toString(t));
    const Domain& now = v->lastDomain(); Domain* was = it->second.d; std::string tx = v->getName() + " " + DomainListener::toString(t) + " to " + now.toString() + (was ? " from " + was->toString() : ""); seen[DomainListener::toString(t)]++;
    if ((t == DomainListener::EMPTIED) != now.isEmpty()) MF("emptied", tx);
    if ((t == DomainListener::RESTRICT_TO_SINGLETON || t == DomainListener::SET_TO_SINGLETON) && !now.isSingleton()) MF("not-singleton", tx);
    if (was && !now.isEmpty() && !was->isEmpty()) {
      if (DomainListener::isRestriction(t) && t != DomainListener::REFTIME_CHANGED && !now.isSubsetOf(*was)) MF("not-a-restriction", tx);
      if (t == DomainListener::RELAXED && !was->isSubsetOf(now)) MF("not-a-relaxation", tx);
      if (t == DomainListener::UPPER_BOUND_DECREASED && now.getLowerBound() != was->getLowerBound()) MF("wrong-bound", tx);
      if (t == DomainListener::LOWER_BOUND_INCREASED && now.getUpperBound() != was->getUpperBound()) MF("wrong-bound", tx);
    }
    it->second.d = now.copy();
  }
  void compare(Plan& p) {
    std::set<eint> have; if (propagating) MF("propagation-left-open", "propagation commenced but its end was not reported");
    for (auto& v : ce->getVariables()) { eint k = v->getKey(); have.insert(k); auto it = vars.find(k); if (it == vars.end()) { MF("variable-not-announced", p.nameOf(v)); continue; }
      if (it->second.active != v->isActive()) MF("variable-activity", p.nameOf(v) << " is " << (v->isActive() ? "active" : "inactive") << ", reported otherwise");
      if (v->isActive() && it->second.d && it->second.d->toString() != v->lastDomain().toString()) MF("silent-change", p.nameOf(v) << " is " << v->lastDomain().toString() << ", last reported " << it->second.d->toString());
      if (!it->second.d) it->second.d = v->lastDomain().copy(); }
    for (auto& v : vars) if (!have.count(v.first)) MF("variable-removal-not-reported", "variable " << ks(v.first)); have.clear();
    for (auto& c : ce->getConstraints()) { eint k = c->getKey(); have.insert(k); auto it = cons.find(k); if (it == cons.end()) { MF("constraint-not-announced", p.constraintText(c)); continue; } if (it->second.active != c->isActive()) MF("constraint-activity", p.constraintText(c) << " is " << (c->isActive() ? "active" : "inactive") << ", reported otherwise"); }
    for (auto& c : cons) if (!have.count(c.first)) MF("constraint-removal-not-reported", "constraint " << ks(c.first));
  }
};

struct PDBMirror : PlanDatabaseListener {
  enum St { IN, AC, ME, RE }; Notes* n; PlanDatabaseId db; void bad(const char* c, const std::string& m) { n->bad(c, m); }
  std::map<eint, St> toks; std::set<eint> objs; std::set<std::pair<eint, eint>> on; std::set<std::pair<eint, std::pair<eint, eint>>> ord; std::map<std::string, long> seen;
  static St real(const TokenId t) { return t->isActive() ? AC : t->isMerged() ? ME : t->isRejected() ? RE : IN; }
  std::set<std::pair<eint, std::pair<eint, eint>>> realOrd() { std::set<std::pair<eint, std::pair<eint, eint>>> r; for (auto& o : db->getObjects()) for (auto& a : db->getTokens()) for (auto& b : db->getTokens()) if (a != b && a->isActive() && b->isActive() && !o->getPrecedenceConstraint(a, b).isNoId()) r.insert(std::make_pair(o->getKey(), std::make_pair(a->getKey(), b->getKey()))); return r; }
  PDBMirror(const PlanDatabaseId d, Notes* nn) : PlanDatabaseListener(d), n(nn), db(d) {
    for (auto& o : d->getObjects()) { objs.insert(o->getKey()); for (auto& t : o->tokens()) on.insert(std::make_pair(o->getKey(), t->getKey())); } for (auto& t : d->getTokens()) toks[t->getKey()] = real(t); ord = realOrd();
  }
  void move(const TokenId t, St from, St to, const char* what) { seen[what]++; auto it = toks.find(t->getKey()); if (it == toks.end()) { MF("unknown-token", what << " reported for a token never announced or already removed"); return; } if (it->second != from) MF("token-transition", what << " reported for a token in state " << it->second); it->second = to; if (real(t) != to) MF("token-state-at-report", what << " reported while the token is in state " << real(t)); }
  void notifyAdded(const ObjectId o) override { seen["object added"]++; if (!objs.insert(o->getKey()).second) MF("object-added-twice", o->getName()); }
  void notifyRemoved(const ObjectId o) override { seen["object removed"]++; if (!objs.erase(o->getKey())) MF("unknown-object-removed", ks(o->getKey())); }
  void notifyAdded(const TokenId t) override { seen["token added"]++; if (!toks.insert(std::make_pair(t->getKey(), IN)).second) MF("token-added-twice", ks(t->getKey())); }
  void notifyRemoved(const TokenId t) override {
    seen["token removed"]++; if (!toks.erase(t->getKey())) MF("unknown-token-removed", ks(t->getKey())); }
  void notifyActivated(const TokenId t) override { move(t, IN, AC, "activation"); }
  void notifyDeactivated(const TokenId t) override { move(t, AC, IN, "deactivation"); }
  void notifyMerged(const TokenId t) override { move(t, IN, ME, "merge"); }
  void notifySplit(const TokenId t) override { move(t, ME, IN, "split"); }
  void notifyRejected(const TokenId t) override { move(t, IN, RE, "rejection"); }
  void notifyReinstated(const TokenId t) override { move(t, RE, IN, "reinstatement"); }
  void notifyConstrained(const ObjectId o, const TokenId a, const TokenId b) override { seen["constrained"]++; if (!toks.count(a->getKey()) || !toks.count(b->getKey()) || !objs.count(o->getKey())) MF("ordering-of-unknown", "an ordering is reported for something not announced"); if (a != b && !ord.insert(std::make_pair(o->getKey(), std::make_pair(a->getKey(), b->getKey()))).second) MF("ordered-twice", o->getName()); }
  void notifyFreed(const ObjectId o, const TokenId a, const TokenId b) override { seen["freed"]++; if (a != b && !ord.erase(std::make_pair(o->getKey(), std::make_pair(a->getKey(), b->getKey())))) MF("freed-unordered", o->getName()); }
  void notifyAdded(const ObjectId o, const TokenId t) override { seen["token on object"]++; if (!objs.count(o->getKey()) || !toks.count(t->getKey())) MF("unknown-on-object", o->getName()); if (!on.insert(std::make_pair(o->getKey(), t->getKey())).second) MF("on-object-twice", o->getName()); }
  void notifyRemoved(const ObjectId o, const TokenId t) override { seen["token off object"]++; if (!on.erase(std::make_pair(o->getKey(), t->getKey()))) MF("off-object-unknown", o->getName()); }
  void compare(Plan& p) {
    std::set<eint> have; for (auto& t : db->getTokens()) { have.insert(t->getKey()); auto it = toks.find(t->getKey()); if (it == toks.end()) { MF("token-not-announced", p.nameOf(t)); continue; } if (it->second != real(t)) MF("token-state", p.nameOf(t) << " is in state " << real(t) << ", reported " << it->second); }
    for (auto& t : toks) if (!have.count(t.first)) MF("token-removal-not-reported", "token " << ks(t.first)); have.clear();
    std::set<std::pair<eint, eint>> ron; for (auto& o : db->getObjects()) { have.insert(o->getKey()); for (auto& t : o->tokens()) ron.insert(std::make_pair(o->getKey(), t->getKey())); } if (have != objs) MF("objects", "the objects are not those reported");
    if (ron != on) { std::ostringstream o; for (auto& x : ron) if (!on.count(x)) o << " " << p.nameOf(TokenId(Entity::getEntity(x.second))) << " not reported on " << ObjectId(Entity::getEntity(x.first))->getName(); for (auto& x : on) if (!ron.count(x)) { EntityId t = Entity::getEntity(x.second); o << " " << (t.isNoId() ? ks(x.second) : p.nameOf(TokenId(t))) << " still reported on " << ks(x.first); } MF("object-tokens", "tokens of objects:" << o.str()); }
    auto r = realOrd(); if (r != ord) { std::ostringstream o; auto nm = [&](eint k) { EntityId t = Entity::getEntity(k); return t.isNoId() ? "(gone)" : p.nameOf(TokenId(t)); }; for (auto& x : r) if (!ord.count(x)) o << " " << nm(x.second.first) << "<" << nm(x.second.second) << " not reported"; for (auto& x : ord) if (!r.count(x)) o << " " << nm(x.second.first) << "<" << nm(x.second.second) << " still reported"; MF("orderings", "orderings:" << o.str()); }
  }
};

struct ClMirror : DbClientListener {
  std::vector<std::string> got; ClMirror(const DbClientId c) : DbClientListener(c) {} void a(const std::string& s) { got.push_back(s); }
  void notifyTokenCreated(const TokenId) override { a("token"); } void notifyTokenDeleted(const TokenId, const std::string&) override { a("delete-token"); }
  void notifyConstrained(const ObjectId, const TokenId, const TokenId) override { a("order"); } void notifyFreed(const ObjectId, const TokenId, const TokenId) override { a("unorder"); }
  void notifyActivated(const TokenId) override { a("activate"); } void notifyMerged(const TokenId, const TokenId) override { a("merge"); } void notifyMerged(const TokenId) override { a("merge?"); } void notifyRejected(const TokenId) override { a("reject"); } void notifyCancelled(const TokenId) override { a("cancel"); }
  void notifyConstraintCreated(const ConstraintId) override { a("constraint"); } void notifyConstraintDeleted(const ConstraintId) override { a("delete-constraint"); } void notifyVariableCreated(const ConstrainedVariableId) override { a("variable"); } void notifyVariableDeleted(const ConstrainedVariableId) override { a("delete-variable"); }
  void notifyVariableSpecified(const ConstrainedVariableId) override { a("specify"); } void notifyVariableRestricted(const ConstrainedVariableId) override { a("restrict"); } void notifyVariableReset(const ConstrainedVariableId) override { a("reset"); }
};

struct REMirror : RulesEngineListener {
  Notes* n; RulesEngineId re; std::set<eint> done; std::map<std::string, long> seen; void bad(const char* c, const std::string& m) { n->bad(c, m); }
  static void collect(const RuleInstanceId r, std::set<eint>& s) { if (r->isExecuted()) s.insert(r->getKey()); for (auto& c : r->getChildRules()) collect(c, s); }
  static std::set<eint> real(const RulesEngineId re) { std::set<eint> s; for (auto& r : re->getRuleInstances()) collect(r, s); return s; }
  REMirror(const RulesEngineId r, Notes* nn) : RulesEngineListener(r), n(nn), re(r) { done = real(r); }
  void notifyExecuted(const RuleInstanceId& r) override { seen["rule executed"]++; if (!done.insert(r->getKey()).second) MF("rule-executed-twice", ks(r->getKey())); }
  void notifyUndone(const RuleInstanceId& r) override { seen["rule undone"]++; if (!done.erase(r->getKey())) MF("unexecuted-rule-undone", ks(r->getKey())); }
  void compare() { std::set<eint> r = real(re); for (auto& k : r) if (!done.count(k)) MF("rule-not-reported", ks(k)); for (auto& k : done) if (!r.count(k)) MF("rule-undoing-not-reported", ks(k)); }
};

struct SVMirror : SOLVERS::SearchListener {
  Notes* n; SOLVERS::Solver* S; std::set<eint> live, force; std::map<std::string, long> seen; void bad(const char* c, const std::string& m) { n->bad(c, m); } long ended = 0;
  SVMirror(SOLVERS::Solver* s, Notes* nn) : n(nn), S(s) {}
  void need(SOLVERS::DecisionPointId d, const char* w) { seen[w]++; if (!live.count(d->getKey())) MF("unknown-decision", w << " reported for a decision never announced or already deleted"); }
  void notifyCreated(SOLVERS::DecisionPointId d) override { seen["decision created"]++; if (!live.insert(d->getKey()).second) MF("decision-created-twice", d->getKey()); }
  void notifyDeleted(SOLVERS::DecisionPointId d) override { need(d, "decision deleted"); live.erase(d->getKey()); if (force.count(d->getKey())) MF("deleted-in-force", "a decision is deleted whose undoing was not reported"); }
  void notifyUndone(SOLVERS::DecisionPointId d) override { need(d, "decision undone"); force.erase(d->getKey()); }
  void notifyStepSucceeded(SOLVERS::DecisionPointId d) override { need(d, "step succeeded"); if (!force.insert(d->getKey()).second) MF("step-twice", "a decision already in force is reported as made"); }
  void notifyStepFailed(SOLVERS::DecisionPointId d) override { need(d, "step failed"); if (force.count(d->getKey())) MF("failed-in-force", "a decision in force is reported as failed"); }
  void notifyRetractSucceeded(SOLVERS::DecisionPointId d) override { need(d, "retract succeeded"); if (force.count(d->getKey())) MF("retracted-in-force", "a decision is reported as retracted without being undone"); }
  void notifyRetractNotDone(SOLVERS::DecisionPointId d) override { need(d, "given up"); }
  void notifyCompleted() override { seen["completed"]++; ended |= 1; } void notifyExhausted() override { seen["exhausted"]++; ended |= 2; } void notifyTimedOut() override { seen["timed out"]++; ended |= 4; }
  void compare() {
    if (force.size() != S->getDepth()) MF("decisions-in-force", "the solver holds " << S->getDepth() << " decisions, reported " << force.size());
    for (auto& d : S->getDecisionStack()) if (!live.count(d->getKey())) MF("decision-not-announced", "a decision on the stack was not reported"); else if (!force.count(d->getKey())) MF("decision-not-reported", "a decision on the stack is not reported as made");
    if (live.size() > S->getDepth() + 1) MF("decision-deletion-not-reported", live.size() << " decisions are reported alive, the solver holds " << S->getDepth());
    if (S->isExhausted() && ended == 0) {} }
};

struct MirrorWorld : World {
  static int cf(const Case& c, size_t i) { return sideCfg(c, i); }
  void generate(Rng& r, const std::string&, Case& c) override {
    bool ord = r.chance(2, 3), times = r.chance(1, 6);   // 0..13 as in world twin; 14 twin engine, 15 rand
    c.cfg = {r.below(2), ord ? 1 + r.below(3) : 0, r.below(3), r.below(2), 0, r.below(3) == 0, r.below(1000), r.chance(1, 3), r.below(6), times, r.below(1000), r.below(1000), r.below(12), r.chance(1, 3), r.chance(1, 3), r.below(1000)};
    genModelOps(r, c, r.range(1, 4), r.chance(4, 5), r.chance(1, 2)); genConfigOps(r, c, r.chance(1, 3) ? "C11" : "C09");
    std::vector<int> w = g_baseWeights; w[O_CHECK] = w[O_SNAP] = w[O_UNDO] = 0; w[O_ORD] = 8; if (r.chance(1, 3)) { w[O_MERGE] = 12; w[O_CAN] = 9; }
    auto add = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
    if (r.chance(1, 2)) add(L_ON); int parts = r.range(1, 3); bool sv = r.chance(1, 3);
    for (int i = 0; i < parts; i++) { genSessOps(r, c, r.range(4, sv ? 10 : 20), w); add(r.chance(2, 3) ? L_ON : L_OFF); }
    if (sv) { w[O_DELT] = w[O_CAN] = w[O_RST] = w[O_DELC] = w[O_UNORD] = w[O_RESTR] = 0; add(S_ATTACH); if (r.chance(3, 4)) add(L_ONSV); for (int i = r.range(1, 6); i > 0; i--) { int x = r.below(9); add(x < 4 ? S_SOLVE : x < 6 ? S_STEP : x < 7 ? S_RESET : x < 8 ? S_BACKJUMP : r.chance(1, 2) ? L_ON : L_OFF); } if (r.chance(1, 2)) { add(S_RESET); genSessOps(r, c, r.range(3, 10), g_baseWeights); } }
    add(O_PROP);
  }
  std::string describe(const Case& c, const Op& op) override { if (op.k >= 400) return op.k == L_ON ? "attach listeners" : op.k == L_OFF ? "detach listeners" : "attach search listener"; static const char* mop[] = {"pred", "param", "pcon", "sub", "if", "local", "con"}; std::ostringstream o; o << (op.k >= S_ATTACH && op.k < S_SVEND ? std::string(g_svops[op.k - S_ATTACH]) : op.k >= 200 ? std::string(op.k == G_FILTER ? "config.filter" : "config.handler") : op.k >= 100 && op.k < M_END ? std::string("model.") + mop[op.k - 100] : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }
  void run(const Case& c, Ctx& cx) override {
    std::string where = "model", ta, tb; Side a, b; bool twin = cf(c, 14) != 0; Notes n; CEMirror* m1 = nullptr; PDBMirror* m2 = nullptr; ClMirror* m3 = nullptr; REMirror* m4 = nullptr; SVMirror* m5 = nullptr; std::map<std::string, long> seen; Ctx ka, kb; ka.sink = &ta; kb.sink = &tb;
    auto fold = [&](std::map<std::string, long>& s) { for (auto& x : s) seen[x.first] += x.second; s.clear(); };
    auto report = [&]() { if (!n.cls.empty()) VFAIL(n.cls, where << ": " << n.msg); };
    try {
      sideOpen(a, c); if (twin) sideOpen(b, c); if (cx.verbose) fprintf(stdout, "%s\n%s\n", a.s.m.nddl().c_str(), a.g.xml("S").c_str());
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; if (op.k >= 100 && op.k < S_ATTACH) continue; cx.beginOp((int)i, op); where = describe(c, op); ta.clear(); tb.clear();
        if (op.k == L_ON) { if (m1) continue; m1 = new CEMirror(a.s.p.ce, &n); m2 = new PDBMirror(a.s.p.db, &n); m3 = new ClMirror(a.s.p.cl); m4 = new REMirror(a.s.p.eng->getRulesEngine(), &n); cx.fault("listeners-attached"); if (i > 5) cx.fault("listeners-attached-late"); continue; }
        if (op.k == L_OFF) { if (!m1) continue; fold(m1->seen); fold(m2->seen); fold(m4->seen); delete m1; delete m2; delete m3; delete m4; m1 = nullptr; cx.fault("listeners-detached"); continue; }
        if (op.k == L_ONSV) { if (!a.S || m5) continue; m5 = new SVMirror(a.S, &n); a.S->addListener(m5->getId()); continue; }
        if (m3 && m1) m3->got.clear(); size_t ncons = a.s.cons.size(); if (m5) m5->ended = 0;
        randSeed((uint64_t)cf(c, 15) + i); sideStep(a, c, op, ka); cx.ev(ta);
        if (twin) { randSeed((uint64_t)cf(c, 15) + i); sideStep(b, c, op, kb); if (ta != tb) VFAIL("listener-effect", where << ": with listeners the engine shows something else than without"); }
        if (m1) { m1->compare(a.s.p); m2->compare(a.s.p); m4->compare(); cx.nontrivial = true; cx.count("states_compared"); where += " (" + a.s.last + ")";
          if (op.k < S_ATTACH) { bool sk = ta == "skipped\n" || ta.empty(); std::vector<std::string> want; if (!sk && op.k != O_PROP && op.k != O_SNAP && op.k != O_UNDO && op.k != O_CHECK) { if (op.k == O_CON) { if (a.s.cons.size() != ncons && !(a.s.cons.rbegin()->second.second == eint(-1))) want.push_back("variable"); want.push_back("constraint"); } else if (op.k == O_DELC) { want.push_back("delete-constraint"); } else want.push_back(g_sops[op.k]); }
            std::vector<std::string> got; for (auto& x : m3->got) if (op.k == O_CON || (x != "variable" && x != "constraint")) got.push_back(x); /* the model interpreter is a client as well */ if (op.k == O_DELC && got.size() == 2 && got[1] == "delete-variable") got.pop_back(); if (got != want) { std::string g; for (auto& x : got) g += " " + x; n.bad("client-report", "the client's listeners were told" + (g.empty() ? " nothing" : g)); } } }
        if (m5) m5->compare();
        report();
      }
      if (m1) { fold(m1->seen); fold(m2->seen); fold(m4->seen); } if (m5) fold(m5->seen); for (auto& x : seen) cx.count("told:" + x.first, x.second); cx.state(hstr(a.s.p.dump()));
    } catch (Error& er) { VFAIL("unexpected-error", where << ": " << er.getMsg() << " | " << er.getCondition()); }
    catch (std::exception& er) { VFAIL("unexpected-exception", where << ": " << er.what()); }
  }
};
struct Reg { Reg() { registerWorld("mirror", new MirrorWorld); } } reg;
}
