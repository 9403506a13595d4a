#include "solv.h"
#include "RuleVariableListener.hh"
using namespace EUROPA;
namespace sim {
const char* const g_svops[] = {"solver.attach", "solver.step", "solver.solve", "solver.reset", "solver.reset-n", "solver.backjump", "solver.twice", "solver.observe"};

void genConfigOps(Rng& r, Case& c, const std::string& prop) {
  auto add = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
  int f = prop == "C11" ? r.below(5) : r.below(3), h = prop == "C11" ? r.below(7) : r.below(4);
  for (int i = 0; i < f; i++) add(G_FILTER); for (int i = 0; i < h; i++) add(G_HANDLER);
}

// cfg: 8 manager order, 9 times are decided, 10 horizon, 11 handler flavour, 12 no threat manager
void SConfig::build(const Case& c, const Model& mm, const std::string& prop) {
  m = &mm; auto cf = [&](size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; };
  order = cf(8) % 6; times = cf(9) % 3 == 1; h0 = cf(10) % 7; h1 = h0 + 5 + cf(10) % 40; threats = cf(12) % 6 != 1; int n = (int)mm.preds.size(); double pr = 1;
  bool full = prop == "C09";
  auto attrs = [&](SRule& r, const Op& o, int mask) {
    int p = o.a[2] % n;
    if (mask & 1) r.cls = o.a[2] % 5 == 4 ? "Timeline" : o.a[2] % 5 == 3 ? "Object" : "K" + std::to_string(o.a[2] % mm.ncls);
    if (mask & 2) { r.pred = "P" + std::to_string(p); if ((mask & 1) && o.a[2] % 5 < 3) r.cls = "K" + std::to_string(mm.preds[(size_t)p].cls); }
    if ((mask & 4) && r.mgr == G_UVM) { static const char* vs[] = {"a0", "a1", "a2", "object", "l0", "l1", "l2"}; r.var = vs[o.a[3] % 7]; }
    if (mask & 8) r.mrel = o.a[4] % 4 == 0 ? "none" : o.a[4] % 4 == 1 ? "before" : g_rels[o.a[4] % NRELS];
    if (mask & 16) { int q = o.a[5] % n; r.mpred = "P" + std::to_string(q); }
    if (mask & 32) r.mcls = "K" + std::to_string(o.a[5] % mm.ncls);
  };
  static const int masks[] = {1, 2, 4, 3, 5, 6, 8, 16, 18, 10, 7, 32, 48, 12, 20, 4};
  auto guards = [&](SRule& r, const Op& o) {
    auto val = [&](int t, int x) { return (t == T_OBJ0 || t == T_OBJ1) ? "o" + std::to_string(t - T_OBJ0) + "_" + std::to_string(x % mm.nobj[(size_t)(t - T_OBJ0)]) : Model::valueText(t, x); };
    if (!r.pred.empty() && o.a[6] % 2 == 0) { int p = atoi(r.pred.c_str() + 1); auto& ps = mm.preds[(size_t)p].params; if (!ps.empty()) { int i = o.a[7] % (int)ps.size(); r.guards.push_back(std::make_pair("a" + std::to_string(i), val(ps[(size_t)i], o.a[6]))); if (ps.size() > 1 && o.a[7] % 5 == 0) { int j = (i + 1) % (int)ps.size(); r.guards.push_back(std::make_pair("a" + std::to_string(j), val(ps[(size_t)j], o.a[7]))); } } if (r.cls.empty()) { } }
    if (!r.mpred.empty() && o.a[6] % 4 < 3) { int p = atoi(r.mpred.c_str() + 1); auto& ps = mm.preds[(size_t)p].params; if (!ps.empty()) { int i = o.a[3] % (int)ps.size(); r.mguards.push_back(std::make_pair("a" + std::to_string(i), val(ps[(size_t)i], o.a[4]))); } } };
  static const char* orders[] = {"early", "late", "near", "far", "ascendingKey"};
  auto comp = [&](SRule& r, int x) {
    if (r.mgr == G_TM) { r.comp = x % 3 ? "StandardThreatHandler" : "HSTSThreatDecisionPoint"; if (x % 3 == 0) { r.order = orders[(x / 3) % 5]; } }
    else if (r.mgr == G_OCM) { int y = x % 4; r.comp = y < 2 ? "StandardOpenConditionHandler" : y == 2 ? "BasicOpenConditionHandler" : "HSTSOpenConditionDecisionPoint"; if (y == 3) { static const char* ch[] = {"mergeFirst", "activateFirst", "mergeOnly", "activateOnly"}; r.choice = ch[(x / 4) % (full ? 2 : 4)]; r.order = orders[(x / 16) % 5]; hsts = true; if ((x / 4) % 4 > 1) partial = true; } }
    else { int y = x % 5; r.comp = y < 2 ? "StandardVariableHandler" : y == 2 ? "Min" : y == 3 ? "Max" : "Random"; if (y == 4) random = true; } };
  for (int g = G_TM; g <= G_UVM; g++) { SRule r; r.mgr = g; r.prio = pr++ * 0.5; comp(r, cf(11) * (g + 1)); rules.push_back(r); }
  if (!times) for (auto v : {"start", "end", "duration"}) { SRule r; r.mgr = G_UVM; r.filter = true; r.var = v; rules.push_back(r); }
  for (auto& o : c.ops) {
    if (o.k == G_FILTER) {
      SRule r; r.filter = true; r.mgr = o.a[0] % 4; int kind = o.a[1] % 14; static const char* pol[] = {"PossiblyContained", "PartiallyContained", "TotallyContained"};
      attrs(r, o, masks[o.a[6] % 16]); if (r.statics() == 0) r.pred = "P" + std::to_string(o.a[2] % n);
      if (r.mgr == G_MASTER && !r.var.empty()) r.var = "";
      if (kind < 3) { r.comp = "HorizonFilter"; r.policy = pol[o.a[7] % 3]; if (o.a[7] % 2) { r.cls = r.pred = r.var = r.mrel = r.mcls = r.mpred = ""; } }
      else if (kind < 6 && r.mgr == G_UVM) { static const char* cs[] = {"ParameterFilter", "LocalVariableFilter", "GuardFilter", "NotGuardFilter", "Singleton", "InfiniteDynamicFilter", "TokenMustBeAssignedFilter", "HorizonVariableFilter"}; r.comp = cs[o.a[7] % 8]; if (r.comp == "HorizonVariableFilter") r.policy = pol[o.a[6] % 3]; if (o.a[5] % 2) { r.cls = r.pred = r.var = r.mrel = r.mcls = r.mpred = ""; } }
      else if (kind == 6 && (r.mgr == G_OCM || r.mgr == G_TM)) r.comp = "MasterMustBeInsertedFilter";
      if (!r.comp.empty()) dynamic = true; rules.push_back(r);
    } else if (o.k == G_HANDLER) {
      SRule r; r.mgr = 1 + o.a[0] % 3; attrs(r, o, masks[o.a[1] % 16]); r.prio = pr++ * 0.5; comp(r, o.a[7]); if (r.comp != "Random") guards(r, o); rules.push_back(r);
    }
  }
}
std::string SRule::xml() const {
  std::ostringstream o; o << (filter ? "<FlawFilter" : "<FlawHandler"); auto at = [&](const char* n, const std::string& v) { if (!v.empty()) o << " " << n << "=\"" << v << "\""; };
  at("component", comp); at("class-match", cls); at("predicate-match", pred); at("var-match", var); at("masterRelation", mrel); at("masterClass", mcls); at("masterPredicate", mpred); at("policy", policy); at("order", order); at("choice", choice); if (!filter) o << " priority=\"" << prio << "\"";
  if (guards.empty() && mguards.empty()) { o << "/>"; return o.str(); } o << ">";
  for (auto& g : guards) o << "<Guard name=\"" << g.first << "\" value=\"" << g.second << "\"/>"; for (auto& g : mguards) o << "<MasterGuard name=\"" << g.first << "\" value=\"" << g.second << "\"/>"; o << "</FlawHandler>"; return o.str();
}
std::string SConfig::xml(const std::string& name) const {
  std::ostringstream o; o << "<Solver name=\"" << name << "\">"; for (auto& r : rules) if (r.mgr == G_MASTER) o << "\n " << r.xml();
  static const int perm[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}; static const char* tag[] = {"", "ThreatManager", "OpenConditionManager", "UnboundVariableManager"};
  for (int g : perm[order]) { if (g == G_TM && !threats) continue; o << "\n <" << tag[g] << ">"; for (auto& r : rules) if (r.mgr == g) o << "\n  " << r.xml(); o << "\n </" << tag[g] << ">"; }
  o << "\n</Solver>\n"; return o.str();
}
TokenId SConfig::token(const EntityId e) const {
  if (TokenId::convertable(e)) return TokenId(e); EntityId p = ConstrainedVariableId(e)->parent(); if (p.isNoId()) return TokenId::noId();
  if (TokenId::convertable(p)) return TokenId(p); if (RuleInstanceId::convertable(p)) return RuleInstanceId(p)->getToken(); return TokenId::noId();
}
std::vector<std::string> SConfig::classes(const std::string& c) const { std::vector<std::string> r; r.push_back(c); if (c[0] == 'K' && m->timeline[(size_t)atoi(c.c_str() + 1)]) r.push_back("Timeline"); r.push_back("Object"); return r; }
bool SConfig::stat(const SRule& r, const EntityId e) const {
  auto in = [](const std::vector<std::string>& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  bool isVar = ConstrainedVariableId::convertable(e); TokenId t = token(e);
  if (!r.var.empty() && (!isVar || ConstrainedVariableId(e)->getName() != r.var)) return false;
  if (t.isNoId()) {
    if (!r.pred.empty() || !r.mrel.empty() || !r.mcls.empty() || !r.mpred.empty()) return false; if (r.cls.empty()) return true;
    EntityId p = ConstrainedVariableId(e)->parent(); return !p.isNoId() && ObjectId::convertable(p) && in(classes(ObjectId(p)->getType()), r.cls);
  }
  std::string pn = t->getUnqualifiedPredicateName(); int pi = atoi(pn.c_str() + 1);
  if (!r.pred.empty() && r.pred != pn) return false;
  if (!r.cls.empty() && !in(classes("K" + std::to_string(m->preds[(size_t)pi].cls)), r.cls)) return false;
  TokenId ma = t->master();
  if (!r.mrel.empty()) { std::string rel = ma.isNoId() ? "none" : t->getRelation(); if (!(rel == r.mrel || (r.mrel == "before" && rel == "meets") || (r.mrel == "after" && rel == "met_by"))) return false; }
  if (ma.isNoId()) return r.mcls.empty() && r.mpred.empty();
  std::string mp = ma->getUnqualifiedPredicateName(); int mi = atoi(mp.c_str() + 1);
  if (!r.mpred.empty() && r.mpred != mp) return false; if (!r.mcls.empty() && !in(classes("K" + std::to_string(m->preds[(size_t)mi].cls)), r.mcls)) return false;
  return true;
}
// does the dynamic filter exclude e?
bool SConfig::dyn(Plan& p, const SRule& r, const EntityId e) const {
  bool isVar = ConstrainedVariableId::convertable(e); TokenId t = token(e);
  if (r.comp == "HorizonFilter" || r.comp == "HorizonVariableFilter") {
    if (r.comp == "HorizonVariableFilter" && !isVar) return false; if (t.isNoId()) return false;
    long sl = tnum(t->start()->lastDomain().getLowerBound()), su = tnum(t->start()->lastDomain().getUpperBound()), el = tnum(t->end()->lastDomain().getLowerBound()), eu = tnum(t->end()->lastDomain().getUpperBound()); bool in;
    if (r.policy == "PossiblyContained") in = su >= h0 && sl <= h1 && eu >= h0 && el <= h1; else if (r.policy == "PartiallyContained") in = el > h0 && su < h1; else in = sl >= h0 && sl <= h1 && eu >= h0 && eu <= h1;
    return !in;
  }
  if (r.comp == "MasterMustBeInsertedFilter") { if (t->master().isNoId()) return false; return !t->master()->isAssigned(); }
  if (!isVar) return false; ConstrainedVariableId v = e; EntityId par = v->parent();
  if (r.comp == "ParameterFilter") return !par.isNoId() && TokenId::convertable(par);
  if (r.comp == "LocalVariableFilter") return !par.isNoId() && RuleInstanceId::convertable(par);
  if (r.comp == "GuardFilter" || r.comp == "NotGuardFilter") { bool g = false; std::set<ConstraintId> cs; v->constraints(cs); for (auto& c : cs) if (c->getName() == RuleVariableListener::CONSTRAINT_NAME()) g = true; return g == (r.comp == "GuardFilter"); }
  if (r.comp == "Singleton") return !v->lastDomain().isSingleton();
  if (r.comp == "InfiniteDynamicFilter") return v->lastDomain().isOpen() || v->lastDomain().isInfinite();
  if (r.comp == "TokenMustBeAssignedFilter") return !t.isNoId() && !t->isAssigned();
  return false;
}
bool SConfig::excluded(Plan& p, int mgr, const EntityId e) const { for (auto& r : rules) if (r.filter && (r.mgr == mgr || r.mgr == G_MASTER) && stat(r, e) && (r.comp.empty() || dyn(p, r, e))) return true; return false; }
bool SConfig::guard(Plan& p, const TokenId t, const std::pair<std::string, std::string>& g) const {
  ConstrainedVariableId v = t->getVariable(g.first); if (v.isNoId() || !v->lastDomain().isSingleton()) return false; edouble x = v->lastDomain().getSingletonValue();
  if (p.db->getSchema()->isObjectType(v->baseDomain().getTypeName())) return Entity::getTypedEntity<Object>(x)->getName() == g.second;
  if (v->baseDomain().isSymbolic()) return LabelStr(x).toString() == g.second; if (g.second == "true" || g.second == "false") return (tnum(x) != 0) == (g.second == "true"); return tnum(x) == atol(g.second.c_str());
}
std::set<double> SConfig::handlers(Plan& p, int mgr, const EntityId e) const {
  std::multimap<double, double> w; TokenId t = token(e);
  for (auto& r : rules) if (!r.filter && r.mgr == mgr && stat(r, e)) {
    bool ok = true; for (auto& g : r.guards) if (t.isNoId() || !guard(p, t, g)) ok = false; for (auto& g : r.mguards) if (t.isNoId() || t->master().isNoId() || !guard(p, t->master(), g)) ok = false; if (!ok) continue;
    w.insert(std::make_pair(std::fabs(r.prio - (2.0 + r.statics() + (double)r.guards.size() + (double)r.mguards.size()) * 100000), r.prio));
  }
  std::set<double> o; if (w.empty()) return o; double best = w.rbegin()->first; for (auto& x : w) if (x.first == best) o.insert(x.second); return o;
}
std::string nameOf(Plan& p, const EntityId e) { if (TokenId::convertable(e)) return p.nameOf(TokenId(e)); return p.nameOf(ConstrainedVariableId(e)); }
std::vector<SFlaw> SConfig::flaws(Plan& p) const {
  std::vector<SFlaw> r; auto add = [&](const EntityId e, int g) { if (excluded(p, g, e)) return; r.push_back(SFlaw{e, g, handlers(p, g, e), nameOf(p, e)}); };
  for (auto& t : p.tokens()) if (t->isInactive()) add(t, G_OCM);
  if (threats) { auto m = p.db->getTokensToOrder(); for (auto& e : m) add(e.second.first, G_TM); }
  for (auto& v : p.ce->getVariables()) {
    if (TokenId::convertable(v->parent()) && !TokenId(v->parent())->isActive()) continue;
    if (!v->canBeSpecified() || v->isSpecified() || !v->lastDomain().areBoundsFinite()) continue; add(v, G_UVM);
  }
  return r;
}
SOLVERS::Solver* makeSolver(Plan& p, const SConfig& g, const std::string& name) {
  TiXmlDocument* d = new TiXmlDocument; std::string x = g.xml(name); d->Parse(x.c_str()); if (d->Error() || !d->RootElement()) throw Stop{"solver xml: " + std::string(d->ErrorDesc())};
  SOLVERS::Solver* s = new SOLVERS::Solver(p.db, *d->RootElement()); s->getContext()->put("horizonStart", (double)g.h0); s->getContext()->put("horizonEnd", (double)g.h1); return s;
}
std::string reported(Plan& p, SOLVERS::Solver* s, bool prio) {
  std::multiset<std::string> o; IteratorId it = s->createIterator(); std::vector<EntityId> v; while (!it->done()) { EntityId e = it->next(); if (e.isId()) v.push_back(e); } delete static_cast<Iterator*>(it);
  for (auto& e : v) { std::string t = nameOf(p, e); if (prio) { std::ostringstream x; x << t << " p" << s->getFlawHandler(e)->getPriority(e); t = x.str(); } o.insert(t); }
  std::string r; for (auto& x : o) r += "  open " + x + "\n"; return r;
}
std::string stackText(SOLVERS::Solver* s) { std::ostringstream o; o << s->getDepth(); return o.str(); }
}
