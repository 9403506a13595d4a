#include "plan.h"
#include <boost/cast.hpp>
using namespace EUROPA;
namespace sim {

const char* const g_rels[] = {"meets", "met_by", "contains", "contained_by", "before", "after", "starts", "ends", "equals", "any",
  "parallels", "paralleled_by", "starts_before_end", "ends_after_start", "starts_before", "ends_after", "starts_during", "contains_end"};

// ---- model generation -------------------------------------------------------
std::string Model::typeName(int t) { static const char* n[] = {"E", "S", "U", "bool", "K0", "K1"}; return n[t]; }
std::string Model::valueText(int t, int v) {
  if (t == T_ENUM) return std::string(1, (char)('A' + v % 3)); if (t == T_SMALL) return std::to_string(v % 4);
  if (t == T_INT) return std::to_string(v % 7); return v % 2 ? "true" : "false";
}
std::string Model::predName(int p) const { return "K" + std::to_string(preds[(size_t)p].cls) + ".P" + std::to_string(p); }
static bool isObj(int t) { return t == T_OBJ0 || t == T_OBJ1; }

void Model::build(const Case& c) {
  // cfg: [0] classes-1, [1] timeline mask, [2..3] objects per class - 1
  auto cf = [&](size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; };
  ncls = 1 + (cf(0) & 1); for (int k = 0; k < ncls; k++) { timeline.push_back((cf(1) >> k) & 1); nobj.push_back(1 + cf((size_t)(2 + k)) % 3); }
  for (auto& o : c.ops) if (o.k == M_PRED) { MPred p; p.cls = o.a[0] % ncls; p.blocks.push_back(MBlock{{}, {}, 0}); preds.push_back(p); if (preds.size() >= 6) break; }
  if (preds.empty()) { MPred p; p.cls = 0; p.blocks.push_back(MBlock{{}, {}, 0}); preds.push_back(p); }
  int n = (int)preds.size();
  for (auto& o : c.ops) if (o.k == M_PARAM) {
    MPred& p = preds[(size_t)(o.a[0] % n)]; if (p.params.size() >= 3) continue; int t = o.a[1] % NPTYPE; if (t == T_OBJ1 && ncls < 2) t = T_OBJ0;
    p.params.push_back(t); int i = (int)p.params.size() - 1; p.blocks[0].vis.push_back(MVar{"a" + std::to_string(i), t});
  }
  for (auto& o : c.ops) {
    if (o.k < M_PCON || o.k >= M_END) continue;
    int pi = o.a[0] % n; MPred& p = preds[(size_t)pi];
    if (o.k == M_PCON) {
      int m = (int)p.params.size(); if (m < 2) continue; int x = o.a[1] % m, y = o.a[2] % m; if (x == y || p.params[(size_t)x] != p.params[(size_t)y]) continue; int t = p.params[(size_t)x];
      std::string nm = isObj(t) || t == T_BOOL || t == T_ENUM ? (o.a[3] % 3 ? "neq" : "eq") : t == T_SMALL ? (o.a[3] % 3 ? (o.a[3] % 3 == 1 ? "leq" : "eq") : "neq") : (o.a[3] % 2 ? "leq" : "eq");
      p.body.push_back(nm + "(a" + std::to_string(x) + ", a" + std::to_string(y) + ");"); continue;
    }
    int bi = o.a[1] % (int)p.blocks.size();
    MBlock* b = &p.blocks[(size_t)bi];
    if (o.k == M_SUB) {
      if (pi + 1 >= n) continue; int tp = pi + 1 + o.a[3] % (n - pi - 1); int rel = o.a[2] % NRELS; if (p.used.count(std::make_pair(rel, tp))) continue; p.used.insert(std::make_pair(rel, tp));
      MStmt s; s.kind = ST_SUB; s.rel = rel; s.pred = tp; s.id = p.nextId++; std::string nm = "s" + std::to_string(s.id);
      bool own = preds[(size_t)tp].cls == p.cls && o.a[4] % 2;
      s.text = std::string(g_rels[rel]) + "(" + (own ? "object.P" + std::to_string(tp) : predName(tp)) + " " + nm + ");";
      s.x = own ? "own" : "";
      b->stmts.push_back(s);
      for (size_t k = 0; k < preds[(size_t)tp].params.size(); k++) b->vis.push_back(MVar{nm + ".a" + std::to_string(k), preds[(size_t)tp].params[k]});
    } else if (o.k == M_LOCAL) {
      int t = o.a[2] % 4; MStmt s; s.kind = ST_LOCAL; s.id = p.nextId++; std::string nm = "l" + std::to_string(s.id); s.text = typeName(t) + " " + nm + ";"; s.cname = nm; s.rel = t;
      b->stmts.push_back(s); b->vis.push_back(MVar{nm, t});
    } else if (o.k == M_CON) {
      // visible variables: this block's and those inherited when it was created
      int m = (int)b->vis.size(); if (m < 2) continue; int x = o.a[2] % m; MVar vx = b->vis[(size_t)x]; std::vector<MVar> cand; for (int k = 0; k < m; k++) if (k != x && b->vis[(size_t)k].type == vx.type) cand.push_back(b->vis[(size_t)k]);
      if (cand.empty()) continue; MVar vy = cand[(size_t)(o.a[3] % (int)cand.size())]; int t = vx.type;
      MStmt s; s.kind = ST_CON; s.id = p.nextId++; s.cname = (t == T_INT) ? (o.a[4] % 2 ? "leq" : "eq") : (t == T_SMALL) ? (o.a[4] % 3 == 0 ? "leq" : "eq") : (o.a[4] % 4 == 0 ? "neq" : "eq");
      s.x = vx.expr; s.y = vy.expr; s.text = s.cname + "(" + vx.expr + ", " + vy.expr + ");"; b->stmts.push_back(s);
    } else if (o.k == M_IF) {
      if (b->depth >= 3 || p.blocks.size() > 8) continue; std::vector<MVar> cand; for (auto& v : b->vis) if (!isObj(v.type)) cand.push_back(v); if (cand.empty()) continue;
      MVar g = cand[(size_t)(o.a[2] % (int)cand.size())];
      MStmt s; s.kind = ST_IF; s.id = p.nextId++; s.g = MGuard{g.expr, g.type, o.a[3] % 3 == 0, o.a[4]};
      MBlock nb; nb.depth = b->depth + 1; nb.vis = b->vis; s.thenB = (int)p.blocks.size(); s.elseB = -1;
      s.text = "if (" + g.expr + (s.g.rel ? " != " : " == ") + valueText(g.type, s.g.value) + ")";
      p.blocks.push_back(nb); if (o.a[5] % 2) { s.elseB = (int)p.blocks.size(); p.blocks.push_back(nb); }
      p.blocks[(size_t)bi].stmts.push_back(s);
    }
  }
}
static bool blockEmpty(const MPred& p, int b) { return b < 0 || p.blocks[(size_t)b].stmts.empty(); }
static void emitBlock(std::ostringstream& o, const MPred& p, int b, const std::string& ind) {
  for (auto& s : p.blocks[(size_t)b].stmts) {
    if (s.kind != ST_IF) { o << ind << s.text << "\n"; continue; }
    if (blockEmpty(p, s.thenB) && blockEmpty(p, s.elseB)) continue;
    o << ind << s.text << " {\n"; emitBlock(o, p, s.thenB, ind + " "); o << ind << "}";
    if (!blockEmpty(p, s.elseB)) { o << " else {\n"; emitBlock(o, p, s.elseB, ind + " "); o << ind << "}"; }
    o << "\n";
  }
}
std::string Model::nddl() const {
  std::ostringstream o; o << "enum E {A, B, C};\ntypedef int {0, 1, 2, 3} S;\ntypedef int [0 6] U;\n";
  for (int k = 0; k < ncls; k++) o << "class K" << k << ";\n";
  for (int k = 0; k < ncls; k++) {
    o << "class K" << k << (timeline[(size_t)k] ? " extends Timeline" : "") << " {\n";
    for (size_t i = 0; i < preds.size(); i++) if (preds[i].cls == k) {
      o << " predicate P" << i << " {"; for (size_t j = 0; j < preds[i].params.size(); j++) o << " " << typeName(preds[i].params[j]) << " a" << j << ";";
      if (durations) o << " eq(duration, [1 " << 5 + 7 * i << "]);"; for (auto& b : preds[i].body) o << " " << b; o << " }\n";
    }
    o << " K" << k << "() {}\n}\n";
  }
  for (size_t i = 0; i < preds.size(); i++) if (!preds[i].blocks[0].stmts.empty()) { o << "K" << preds[i].cls << "::P" << i << " {\n"; emitBlock(o, preds[i], 0, " "); o << "}\n"; }
  return o.str();
}
void genModelOps(Rng& r, Case& c, int npred, bool rules, bool guards) {
  auto add = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
  for (int i = 0; i < npred; i++) add(M_PRED);
  for (int i = r.range(npred / 2, npred * 2); i > 0; i--) add(M_PARAM);
  for (int i = r.below(3); i > 0; i--) add(M_PCON);
  if (!rules) return;
  for (int i = r.range(npred, npred * 4); i > 0; i--) {
    int x = r.below(10);
    if (x < 4) add(M_SUB); else if (x < 5) add(M_LOCAL); else if (x < 7) add(M_CON); else if (guards) add(M_IF); else add(M_CON);
  }
}

// ---- engine -------------------------------------------------------------------
PlanEngine::PlanEngine() { Error::doThrowExceptions(); Error::doNotDisplayErrors(); }
void PlanEngine::begin() { doStart(); Error::doThrowExceptions(); Error::doNotDisplayErrors(); }

void Plan::open(uint64_t agendaSeed, bool autoProp, bool) {
  if (!eng) eng = new PlanEngine(); eng->begin();
  ce = eng->getConstraintEngine(); db = eng->getPlanDatabase(); cl = db->getClient();
  if (!realAgenda) new SimPropagator("Default", ce, agendaSeed, 20000);
  ce->setAutoPropagation(autoProp);
}
void Plan::load(const Model& m, bool objs) {
  bool ap = ce->getAutoPropagation(); model = &m; std::string txt = m.nddl();
  if (objs) for (int k = 0; k < m.ncls; k++) for (int i = 0; i < m.nobj[(size_t)k]; i++) txt += "K" + std::to_string(k) + " o" + std::to_string(k) + "_" + std::to_string(i) + " = new K" + std::to_string(k) + "();\n";
  std::string err = eng->executeScript("nddl", txt, false);
  ce->setAutoPropagation(ap); if (!err.empty()) throw Stop{"model: " + err};
}
void Plan::closeAll() { db->close(); }
bool Plan::propagate() { ce->propagate(); return ce->constraintConsistent(); }

int predOf(const Model& m, const TokenId t) { std::string n = t->getUnqualifiedPredicateName(); int p = atoi(n.c_str() + 1); return p < (int)m.preds.size() ? p : -1; }

void Plan::refresh() {
  const TokenSet& ts = db->getTokens(); std::vector<TokenId> v(ts.begin(), ts.end());
  std::sort(v.begin(), v.end(), [](const TokenId a, const TokenId b) { return a->getKey() < b->getKey(); });
  for (auto& t : v) { auto it = names.find(t->getKey()); if (it == names.end()) nameOf(t); else if (t->master().isNoId() && it->second.find('/') != std::string::npos && it->second.find('~') == std::string::npos) {
    // a subgoal which outlives its master gets a name of its own, and so do the subgoals below it
    std::string old = it->second, now = old + "~" + std::to_string(nextOrphan++); std::set<eint> below = {t->getKey()}; names[t->getKey()] = now;
    for (bool more = true; more;) { more = false; for (auto& u : v) if (!u->master().isNoId() && below.count(u->master()->getKey()) && below.insert(u->getKey()).second) { more = true; auto j = names.find(u->getKey()); if (j != names.end() && j->second.compare(0, old.size(), old) == 0) j->second = now + j->second.substr(old.size()); } }
  } }
}
std::string Plan::nameOf(const TokenId t) {
  auto it = names.find(t->getKey()); if (it != names.end()) return it->second;
  std::string n;
  if (t->master().isNoId()) n = "t" + std::to_string(nextMaster++);
  else {
    std::string base = nameOf(t->master()) + "/" + t->getRelation() + "." + t->getUnqualifiedPredicateName(); int k = 0;
    // siblings of the same kind are told apart by creation order
    TokenId m = t->master(); const TokenSet& sl = m->slaves(); for (auto& s : sl) if (s != t && s->getRelation() == t->getRelation() && s->getPredicateName() == t->getPredicateName() && s->getKey() < t->getKey()) k++;
    n = base; if (k) n += "#" + std::to_string(k);
  }
  names[t->getKey()] = n; return n;
}
// internal variables carry a process-wide counter in their names
static std::string varName(const ConstrainedVariableId v) { std::string n = v->getName(); size_t i = n.find("PSEUDO_VARIABLE_"); if (i != std::string::npos) n.resize(i + 15); i = n.find("implicit_var_"); if (i != std::string::npos) n.resize(i + 12); return n; }
std::string Plan::nameOf(const ConstrainedVariableId v) {
  EntityId p = v->parent(); std::ostringstream o;
  if (v->getName().find("PSEUDO_VARIABLE_") != std::string::npos) { o << varName(v) << dom(v->baseDomain()); return o.str(); }
  if (p.isNoId()) { bool g = db->isGlobalVariable(v->getName()); o << (g ? "$" : "?") << v->getName(); if (!g && v->getName().find("ANONYMOUS") == std::string::npos && v->getName().empty()) o << v->baseDomain().toString(); return o.str(); }
  if (TokenId::convertable(p)) { TokenId t = p; return nameOf(t) + "." + v->getName(); }
  if (ObjectId::convertable(p)) { ObjectId b = p; return b->getName() + "." + v->getName(); }
  if (RuleInstanceId::convertable(p)) { RuleInstanceId r = p; return nameOf(r->getToken()) + ":" + varName(v); }
  return "~" + v->getName();
}
std::vector<TokenId> Plan::tokens() {
  refresh(); std::vector<std::pair<std::string, TokenId>> v; const TokenSet& ts = db->getTokens();
  for (auto& t : ts) v.push_back(std::make_pair(nameOf(t), t));
  auto key = [](const std::string& s) { return std::make_pair(atoi(s.c_str() + 1), s); };
  std::sort(v.begin(), v.end(), [&](const std::pair<std::string, TokenId>& a, const std::pair<std::string, TokenId>& b) { return key(a.first) < key(b.first); });
  std::vector<TokenId> r; for (auto& x : v) r.push_back(x.second); return r;
}
std::vector<ObjectId> Plan::objects() {
  const ObjectSet& os = db->getObjects(); std::vector<ObjectId> v(os.begin(), os.end());
  std::sort(v.begin(), v.end(), [](const ObjectId a, const ObjectId b) { return a->getName() < b->getName(); }); return v;
}
std::string Plan::dom(const Domain& d) {
  if (d.isEmpty()) return "{}"; std::ostringstream o;
  if (d.isInterval()) { o << "[" << show(tnum(d.getLowerBound())) << "," << show(tnum(d.getUpperBound())) << "]"; return o.str(); }
  std::list<edouble> vals; d.getValues(vals); std::set<std::string> s; 
  for (auto& v : vals) {
    if (d.isSymbolic()) { EntityId e; if (db->getSchema()->isObjectType(d.getTypeName())) { ObjectId ob = Entity::getTypedEntity<Object>(v); s.insert(ob.isNoId() ? "?" : ob->getName()); } else s.insert(LabelStr(v).toString()); }
    else s.insert(show(tnum(v)));
  }
  o << (d.isOpen() ? "open{" : "{"); bool f = true; for (auto& x : s) { o << (f ? "" : " ") << x; f = false; } o << "}"; return o.str();
}
std::string Plan::constraintText(const ConstraintId c) {
  std::ostringstream o; o << c->getName() << "("; bool f = true; for (auto& v : c->getScope()) { o << (f ? "" : ", ") << nameOf(v); f = false; } o << ")"; return o.str();
}
// The duration follows from the times only when one of them changes, so compare it
// as narrowed by the times.
std::string Plan::distText(const ConstrainedVariableId d, const ConstrainedVariableId from, const ConstrainedVariableId to) {
  const Domain &s = from->lastDomain(), &e = to->lastDomain();
  if (s.isEmpty() || e.isEmpty() || d->lastDomain().isEmpty() || !s.areBoundsFinite() || !e.areBoundsFinite()) return dom(d->lastDomain());
  Domain* x = d->lastDomain().copy(); IntervalIntDomain w(eint(tnum(e.getLowerBound()) - tnum(s.getUpperBound())), eint(tnum(e.getUpperBound()) - tnum(s.getLowerBound()))); x->intersect(w); std::string r = dom(*x); delete x; return r;
}
std::string Plan::now(const ConstrainedVariableId v) {
  std::set<ConstraintId> cs; v->constraints(cs); for (auto& c : cs) if (c->isActive() && c->getName() == "temporalDistance" && c->getScope()[1] == v) return distText(v, c->getScope()[0], c->getScope()[2]);
  return dom(v->lastDomain());
}
std::string Plan::dump(bool domains, bool) {
  std::ostringstream o; bool ok = cons(); o << (ok ? "CONSISTENT\n" : "INCONSISTENT\n"); domains = domains && ok;
  for (auto& t : tokens()) {
    o << "token " << nameOf(t) << " " << t->getPredicateName() << (t->isFact() ? " fact" : "") << " ";
    if (t->isActive()) o << "active"; else if (t->isMerged()) o << "merged->" << nameOf(t->getActiveToken()); else if (t->isRejected()) o << "rejected"; else o << "inactive";
    if (t->isCommitted()) o << " committed";
    std::set<std::string> sup; for (auto& m : t->getMergedTokens()) sup.insert(nameOf(m)); for (auto& s : sup) o << " <-" << s;
    o << "\n";
    for (auto& v : t->getVariables()) { o << "  " << v->getName() << " base" << dom(v->baseDomain()); if (domains && v->isActive()) o << " now" << now(v); if (v->isSpecified()) o << " spec"; if (!v->isActive()) o << " off"; o << "\n"; }
    std::multiset<std::string> loc; for (auto& v : t->getLocalVariables()) { std::string s = varName(v) + " base" + dom(v->baseDomain()); if (domains && v->isActive()) s += " now" + dom(v->lastDomain()); if (v->isSpecified()) s += " spec"; loc.insert(s); }
    for (auto& s : loc) o << "  local " << s << "\n";
  }
  for (auto& ob : objects()) {
    o << "object " << ob->getName(); 
    if (TimelineId::convertable(ob)) { TimelineId tl = ob; o << " seq"; for (auto& t : tl->getTokenSequence()) o << " " << nameOf(t); }
    std::set<std::string> ts; for (auto& t : ob->tokens()) ts.insert(nameOf(t)); o << " tokens"; for (auto& s : ts) o << " " << s; o << "\n";
    for (auto& v : ob->getVariables()) { o << "  " << v->getName() << " base" << dom(v->baseDomain()); if (domains) o << " now" << dom(v->lastDomain()); if (v->isSpecified()) o << " spec"; o << "\n"; }
  }
  { std::set<std::string> gv; for (auto& v : db->getGlobalVariables()) { std::string s = v->getName() + " base" + dom(v->baseDomain()); if (domains) s += " now" + now(v); if (v->isSpecified()) s += " spec"; gv.insert(s); } for (auto& s : gv) o << "global " << s << "\n"; }
  { std::multiset<std::string> cs; for (auto& c : ce->getConstraints()) cs.insert(constraintText(c)); for (auto& s : cs) o << "con " << s << "\n"; }
  { std::multiset<std::string> vs; for (auto& v : ce->getVariables()) { EntityId p = v->parent(); if (p.isNoId() && !db->isGlobalVariable(v->getName()) && v->getName().find("PSEUDO_VARIABLE") == std::string::npos) vs.insert(dom(v->baseDomain())); } for (auto& s : vs) o << "loose variable " << s << "\n"; }
  { std::set<std::string> s; for (auto& e : db->getTokensToOrder()) s.insert(nameOf(e.second.first)); o << "toorder"; for (auto& x : s) o << " " << x; o << "\n"; }
  return o.str();
}

// ---- temporal oracle -------------------------------------------------------------
long tnum(edouble v) { double d = cast_double(v); if (d >= 1e15) return INFL; if (d <= -1e15) return -INFL; if (v >= cast_basis(PLUS_INFINITY)) return INFL; if (v <= cast_basis(MINUS_INFINITY)) return -INFL; return (long)d; }
std::string show(long v) { return v >= INFL ? "+inf" : v <= -INFL ? "-inf" : std::to_string(v); }
void TOracle::build(Plan& p) {
  vars.assign(1, ConstrainedVariableId::noId()); idx.clear();
  auto add = [&](const ConstrainedVariableId v) -> int { auto it = idx.find(v->getKey()); if (it != idx.end()) return it->second; idx[v->getKey()] = (int)vars.size(); vars.push_back(v); return (int)vars.size() - 1; };
  struct E { int a, b; long lo, hi; }; std::vector<E> es;
  for (auto& c : p.ce->getConstraints()) {
    std::string n = c->getName(); const std::vector<ConstrainedVariableId>& s = c->getScope(); bool act = true; for (auto& v : s) if (!v->isActive()) act = false; if (!act) continue;
    if (n == "precedes") es.push_back(E{add(s[0]), add(s[1]), 0, INFL}); else if (n == "strictlyPrecedes") es.push_back(E{add(s[0]), add(s[1]), 1, INFL});
    else if (n == "concurrent") es.push_back(E{add(s[0]), add(s[1]), 0, 0});
    else if (n == "temporalDistance" || n == "temporaldistance") { const Domain& dd = s[1]->isSpecified() ? s[1]->lastDomain() : s[1]->baseDomain(); long lo, hi; if (s[1]->isSpecified()) lo = hi = tnum(s[1]->getSpecifiedValue()); else { lo = tnum(dd.getLowerBound()); hi = tnum(dd.getUpperBound()); } es.push_back(E{add(s[0]), add(s[2]), lo, hi}); }
  }
  for (auto& t : p.db->getTokens()) { if (t->start()->isActive()) add(t->start()); if (t->end()->isActive()) add(t->end()); }
  size_t n = vars.size(); d.assign(n, std::vector<long>(n, INFL)); for (size_t i = 0; i < n; i++) d[i][i] = 0;
  auto edge = [&](int a, int b, long lo, long hi) { size_t x = (size_t)a, y = (size_t)b; if (hi < INFL) d[x][y] = std::min(d[x][y], hi); if (lo > -INFL) d[y][x] = std::min(d[y][x], -lo); };
  for (auto& e : es) edge(e.a, e.b, e.lo, e.hi);
  for (size_t i = 1; i < n; i++) { long lo, hi; if (vars[i]->isSpecified()) lo = hi = tnum(vars[i]->getSpecifiedValue()); else { lo = tnum(vars[i]->baseDomain().getLowerBound()); hi = tnum(vars[i]->baseDomain().getUpperBound()); } edge(0, (int)i, lo, hi); }
  // what merged tokens have been restricted to holds for the token which supports them
  for (auto& t : p.db->getTokens()) if (t->isMerged()) { TokenId a = t->getActiveToken();
    auto rng = [&](const ConstrainedVariableId v, long& lo, long& hi) { if (v->isSpecified()) lo = hi = tnum(v->getSpecifiedValue()); else { lo = tnum(v->baseDomain().getLowerBound()); hi = tnum(v->baseDomain().getUpperBound()); } }; long lo, hi;
    int x = find(a->start()), y = find(a->end()); if (x < 0 || y < 0) continue; rng(t->start(), lo, hi); edge(0, x, lo, hi); rng(t->end(), lo, hi); edge(0, y, lo, hi); rng(t->duration(), lo, hi); edge(x, y, lo, hi); }
  close();
}
void TOracle::close() {
  size_t n = d.size(); sat = true;
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (d[i][k] < INFL) for (size_t j = 0; j < n; j++) if (d[k][j] < INFL && d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j];
  for (size_t i = 0; i < n; i++) if (d[i][i] < 0) sat = false;
}

}
