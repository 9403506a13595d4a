#include "sess.h"
using namespace EUROPA;
namespace sim {
const char* const g_sops[] = {"token", "activate", "merge", "reject", "cancel", "delete-token", "specify", "reset", "restrict", "constraint", "delete-constraint", "order", "unorder", "propagate", "check", "snapshot", "undo"};
const std::vector<int> g_baseWeights = {10, 12, 6, 2, 6, 3, 8, 5, 2, 8, 4, 5, 3, 10, 4, 0, 0};

void genSessOps(Rng& r, Case& c, int n, std::vector<int> w) {
  int tot = 0; for (int i = 0; i < (int)w.size(); i++) { if (i != O_TOK && i != O_ACT && i != O_PROP && i != O_SNAP && i != O_UNDO && r.chance(1, 6)) w[(size_t)i] = 0; tot += w[(size_t)i]; }
  for (int i = 0; i < n; i++) {
    Op o; if (i < 3) o.k = O_TOK; else { int x = r.below(tot); for (o.k = 0; x >= w[(size_t)o.k]; o.k++) x -= w[(size_t)o.k]; }
    for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o);
  }
}

TokenId Sess::tok(eint k) { EntityId e = Entity::getEntity(k); if (e.isNoId() || !TokenId::convertable(e)) return TokenId::noId(); return TokenId(e); }
ConstraintId Sess::con(eint k) { EntityId e = Entity::getEntity(k); if (e.isNoId() || !ConstraintId::convertable(e)) return ConstraintId::noId(); return ConstraintId(e); }
ConstrainedVariableId Sess::var(eint k) { EntityId e = Entity::getEntity(k); if (e.isNoId() || !ConstrainedVariableId::convertable(e)) return ConstrainedVariableId::noId(); return ConstrainedVariableId(e); }
std::vector<TokenId> Sess::filter(const std::function<bool(const TokenId)>& f) { std::vector<TokenId> r; for (auto& t : p.tokens()) if (f(t)) r.push_back(t); return r; }
std::string Sess::seqText(const TimelineId tl) { std::string s; for (auto& t : tl->getTokenSequence()) s += " " + p.nameOf(t); return s; }
bool Sess::ordered(const TokenId t) { for (auto& o : p.objects()) if (TimelineId::convertable(o)) { TimelineId tl = o; for (auto& x : tl->getTokenSequence()) if (x == t) return true; } return false; }

// Merging is legal when the plan database itself could offer the pair: same
// predicate and every parameter can still take a common value.
bool Sess::canMerge(const TokenId t, const TokenId a) {
  if (t == a || !t->isInactive() || !a->isActive() || t->getPredicateName() != a->getPredicateName()) return false;
  if (!t->getState()->lastDomain().isMember(Token::MERGED)) return false;
  if (t->isFact() && !a->isFact()) return false;
  for (TokenId m = a; !m.isNoId(); m = m->master()) if (m == t) return false;
  for (size_t i = 1; i < t->getVariables().size(); i++) {
    const Domain& x = t->getVariables()[i]->lastDomain(); const Domain& y = a->getVariables()[i]->lastDomain(); const Domain& bx = t->getVariables()[i]->baseDomain(); const Domain& by = a->getVariables()[i]->baseDomain();
    if (x.isEmpty() || y.isEmpty() || !x.intersects(y) || !bx.intersects(by)) return false;
    for (auto& mt : a->getMergedTokens()) if (!mt->getVariables()[i]->baseDomain().intersects(bx)) return false;
  }
  // common base value over all of them
  for (size_t i = 1; i < t->getVariables().size(); i++) {
    Domain* d = t->getVariables()[i]->baseDomain().copy(); d->intersect(a->getVariables()[i]->lastDomain()); bool e = d->isEmpty();
    for (auto& mt : a->getMergedTokens()) if (!e) { d->intersect(mt->getVariables()[i]->baseDomain()); e = d->isEmpty(); } delete d; if (e) return false;
  }
  return true;
}
// The interface requires client constraints to be deleted before the token they are on.
bool Sess::constrained(const TokenId t) {
  for (auto& c : cons) { ConstraintId k = con(c.second.first); if (k.isNoId()) continue; for (auto& v : k->getScope()) if (v->parent() == EntityId(t)) return true; }
  return false;
}
// t, or something which goes when t goes, is the token with key e
bool Sess::carries(const TokenId t, eint e) { for (TokenId u = tok(e); !u.isNoId(); u = u->master()) if (u == t || (u->isMerged() && u->getActiveToken() == t)) return true; return false; }
// something merged on a subgoal of t
bool Sess::supports(const TokenId t) { for (auto& x : t->slaves()) if (!x->getMergedTokens().empty() || supports(x)) return true; return false; }
bool Sess::propagate() { bool r = p.propagate(); dirty = false; return r; }

static bool tempName(const std::string& n) { return n == "precedes" || n == "strictlyPrecedes" || n == "concurrent" || n == "temporalDistance"; }

bool Sess::apply(const Op& op) {
  DbClientId cl = p.cl; std::ostringstream tx; Dec d; d.a = d.b = d.o = eint(-1); d.con = -1; d.kind = D_CAN;
  auto arg = [&](int i, int n) { return n <= 0 ? 0 : op.a[i] % n; };
  auto pick = [&](std::vector<TokenId>& v, int i) { return v[(size_t)arg(i, (int)v.size())]; };
  bool relaxOnly = !p.cons();
  bool done = true, dec = false;
  switch (op.k) {
  case O_TOK: {
    if (p.tokens().size() > 14) return false;
    int pr = arg(0, (int)m.preds.size()); bool rej = op.a[1] % 3 == 0, fact = !rej && op.a[2] % 6 == 0;
    // facts are for ground problem statements; they may not be rejectable
    TokenId t = cl->createToken(m.predName(pr), "", rej, fact); p.refresh(); tx << "create " << p.nameOf(t) << " " << m.predName(pr) << (rej ? " rejectable" : "") << (fact ? " fact" : ""); d.kind = D_TOK; d.a = t->getKey(); dec = true; break; }
  case O_ACT: {
    if (relaxOnly) return false; auto v = filter([](const TokenId t) { return t->isInactive() && t->getState()->lastDomain().isMember(Token::ACTIVE); }); if (v.empty()) return false; TokenId t = pick(v, 0);
    tx << "activate " << p.nameOf(t); cl->activate(t); d.a = t->getKey(); dec = true; break; }
  case O_MERGE: {
    if (relaxOnly) return false; std::vector<std::pair<TokenId, TokenId>> v; auto all = p.tokens(); for (auto& t : all) if (t->isInactive()) for (auto& a : all) if (canMerge(t, a)) v.push_back(std::make_pair(t, a)); if (v.empty()) return false;
    if (op.a[2] % 3 == 0) { auto w = v; w.erase(std::remove_if(w.begin(), w.end(), [](const std::pair<TokenId, TokenId>& x) { return x.second->master().isNoId(); }), w.end()); if (!w.empty()) v = w; }   // slaves carry other tokens
    auto pr = v[(size_t)arg(0, (int)v.size())]; tx << "merge " << p.nameOf(pr.first) << " -> " << p.nameOf(pr.second); cl->merge(pr.first, pr.second); d.a = pr.first->getKey(); dec = true; break; }
  case O_REJ: {
    auto v = filter([](const TokenId t) { return t->isInactive() && t->master().isNoId() && t->getState()->baseDomain().isMember(Token::REJECTED) && t->getState()->lastDomain().isMember(Token::REJECTED); }); if (v.empty() || relaxOnly) return false; TokenId t = pick(v, 0);
    tx << "reject " << p.nameOf(t); cl->reject(t); d.a = t->getKey(); dec = true; break; }
  case O_CAN: {
    auto v = filter([&](const TokenId t) {
      if (t->isInactive() || t->isCommitted() || (chrono && supports(t))) return false; if (!snap) return true;
      for (auto& x : decs) if (x.kind == D_ORD && (carries(t, x.a) || carries(t, x.b))) return false;
      for (auto& x : decs) if (x.kind == D_CAN && x.a == t->getKey()) return true; return false; });
    if (v.empty()) return false;
    if (op.a[2] % 3 == 0) {   // a master whose slaves carry other tokens, or a token carried by one which has lost its master
      std::vector<TokenId> w; for (auto& t : v) { bool in = t->isMerged() && t->getActiveToken()->master().isNoId() && p.nameOf(t->getActiveToken()).find('/') != std::string::npos; for (auto& x : t->slaves()) if (!x->getMergedTokens().empty()) in = true; if (in) w.push_back(t); }
      if (!w.empty()) v = w; }
    TokenId t = pick(v, 0); eint k = t->getKey();
    tx << "cancel " << p.nameOf(t); cl->cancel(t); for (size_t i = 0; i < decs.size(); i++) if (decs[i].kind == D_CAN && decs[i].a == k) { decs.erase(decs.begin() + (long)i); break; } break; }
  case O_DELT: {
    auto v = filter([&](const TokenId t) {
      if (!t->master().isNoId() || p.nameOf(t).find('/') != std::string::npos || t->isCommitted() || (!t->isInactive() && !t->isFact()) || constrained(t)) return false;
      if (chrono) { if (supports(t)) return false; for (auto& u : p.tokens()) if (u->master().isNoId() && t->getKey() < u->getKey()) return false; }
      if (!snap) return true; for (auto& x : decs) if (x.kind == D_ORD && (carries(t, x.a) || carries(t, x.b))) return false;
      for (auto& x : decs) if (x.kind == D_TOK && x.a == t->getKey()) return true; return false; });
    if (v.empty()) return false; TokenId t = pick(v, 0); eint k = t->getKey(); tx << "delete " << p.nameOf(t); cl->deleteToken(t); for (size_t i = 0; i < decs.size(); i++) if (decs[i].kind == D_TOK && decs[i].a == k) { decs.erase(decs.begin() + (long)i); break; } break; }
  case O_SPEC: {
    if (relaxOnly) return false; std::vector<ConstrainedVariableId> v;
    for (auto& t : p.tokens()) { if (t->isMerged() || t->isRejected()) continue;
      for (size_t i = 1; i < t->getVariables().size(); i++) { ConstrainedVariableId x = t->getVariables()[i]; if (x->isActive() && x->canBeSpecified() && !x->isSpecified() && !x->lastDomain().isEmpty() && !x->baseDomain().isOpen()) v.push_back(x); }
      std::map<std::string, ConstrainedVariableId> loc; for (auto& x : t->getLocalVariables()) if (x->isActive() && x->canBeSpecified() && !x->isSpecified() && !x->baseDomain().isEmpty() && !x->lastDomain().isEmpty() && x->getName()[0] == 'l') loc[x->getName()] = x; for (auto& y : loc) v.push_back(y.second); }
    if (v.empty()) return false; ConstrainedVariableId x = v[(size_t)arg(0, (int)v.size())];
    bool wide = !dirty && op.a[2] % 4 == 3; const Domain& dd = wide ? x->baseDomain() : x->lastDomain(); edouble val;
    if (dd.isInterval()) { long lo = tnum(dd.getLowerBound()), hi = tnum(dd.getUpperBound()); if (lo <= -INFL) lo = std::min(0L, hi); if (hi >= INFL) hi = lo + 20; long span = std::min(hi - lo, 24L) + 1; long vv = lo + op.a[1] % span; val = edouble((double)vv); if (!x->baseDomain().isMember(val)) return false; }
    else { std::list<edouble> l; dd.getValues(l); std::vector<std::pair<std::string, edouble>> vs; for (auto& e : l) { std::string s; if (p.db->getSchema()->isObjectType(dd.getTypeName())) { ObjectId ob = Entity::getTypedEntity<Object>(e); s = ob->getName(); } else if (dd.isSymbolic()) s = LabelStr(e).toString(); else s = std::to_string(1000 + (int)tnum(e)); vs.push_back(std::make_pair(s, e)); } std::sort(vs.begin(), vs.end(), [](const std::pair<std::string, edouble>& a, const std::pair<std::string, edouble>& b) { return a.first < b.first; }); val = vs[(size_t)arg(1, (int)vs.size())].second; }
    // a value excluded by a token merged onto this one is a contradictory request, not a conflict
    if (TokenId::convertable(x->parent())) { TokenId t = x->parent(); for (auto& mt : t->getMergedTokens()) if (!t->isInactive() && x->getIndex() < mt->getVariables().size() && mt->getVariables()[x->getIndex()]->getName() == x->getName() && !mt->getVariables()[x->getIndex()]->baseDomain().isMember(val)) return false; }
    tx << "specify " << p.nameOf(x) << " = " << (dd.isInterval() || !dd.isSymbolic() ? show(tnum(val)) : p.db->getSchema()->isObjectType(dd.getTypeName()) ? Entity::getTypedEntity<Object>(val)->getName() : LabelStr(val).toString()); cl->specify(x, val); d.kind = D_SPEC; d.a = x->getKey(); dec = true; break; }
  case O_RST: {
    std::vector<ConstrainedVariableId> v;
    auto ok = [&](const ConstrainedVariableId x) { if (!x->isActive() || !x->isSpecified() || !x->canBeSpecified() || x->baseDomain().isSingleton()) return false; if (!snap) return true; for (auto& y : decs) if (y.kind == D_SPEC && y.a == x->getKey()) return true; return false; };
    for (auto& t : p.tokens()) { for (size_t i = 1; i < t->getVariables().size(); i++) if (ok(t->getVariables()[i])) v.push_back(t->getVariables()[i]); std::map<std::string, ConstrainedVariableId> loc; for (auto& x : t->getLocalVariables()) if (x->getName()[0] == 'l' && ok(x)) loc[x->getName()] = x; for (auto& y : loc) v.push_back(y.second); }
    if (v.empty()) return false; ConstrainedVariableId x = v[(size_t)arg(0, (int)v.size())]; tx << "reset " << p.nameOf(x); eint k = x->getKey(); cl->reset(x); for (size_t i = 0; i < decs.size(); i++) if (decs[i].kind == D_SPEC && decs[i].a == k) { decs.erase(decs.begin() + (long)i); break; } break; }
  case O_RESTR: {
    if (relaxOnly || dirty || snap) return false; std::vector<ConstrainedVariableId> v;
    for (auto& t : p.tokens()) if (!t->isMerged() && !t->isRejected() && t->getMergedTokens().empty()) for (size_t i = 1; i < t->getVariables().size(); i++) { ConstrainedVariableId x = t->getVariables()[i]; if (x->isActive() && !x->isSpecified() && !x->lastDomain().isEmpty() && x->lastDomain().isInterval() && x->lastDomain().isNumeric()) v.push_back(x); }
    if (v.empty()) return false; ConstrainedVariableId x = v[(size_t)arg(0, (int)v.size())]; const Domain& dd = x->lastDomain(); long lo = tnum(dd.getLowerBound()), hi = tnum(dd.getUpperBound());
    long nlo = lo, nhi = hi; if (op.a[1] % 3 != 0) { if (lo <= -INFL) nlo = std::min(-5L + op.a[2] % 10, hi); else nlo = std::min(hi, lo + op.a[2] % 4); } if (op.a[1] % 3 != 1) { if (hi >= INFL) nhi = std::max(nlo, 15L + op.a[3] % 20); else nhi = std::max(nlo, hi - op.a[3] % 4); }
    if (chrono && op.a[4] % 2) { if (op.a[5] % 2) nlo = std::min(nlo, tnum(x->baseDomain().getLowerBound())); else nhi = std::max(nhi, tnum(x->baseDomain().getUpperBound())); }   // wider than what has been inferred
    tx << "restrict " << p.nameOf(x) << " [" << show(nlo) << "," << show(nhi) << "]"; 
    IntervalIntDomain nd(nlo <= -INFL ? eint(MINUS_INFINITY) : eint(nlo), nhi >= INFL ? eint(PLUS_INFINITY) : eint(nhi)); cl->restrict(x, nd); break; }
  case O_CON: {
    if (relaxOnly) return false; auto v = filter([&](const TokenId t) { return !t->isRejected() && p.nameOf(t).find('/') == std::string::npos; }); if (v.size() < 2) return false; TokenId a = pick(v, 0), b = pick(v, 1); if (a == b) return false; int kind = op.a[2] % 6; if (temporalOnly && kind > 3) kind -= 2;
    std::string nm; std::vector<ConstrainedVariableId> sc; eint extra(-1);
    auto time = [&](const TokenId t, int x) -> ConstrainedVariableId { return x % 2 ? ConstrainedVariableId(t->start()) : ConstrainedVariableId(t->end()); };
    if (kind < 4) {
      nm = kind == 0 ? "precedes" : kind == 1 ? (op.a[6] % 2 ? "strictlyPrecedes" : "concurrent") : "temporalDistance"; ConstrainedVariableId x = time(a, op.a[3]), y = time(b, op.a[4]);
      if (kind >= 2) { long lo = op.a[5] % 30 - 10, hi = lo + op.a[6] % 15; int inf = op.a[7] % 6; std::string vn = "g" + std::to_string(p.nextVar++); ConstrainedVariableId dv = cl->createVariable("int", IntervalIntDomain(inf == 0 ? eint(MINUS_INFINITY) : eint(lo), inf == 1 ? eint(PLUS_INFINITY) : eint(hi)), vn); extra = dv->getKey(); sc = {x, dv, y}; tx << "dist[" << lo << "," << hi << "] " << inf << " "; }
      else sc = {x, y};
    } else {
      std::vector<std::pair<ConstrainedVariableId, ConstrainedVariableId>> c;
      if (kind == 4) { for (auto& x : a->parameters()) for (auto& y : b->parameters()) if (x->baseDomain().getTypeName() == y->baseDomain().getTypeName()) c.push_back(std::make_pair(x, y)); } else if (a->getObject()->baseDomain().getTypeName() == b->getObject()->baseDomain().getTypeName()) c.push_back(std::make_pair(ConstrainedVariableId(a->getObject()), ConstrainedVariableId(b->getObject())));
      if (c.empty()) return false; auto xy = c[(size_t)arg(3, (int)c.size())]; sc = {xy.first, xy.second}; const Domain& dd = xy.first->baseDomain();
      nm = dd.isInterval() && !dd.isBool() ? (op.a[4] % 2 ? "leq" : "eq") : dd.isNumeric() && !dd.isBool() ? (op.a[4] % 3 ? "leq" : "eq") : (op.a[4] % 3 ? "neq" : "eq");
    }
    ConstraintId c = cl->createConstraint(nm, sc); int id = p.nextCon++; cons[id] = std::make_pair(c->getKey(), extra); tx << "c" << id << " " << p.constraintText(c); d.kind = D_CON; d.con = id; d.a = c->getKey(); d.b = extra; dec = true; break; }
  case O_DELC: {
    std::vector<int> v; for (auto& c : cons) { if (con(c.second.first).isNoId()) continue; bool ok = !snap; for (auto& y : decs) if (y.kind == D_CON && y.con == c.first) ok = true; if (ok) v.push_back(c.first); } if (v.empty()) return false;
    int id = v[(size_t)arg(0, (int)v.size())]; tx << "delete c" << id; cl->deleteConstraint(con(cons[id].first)); if (!var(cons[id].second).isNoId()) cl->deleteVariable(var(cons[id].second)); cons.erase(id); for (size_t i = 0; i < decs.size(); i++) if (decs[i].kind == D_CON && decs[i].con == id) { decs.erase(decs.begin() + (long)i); break; } break; }
  case O_ORD: {
    if (relaxOnly) return false; if (dirty) { propagate(); if (!p.cons()) return false; }
    struct C { TimelineId tl; TokenId a, b; }; std::vector<C> v;
    for (auto& ob : p.objects()) if (TimelineId::convertable(ob)) {
      TimelineId tl = ob; const std::list<TokenId>& seq = tl->getTokenSequence(); std::set<eint> in; for (auto& t : seq) in.insert(t->getKey());
      for (auto& t : p.tokens()) { if (!t->isActive() || in.count(t->getKey()) || ordered(t) || t->getObject()->lastDomain().isEmpty() || !t->getObject()->lastDomain().isMember(ob->getKey())) continue;
        if (seq.empty()) { v.push_back(C{tl, t, t}); continue; }
        bool any = op.a[1] % 5 == 4;      // sometimes a position which is impossible
        if (!any) { std::vector<std::pair<TokenId, TokenId>> ch; tl->getOrderingChoices(t, ch); for (auto& x : ch) if (tl->getPrecedenceConstraint(x.first, x.second).isNoId()) v.push_back(C{tl, x.first, x.second}); }
        else for (auto& s : seq) { if (tl->getPrecedenceConstraint(t, s).isNoId()) v.push_back(C{tl, t, s}); if (tl->getPrecedenceConstraint(s, t).isNoId()) v.push_back(C{tl, s, t}); } } }
    if (v.empty()) return false; C& x = v[(size_t)arg(0, (int)v.size())]; tx << "order " << x.tl->getName() << " " << p.nameOf(x.a) << " < " << p.nameOf(x.b); cl->constrain(x.tl, x.a, x.b); d.kind = D_ORD; d.a = x.a->getKey(); d.b = x.b->getKey(); d.o = x.tl->getKey(); dec = true; break; }
  case O_UNORD: {
    if (dirty) { propagate(); } if (!p.cons()) return false;
    struct C { TimelineId tl; TokenId a, b; }; std::vector<C> v;
    for (auto& ob : p.objects()) if (TimelineId::convertable(ob)) { TimelineId tl = ob; const std::list<TokenId>& seq = tl->getTokenSequence(); std::vector<TokenId> s(seq.begin(), seq.end());
      for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) if (!tl->getPrecedenceConstraint(s[i], s[j]).isNoId()) { 
        if (snap && (decs.empty() || decs.back().kind != D_ORD || decs.back().a != s[i]->getKey() || decs.back().b != s[j]->getKey())) continue;
        v.push_back(C{tl, s[i], s[j]}); } }
    if (v.empty()) return false; C& x = v[(size_t)arg(0, (int)v.size())]; tx << "unorder " << x.tl->getName() << " " << p.nameOf(x.a) << " < " << p.nameOf(x.b); last = tx.str() + " !"; cl->free(x.tl, x.a, x.b); if (snap) decs.pop_back(); break; }
  case O_PROP: propagate(); tx << "propagate " << (p.cons() ? "consistent" : "INCONSISTENT"); break;
  case O_SNAP: { if (snap) return false; propagate(); if (!p.cons()) return false; decs.clear(); snap = true; snapDump = p.dump(); tx << "snapshot"; break; }
  default: done = false;
  }
  if (!done) return false;
  if (op.k != O_PROP && op.k != O_SNAP) dirty = true;
  last = tx.str(); p.refresh(); d.text = last; if (dec && snap) decs.push_back(d);
  if (ctx && ctx->verbose && getenv("SIM_DUMP")) fprintf(stdout, "%s%s\n", last.c_str(), p.dump().c_str());
  if (ctx) { ctx->ev(last); ctx->count(std::string("op:") + g_sops[op.k]); if (g_ctx && g_ctx->verbose) fprintf(stderr, "    %s\n", last.c_str()); }
  return true;
}

bool Sess::undoOne(Rng& r) {
  // drop decisions which vanished together with what they were about
  auto moot = [&](const Dec& d) {
    switch (d.kind) {
      case D_TOK: return tok(d.a).isNoId();
      case D_CAN: { TokenId t = tok(d.a); return t.isNoId() || t->isInactive(); }
      case D_SPEC: { ConstrainedVariableId v = var(d.a); return v.isNoId() || !v->isSpecified(); }
      case D_CON: return con(d.a).isNoId() && var(d.b).isNoId();
      default: { ObjectId o = Entity::getEntity(d.o); TokenId a = tok(d.a), b = tok(d.b); if (a.isNoId() || b.isNoId()) return true; if (a != b) return o->getPrecedenceConstraint(a, b).isNoId(); const std::list<TokenId>& sq = TimelineId(o)->getTokenSequence(); return std::find(sq.begin(), sq.end(), a) == sq.end(); }
    } };
  for (size_t i = 0; i < decs.size();) if (moot(decs[i])) decs.erase(decs.begin() + (long)i); else i++;
  if (decs.empty()) return false;
  std::vector<size_t> ok; bool laterOrd = false;
  for (size_t k = decs.size(); k-- > 0;) {
    Dec& d = decs[k]; bool can = true;
    if (d.kind == D_ORD) { can = !laterOrd; laterOrd = true; }
    if (d.kind == D_CAN || d.kind == D_TOK) {      // nothing which the token carries may be ordered since the snapshot
      TokenId t = tok(d.a); for (auto& x : decs) if (x.kind == D_ORD) { for (eint e : {x.a, x.b}) if (carries(t, e)) can = false; }
      if (d.kind == D_TOK && ((!t->isInactive() && !t->isFact()) || constrained(t))) can = false;
      // cancelling a merge may delete an orphaned active token
      if (t->isMerged() && laterOrd) can = false;
    }
    if (d.kind == D_SPEC) { ConstrainedVariableId v = var(d.a); if (!v->isActive()) can = false; bool ord = false; for (auto& x : decs) if (x.kind == D_ORD) ord = true; if (ord) can = false; }
    if (can) ok.push_back(k);
  }
  if (ok.empty()) throw Stop{"nothing can be undone"};
  size_t k = ok[(size_t)r.below((int)ok.size())]; Dec d = decs[k]; decs.erase(decs.begin() + (long)k); last = "undo " + d.text; if (ctx) { ctx->ev(last); if (ctx->verbose) fprintf(stderr, "    %s\n", last.c_str()); }
  switch (d.kind) {
    case D_TOK: p.cl->deleteToken(tok(d.a)); break;
    case D_CAN: p.cl->cancel(tok(d.a)); break;
    case D_SPEC: p.cl->reset(var(d.a)); break;
    case D_CON: if (!con(d.a).isNoId()) p.cl->deleteConstraint(con(d.a)); if (!var(d.b).isNoId()) p.cl->deleteVariable(var(d.b)); cons.erase(d.con); break;
    case D_ORD: p.propagate(); p.cl->free(ObjectId(Entity::getEntity(d.o)), tok(d.a), tok(d.b)); break;
  }
  dirty = true; return true;
}
}
