// The checks on one plan at a propagated point, shared by the worlds: states and
// merging (C05), times and advice (C04), rules (C06), sequences and orderings (C07).
#pragma once
#include "sess.h"

namespace sim {
struct PlanChecks {
  Sess s; Ctx* ctx = nullptr; bool pure = false;
  static std::string diff(const std::string& a, const std::string& b) {
    std::multiset<std::string> x, y; std::istringstream ia(a), ib(b); std::string l; while (std::getline(ia, l)) x.insert(l); while (std::getline(ib, l)) y.insert(l); std::string o; for (auto& q : x) { auto it = y.find(q); if (it == y.end()) o += "  before: " + q + "\n"; else y.erase(it); } for (auto& q : y) o += "  after:  " + q + "\n"; return o;
  }

  // ---- C05 ------------------------------------------------------------------
  void states() {
    for (auto& t : s.p.tokens()) {
      std::string n = s.p.nameOf(t); int k = (t->isActive() ? 1 : 0) + (t->isInactive() ? 1 : 0) + (t->isMerged() ? 1 : 0) + (t->isRejected() ? 1 : 0);
      if (k != 1) VFAIL("state", n << " is in " << k << " states");
      if (t->isMerged()) { TokenId a = t->getActiveToken(); if (a.isNoId() || !a->isActive()) VFAIL("merged-without-active", n << " is merged but its supporting token is not active"); if (!a->getMergedTokens().count(t)) VFAIL("merged-link", n << " is not listed by the token it is merged with"); if (a->getPredicateName() != t->getPredicateName()) VFAIL("merged-predicate", n); if (!t->slaves().empty()) VFAIL("merged-with-slaves", n << " is merged and still has subgoals"); }
      else { if (!t->getActiveToken().isNoId()) VFAIL("stale-active", n << " is not merged and names an active token"); }
      for (auto& m : t->getMergedTokens()) if (m->getActiveToken() != t) VFAIL("merged-link", s.p.nameOf(m) << " is listed by " << n << " but not merged with it");
      if (!t->isActive() && !t->slaves().empty()) VFAIL("inactive-with-slaves", n << " is not active and still has subgoals");
      if (!t->isActive() && !t->getMergedTokens().empty()) VFAIL("inactive-supports", n << " is not active and supports merged tokens");
    }
  }
  void merged() {
    states(); std::multiset<std::string> all; for (auto& c : s.p.ce->getConstraints()) if (c->isActive() || c->isRedundant()) all.insert(s.p.constraintText(c));
    for (auto& t : s.p.tokens()) if (t->isMerged()) {
      TokenId a = t->getActiveToken(); ctx->probe("merged-token-checked");
      for (size_t i = 1; i < t->getVariables().size(); i++) {
        ConstrainedVariableId x = t->getVariables()[i], y = a->getVariables()[i];
        if (x->isActive()) VFAIL("merged-variable-active", s.p.nameOf(x));
        if (!x->baseDomain().isOpen() && !y->lastDomain().isSubsetOf(x->baseDomain())) VFAIL("restriction-lost", s.p.nameOf(y) << " " << s.p.dom(y->lastDomain()) << " is wider than the base domain of merged " << s.p.nameOf(x) << " " << s.p.dom(x->baseDomain()));
        if (x->isSpecified() && !(y->lastDomain().isSingleton() && y->lastDomain().getSingletonValue() == x->getSpecifiedValue())) VFAIL("specification-lost", s.p.nameOf(x) << " is specified and merged but " << s.p.nameOf(y) << " is " << s.p.dom(y->lastDomain()));
        std::set<ConstraintId> cs; x->constraints(cs);
        for (auto& c : cs) { if (t->isStandardConstraint(c)) continue; std::string tx = c->getName() + "("; bool f = true; 
          for (auto& v : c->getScope()) { ConstrainedVariableId w = v; // the scope as seen from the tokens which stand for the merged ones
            for (int g = 0; g < 20; g++) { if (!TokenId::convertable(w->parent())) break; TokenId wt = w->parent(); if (!wt->isMerged() || w->getName() == "state" ) break; if (w->getIndex() >= wt->getActiveToken()->getVariables().size() || wt->getVariables()[w->getIndex()] != w) break; w = wt->getActiveToken()->getVariables()[w->getIndex()]; }
            tx += (f ? "" : ", ") + s.p.nameOf(w); f = false; }
          tx += ")"; if (!all.count(tx)) VFAIL("constraint-lost", "constraint " << s.p.constraintText(c) << " of merged " << s.p.nameOf(t) << " is not in force as " << tx); }
      }
    }
  }

  // ---- C04 ------------------------------------------------------------------
  void times(const Op& op) {
    TOracle o; bool ok = s.p.cons();
    if (!ok) { if (pure) { o.build(s.p); if (o.sat) { std::string e; for (auto& v : s.p.ce->getVariables()) if (v->lastDomain().isEmpty()) e += " " + s.p.nameOf(v) + (v->isActive() ? "" : "(off)"); VFAIL("false-inconsistent", "the plan is inconsistent although its temporal constraints are satisfiable; empty:" << e << (s.p.ce->provenInconsistent() ? " proven" : "")); } ctx->probe("inconsistent-confirmed"); } return; }
    o.build(s.p); if (!o.sat) VFAIL("missed-inconsistency", "the temporal constraints are unsatisfiable but the plan is consistent after propagation");
    for (size_t i = 1; i < o.vars.size(); i++) { const Domain& d = o.vars[i]->lastDomain(); long lo = tnum(d.getLowerBound()), hi = tnum(d.getUpperBound()); if (lo != o.lo((int)i) || hi != o.hi((int)i)) VFAIL("bounds", s.p.nameOf(o.vars[i]) << " is " << s.p.dom(d) << " but the constraints imply [" << show(o.lo((int)i)) << "," << show(o.hi((int)i)) << "]"); ctx->count("bounds_checked"); }
    for (auto& t : s.p.tokens()) if (!t->isMerged()) {
      int a = o.find(t->start()), b = o.find(t->end()); if (a < 0 || b < 0) continue; long hi = o.d[(size_t)a][(size_t)b], lo = o.d[(size_t)b][(size_t)a] >= INFL ? -INFL : -o.d[(size_t)b][(size_t)a]; const Domain& d = t->duration()->lastDomain(); long l = tnum(d.getLowerBound()), h = tnum(d.getUpperBound());
      if (l > lo || h < hi) VFAIL("duration-too-narrow", s.p.nameOf(t) << ".duration is " << s.p.dom(d) << ", implied [" << show(lo) << "," << show(hi) << "]");
      if (l < lo || h > hi) { // also implied by the bounds of start and end
        ctx->count("duration_loose"); long blo = o.lo(b) <= -INFL || o.hi(a) >= INFL ? -INFL : o.lo(b) - o.hi(a), bhi = o.hi(b) >= INFL || o.lo(a) <= -INFL ? INFL : o.hi(b) - o.lo(a);
        if (l < std::max(std::min(lo, lo), -INFL) && (l < blo || true) && strictDur) VFAIL("duration-too-wide", s.p.nameOf(t) << ".duration is " << s.p.dom(d) << ", implied [" << show(lo) << "," << show(hi) << "] " << blo << " " << bhi); }
    }
    advice(op, o);
  }
  bool strictDur = false;
  void advice(const Op& op, TOracle& o) {
    TemporalAdvisorId adv = s.p.db->getTemporalAdvisor(); auto act = s.filter([](const TokenId t) { return t->isActive(); }); Rng r((uint64_t)op.uid * 7919 + (uint64_t)op.a[0] + ctx->sched); if (act.empty()) return;
    auto feas = [&](std::vector<std::pair<int, int>> le) { // a <= b for each
      TOracle q = o; for (auto& e : le) q.d[(size_t)e.second][(size_t)e.first] = std::min(q.d[(size_t)e.second][(size_t)e.first], 0L); q.close(); return q.sat; };
    for (int k = 0; k < 6; k++) {
      TokenId x = r.pick(act), y = r.pick(act), z = r.pick(act); int xs = o.find(x->start()), xe = o.find(x->end()), ys = o.find(y->start()), ye = o.find(y->end()), zs = o.find(z->start()), ze = o.find(z->end());
      if (x != y) {
        bool f = feas({{xe, ys}}), got = adv->canPrecede(x, y); if (f && !got) VFAIL("advice-precede", s.p.nameOf(x) << " can end before " << s.p.nameOf(y) << " starts but the advisor says no"); ctx->count(got ? "advice_yes" : "advice_no"); if (!f && got) ctx->count("advice_optimistic");
        bool fs = feas({{xs, ye}}); bool g2 = adv->canPrecede(TimeVarId(x->start()), TimeVarId(y->end())); if (fs && !g2) VFAIL("advice-precede-var", s.p.nameOf(x) << ".start can precede " << s.p.nameOf(y) << ".end but the advisor says no");
        bool fc = feas({{xs, ys}, {ys, xs}, {xe, ye}, {ye, xe}}); if (fc && !adv->canBeConcurrent(x, y)) VFAIL("advice-concurrent", s.p.nameOf(x) << " and " << s.p.nameOf(y) << " can be concurrent but the advisor says no");
        if (z != x && z != y) { bool fb = feas({{ye, xs}, {xe, zs}}); if (fb && !adv->canFitBetween(x, y, z)) VFAIL("advice-fit", s.p.nameOf(x) << " can fit between " << s.p.nameOf(y) << " and " << s.p.nameOf(z) << " but the advisor says no"); }
      }
      (void)ze; ConstrainedVariableId v[4] = {x->start(), x->end(), y->start(), y->end()}; int ix[4] = {xs, xe, ys, ye}; int i = r.below(4), j = r.below(4); if (v[i] == v[j]) continue;
      IntervalIntDomain dd = adv->getTemporalDistanceDomain(TempVarId(v[i]), TempVarId(v[j]), true); long lo = o.d[(size_t)ix[j]][(size_t)ix[i]] >= INFL ? -INFL : -o.d[(size_t)ix[j]][(size_t)ix[i]], hi = o.d[(size_t)ix[i]][(size_t)ix[j]];
      if (tnum(dd.getLowerBound()) != lo || tnum(dd.getUpperBound()) != hi) VFAIL("distance", "distance from " << s.p.nameOf(v[i]) << " to " << s.p.nameOf(v[j]) << " reported " << s.p.dom(dd) << ", implied [" << show(lo) << "," << show(hi) << "]");
      ctx->count("distances_checked");
      IntervalIntDomain ap = adv->getTemporalDistanceDomain(TempVarId(v[i]), TempVarId(v[j]), false); if (tnum(ap.getLowerBound()) > lo || tnum(ap.getUpperBound()) < hi) VFAIL("distance-approx", "approximate distance from " << s.p.nameOf(v[i]) << " to " << s.p.nameOf(v[j]) << " " << s.p.dom(ap) << " excludes values of [" << show(lo) << "," << show(hi) << "]");
      std::vector<ConstrainedVariableId> sec; std::vector<int> six; for (auto& t : act) if (t->end() != v[i]) { sec.push_back(t->end()); six.push_back(o.find(t->end())); }
      if (!sec.empty()) { std::vector<IntervalIntDomain> ds; adv->getTemporalDistanceDomains(v[i], sec, ds); if (ds.size() != sec.size()) VFAIL("distance-vector", "wrong length"); for (size_t q = 0; q < sec.size(); q++) { long l2 = o.d[(size_t)six[q]][(size_t)ix[i]] >= INFL ? -INFL : -o.d[(size_t)six[q]][(size_t)ix[i]], h2 = o.d[(size_t)ix[i]][(size_t)six[q]]; if (tnum(ds[q].getLowerBound()) != l2 || tnum(ds[q].getUpperBound()) != h2) VFAIL("distance-vector", "distance from " << s.p.nameOf(v[i]) << " to " << s.p.nameOf(sec[q]) << " reported " << s.p.dom(ds[q]) << ", implied [" << show(l2) << "," << show(h2) << "]"); } }
    }
  }

  // ---- C06 ------------------------------------------------------------------
  ConstrainedVariableId resolve(const TokenId t, const std::map<int, TokenId>& sub, const std::map<int, ConstrainedVariableId>& loc, const std::string& e) {
    if (e[0] == 'a') return t->getVariable(e); 
    if (e[0] == 'l') { auto it = loc.find(atoi(e.c_str() + 1)); return it == loc.end() ? ConstrainedVariableId::noId() : it->second; }
    auto it = sub.find(atoi(e.c_str() + 1)); if (it == sub.end()) return ConstrainedVariableId::noId(); size_t dot = e.find('.'); return it->second->getVariable(e.substr(dot + 1));
  }
  void walk(const MPred& p, int b, const TokenId t, std::map<int, TokenId> sub, std::map<int, ConstrainedVariableId> loc, std::multiset<std::string>& wantSub, std::multiset<std::string>& wantLoc, std::multiset<std::string>& wantCon) {
    for (auto& st : p.blocks[(size_t)b].stmts) {
      if (st.kind == ST_SUB) {
        std::string rel = g_rels[st.rel], key = rel + "." + "P" + std::to_string(st.pred); wantSub.insert(key);
        for (auto& sl : t->slaves()) if (sl->getRelation() == rel && predOf(s.m, sl) == st.pred) sub[st.id] = sl;
        if (st.x == "own" && sub.count(st.id)) wantCon.insert("eq(" + s.p.nameOf(t) + ".object, " + s.p.nameOf(sub[st.id]) + ".object)");
      } else if (st.kind == ST_LOCAL) { wantLoc.insert(st.cname); for (auto& v : t->getLocalVariables()) if (v->getName() == st.cname) loc[st.id] = v; }
      else if (st.kind == ST_CON) { ConstrainedVariableId x = resolve(t, sub, loc, st.x), y = resolve(t, sub, loc, st.y); if (x.isNoId() || y.isNoId()) VFAIL("rule-missing-variable", "rule of " << s.p.nameOf(t) << ": " << st.text << " refers to something which is not there"); wantCon.insert(st.cname + "(" + s.p.nameOf(x) + ", " + s.p.nameOf(y) + ")"); }
      else {
        ConstrainedVariableId g = resolve(t, sub, loc, st.g.expr); if (g.isNoId()) VFAIL("rule-missing-variable", "guard " << st.text << " of " << s.p.nameOf(t));
        if (!g->isActive() && false) continue;
        bool set = g->isSpecified() || g->baseDomain().isSingleton(); const Domain& d = g->lastDomain();
        if (!set) continue;
        if (!d.isSingleton()) VFAIL("guard-domain", s.p.nameOf(g) << " is specified but its domain is " << s.p.dom(d));
        std::string v = s.p.dom(d), want = Model::valueText(st.g.type, st.g.value); bool eq;
        if (st.g.type == T_ENUM) eq = v == "{" + want + "}"; else if (st.g.type == T_BOOL) eq = (tnum(d.getSingletonValue()) != 0) == (want == "true"); else eq = tnum(d.getSingletonValue()) == atol(want.c_str());
        bool holds = st.g.rel == 0 ? eq : !eq; ctx->count(holds ? "guards_true" : "guards_false");
        if (holds) walk(p, st.thenB, t, sub, loc, wantSub, wantLoc, wantCon); else if (st.elseB >= 0) walk(p, st.elseB, t, sub, loc, wantSub, wantLoc, wantCon);
      }
    }
  }
  static std::string showM(const std::multiset<std::string>& m) { std::string o; for (auto& x : m) o += " " + x; return o; }
  void rules() {
    // constraints which only rules can have posted, by the token whose rule did it
    std::set<eint> user; for (auto& c : s.cons) user.insert(c.second.first);
    std::multiset<std::string> migrated;   // surrogates which merging has put on the supporting tokens
    for (auto& t : s.p.tokens()) if (t->isMerged()) { TokenId a = t->getActiveToken(); std::set<ConstraintId> cs; for (size_t i = 1; i < t->getVariables().size(); i++) t->getVariables()[i]->constraints(cs);
      for (auto& c : cs) if (!t->isStandardConstraint(c)) { std::string tx = c->getName() + "("; bool f = true; for (auto& v : c->getScope()) { ConstrainedVariableId w = v; if (v->parent() == EntityId(t)) w = a->getVariables()[v->getIndex()]; tx += (f ? "" : ", ") + s.p.nameOf(w); f = false; } std::string nm = c->getName(); bool allV = c->getScope().size() == 2; for (auto& v : c->getScope()) { const std::string& x = v->getName(); if (!(x == "object" || ((x[0] == 'a' || x[0] == 'l') && x.size() > 1 && isdigit(x[1])))) allV = false; } if (allV && (nm == "eq" || nm == "neq" || nm == "leq")) migrated.insert(tx + ")"); } }
    std::multiset<std::string> wantAll, gotAll;
    for (auto& t : s.p.tokens()) {
      std::multiset<std::string> ws, wl, wc, gs, gl; int pi = predOf(s.m, t); const MPred& p = s.m.preds[(size_t)pi];
      for (auto& sl : t->slaves()) gs.insert(sl->getRelation() + "." + sl->getUnqualifiedPredicateName());
      for (auto& v : t->getLocalVariables()) if (v->getName().size() > 1 && v->getName()[0] == 'l' && isdigit(v->getName()[1])) gl.insert(v->getName());
      if (t->isActive()) { walk(p, 0, t, {}, {}, ws, wl, wc); ctx->probe(ws.empty() && wc.empty() && wl.empty() ? "rule:nothing-prescribed" : "rule:prescribed"); }
      if (ws != gs) VFAIL("subgoals", s.p.nameOf(t) << " should have subgoals [" << showM(ws) << " ] but has [" << showM(gs) << " ]");
      if (wl != gl) VFAIL("locals", s.p.nameOf(t) << " should have local variables [" << showM(wl) << " ] but has [" << showM(gl) << " ]");
      wantAll.insert(wc.begin(), wc.end()); bodyCons(t, wantAll);
    }
    wantAll.insert(migrated.begin(), migrated.end());
    // constraints by name and scope: those of the rules, of the predicate bodies and the surrogates of merging, nothing else
    for (auto& c : s.p.ce->getConstraints()) {
      std::string n = c->getName(); if (n != "eq" && n != "neq" && n != "leq") continue; if (user.count(c->getKey())) continue;
      const std::vector<ConstrainedVariableId>& sc = c->getScope(); if (sc.size() != 2) continue; auto isV = [](const std::string& x) { return x == "object" || ((x[0] == 'a' || x[0] == 'l') && x.size() > 1 && isdigit(x[1])); }; if (!isV(sc[0]->getName()) || !isV(sc[1]->getName())) continue;
      gotAll.insert(s.p.constraintText(c));
    }
    if (wantAll != gotAll) { std::multiset<std::string> miss, extra; std::set_difference(wantAll.begin(), wantAll.end(), gotAll.begin(), gotAll.end(), std::inserter(miss, miss.end())); std::set_difference(gotAll.begin(), gotAll.end(), wantAll.begin(), wantAll.end(), std::inserter(extra, extra.end()));
      VFAIL("rule-constraints", "constraints prescribed by the rules but missing [" << showM(miss) << " ] and present without a rule [" << showM(extra) << " ]"); }
  }
  // constraints of the predicate body relate parameters of one token only and exist once for every token
  void bodyCons(const TokenId t, std::multiset<std::string>& out) {
    for (auto& b : s.m.preds[(size_t)predOf(s.m, t)].body) { size_t o = b.find('('), c = b.find(", "), e = b.find(')'); std::string n = s.p.nameOf(t); out.insert(b.substr(0, o + 1) + n + "." + b.substr(o + 1, c - o - 1) + ", " + n + "." + b.substr(c + 2, e - c - 2) + ")"); }
  }

  // ---- C07 ------------------------------------------------------------------
  void sequences() {
    for (auto& ob : s.p.objects()) if (TimelineId::convertable(ob)) {
      TimelineId tl = ob; const std::list<TokenId>& seq = tl->getTokenSequence(); std::vector<TokenId> v(seq.begin(), seq.end()); std::set<eint> seen;
      for (auto& t : v) { if (!seen.insert(t->getKey()).second) VFAIL("duplicate", s.p.nameOf(t) << " is twice in the sequence of " << ob->getName() << ":" << s.seqText(tl)); if (!t->isActive()) VFAIL("sequence-inactive", s.p.nameOf(t) << " is in the sequence of " << ob->getName() << " but not active"); }
      for (size_t i = 0; i + 1 < v.size(); i++) {
        ConstraintId pc = tl->getPrecedenceConstraint(v[i], v[i + 1]); if (pc.isNoId()) VFAIL("unconstrained-neighbours", "no precedence between neighbours " << s.p.nameOf(v[i]) << " and " << s.p.nameOf(v[i + 1]) << " on " << ob->getName() << ":" << s.seqText(tl));
        if (pc->getName() != "precedes" || pc->getScope()[0] != ConstrainedVariableId(v[i]->end()) || pc->getScope()[1] != ConstrainedVariableId(v[i + 1]->start()) || !pc->isActive()) VFAIL("wrong-precedence", "precedence of neighbours is " << s.p.constraintText(pc));
      }
      for (auto& x : s.p.tokens()) for (auto& y : s.p.tokens()) if (x != y) { ConstraintId pc = tl->getPrecedenceConstraint(x, y); if (pc.isNoId()) continue; size_t i = 0, j = 0; for (; i < v.size() && v[i] != x; i++); for (; j < v.size() && v[j] != y; j++); if (i == v.size() || j == v.size()) VFAIL("stale-precedence", "precedence between " << s.p.nameOf(x) << " and " << s.p.nameOf(y) << " although not both are in the sequence of " << ob->getName() << ":" << s.seqText(tl)); if (i > j) VFAIL("order-contradiction", s.p.nameOf(x) << " precedes " << s.p.nameOf(y) << " but the sequence is" << s.seqText(tl)); }
      if (v.size() > 1) ctx->probe("sequence>1");
    }
  }
  void ordering() {
    sequences(); TOracle o; o.build(s.p);
    for (size_t i = 1; i < o.vars.size(); i++) { long lo = tnum(o.vars[i]->lastDomain().getLowerBound()), hi = tnum(o.vars[i]->lastDomain().getUpperBound()); if (hi < INFL) o.d[0][i] = std::min(o.d[0][i], hi); if (lo > -INFL) o.d[i][0] = std::min(o.d[i][0], -lo); }
    for (auto& t : s.p.tokens()) { int a = o.find(t->start()), b = o.find(t->end()); if (a < 0 || b < 0) continue; long lo = tnum(t->duration()->lastDomain().getLowerBound()), hi = tnum(t->duration()->lastDomain().getUpperBound()); if (hi < INFL) o.d[(size_t)a][(size_t)b] = std::min(o.d[(size_t)a][(size_t)b], hi); if (lo > -INFL) o.d[(size_t)b][(size_t)a] = std::min(o.d[(size_t)b][(size_t)a], -lo); }
    o.close(); if (!o.sat) return;
    std::map<eint, std::set<std::string>> want, got;
    for (auto& t : s.p.tokens()) if (t->isActive()) for (auto& ob : s.p.objects()) if (TimelineId::convertable(ob) && t->getObject()->lastDomain().isMember(ob->getKey())) { TimelineId tl = ob; bool in = false; for (auto& x : tl->getTokenSequence()) if (x == t) in = true; bool any = s.ordered(t); if (!in && !any) want[t->getKey()].insert(ob->getName()); }
    auto m = s.p.db->getTokensToOrder(); for (auto& e : m) for (auto& ob : e.second.second) got[e.first].insert(ob->getName());
    for (auto& e : want) if (got[e.first] != e.second) { TokenId t(Entity::getEntity(e.first)); VFAIL("to-order", s.p.nameOf(t) << " needs ordering on" << showS(e.second) << " but is reported for" << showS(got[e.first])); }
    for (auto& e : got) if (!e.second.empty() && want[e.first] != e.second) { TokenId t(Entity::getEntity(e.first)); VFAIL("to-order", s.p.nameOf(t) << " is reported for ordering on" << showS(e.second) << " but should be for" << showS(want[e.first])); }
    for (auto& e : m) {
      TokenId t = e.second.first; std::vector<OrderingChoice> ch; s.p.db->getOrderingChoices(t, ch); std::set<std::pair<std::string, std::pair<std::string, std::string>>> offered;
      for (auto& c : ch) if (!offered.insert(std::make_pair(c.first->getName(), std::make_pair(s.p.nameOf(c.second.first), s.p.nameOf(c.second.second)))).second) VFAIL("choice-duplicate", "a choice for " << s.p.nameOf(t) << " is offered twice");
      std::set<std::pair<std::string, std::pair<std::string, std::string>>> valid; std::string tn = s.p.nameOf(t); int ts = o.find(t->start()), te = o.find(t->end()); ctx->count("choice_queries");
      for (auto& ob : e.second.second) {
        TimelineId tl = ob; std::vector<TokenId> v(tl->getTokenSequence().begin(), tl->getTokenSequence().end());
        for (size_t i = 0; i <= v.size(); i++) {
          auto key = std::make_pair(ob->getName(), v.empty() ? std::make_pair(tn, tn) : i < v.size() ? std::make_pair(tn, s.p.nameOf(v[i])) : std::make_pair(s.p.nameOf(v.back()), tn)); valid.insert(key);
          TOracle q = o; auto le = [&](int a, int b) { q.d[(size_t)b][(size_t)a] = std::min(q.d[(size_t)b][(size_t)a], 0L); }; if (i > 0) le(o.find(v[i - 1]->end()), ts); if (i < v.size()) le(te, o.find(v[i]->start())); q.close();
          if (q.sat && !offered.count(key)) VFAIL("choice-missing", tn << " can go at position " << i << " of " << ob->getName() << ":" << s.seqText(tl) << " but it is not offered");
          ctx->count(q.sat ? "positions_possible" : "positions_impossible"); if (!q.sat && offered.count(key)) ctx->count("choices_optimistic");
        }
      }
      for (auto& x : offered) if (!valid.count(x)) VFAIL("choice-bogus", "choice " << x.second.first << "<" << x.second.second << " on " << x.first << " for " << tn << " is not a position of the sequence");
      if (s.p.db->countOrderingChoices(t) != ch.size()) VFAIL("choice-count", "counting the choices of " << tn << " disagrees with listing them");
      if (s.p.db->hasOrderingChoice(t) != !ch.empty()) VFAIL("choice-has", "hasOrderingChoice disagrees for " << tn);
    }
  }
  static std::string showS(const std::set<std::string>& m) { std::string o; for (auto& x : m) o += " " + x; return o.empty() ? " nothing" : o; }
};
} // namespace sim
