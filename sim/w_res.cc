// World "res": resources used by activities with flexible times and amounts,
// edited by clients in any order; envelopes, violations, flaws and ordering
// choices compared with what follows from the definition of a schedule. (C08)
#include "plan.h"
#include "solv.h"
#include "Resource.hh"
#include "Profile.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "Reservoir.hh"
#include "Reusable.hh"
using namespace EUROPA;
namespace sim {
namespace {
enum RKind { R_RES, R_REU, R_UNA }; enum RProf { P_TT, P_FLOW, P_IFLOW, P_GR }; enum RDet { D_CLOSED, D_OPEN, D_GR };
enum ROp { N_TOK, N_ACT, N_CAN, N_DEL, N_TIME, N_QTY, N_OBJ, N_RST, N_CON, N_DELC, N_PROP, N_HELP, N_SOLVE, N_NOP };
const char* const ropName[] = {"use", "activate", "cancel", "delete", "fix-time", "fix-amount", "choose-resource", "reset", "constrain", "unconstrain", "propagate", "activity", "solve"};
const char* const profName[] = {"TimetableProfile", "FlowProfile", "IncrementalFlowProfile", "GroundedProfile"};
const char* const detName[] = {"ClosedWorldFVDetector", "OpenWorldFVDetector", "GroundedFVDetector"};
const double BIG = 1e12;
struct RClass { int kind, prof, det, n; double cap, lo, hi, rate, sum; bool limited; };
struct Tx { TransactionId id; TokenId tok; int v; long lb, ub; double ql, qu; bool cons; };
struct Env { double lo, hi; };

struct ResWorld : World {
  Ctx* cx = nullptr; Plan p; std::vector<RClass> rc; std::vector<ObjectId> objs; std::vector<int> ocls; std::map<int, std::pair<eint, eint>> con; int nextCon = 0; bool dirty = false; std::string last; int horizon = 12; bool bridged = false, flow = false;

  void generate(Rng& r, const std::string&, Case& c) override {
    // cfg: 0 classes-1, 1 auto propagation, 2 agenda seed, 3 horizon, then per class: kind, profile, detector, instances-1, capacity, limits, rate/sum limit, -
    c.cfg = {r.below(3) == 0, r.below(3) == 0, r.below(1000), r.range(4, 16)};
    for (int k = 0; k < 2; k++) for (int x : std::vector<int>{r.below(5), r.below(6), r.below(4), r.below(3) == 0, r.below(8), r.below(6), r.below(1000), 0}) c.cfg.push_back(x);
    auto op = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); };
    std::vector<int> w = {14, 6, 5, 2, 14, 8, 5, 10, 12, 6, 14, 2, 0}; if (r.chance(1, 3)) w[N_SOLVE] = 2; for (auto& x : w) if (r.chance(1, 8)) x = 0; w[N_TOK] = 14; w[N_PROP] = 14;
    int tot = 0; for (auto& x : w) tot += x; int n = r.range(8, 45);
    for (int i = 0; i < n; i++) { if (i < 2) { op(N_TOK); continue; } int x = r.below(tot), k = 0; while (x >= w[(size_t)k]) x -= w[(size_t)k++]; op(k); }
    op(N_PROP);
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= 0 && op.k < N_NOP ? ropName[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  std::string model() {
    std::ostringstream o; auto num = [](double d) { if (d >= BIG) return std::string("+inff"); if (d <= -BIG) return std::string("-inff"); char b[40]; snprintf(b, sizeof b, "%.1f", d); return std::string(b); };
    o << "class Act { predicate a { } Act() {} }\n";
    for (size_t k = 0; k < rc.size(); k++) { RClass& c = rc[k]; const char* base[] = {"Reservoir", "Reusable", "Unary"};
      o << "class R" << k << " extends " << base[c.kind] << " { string profileType; string detectorType; R" << k << "() { super(";
      if (c.kind == R_RES) o << num(c.cap) << ", " << num(c.lo) << ", " << num(c.hi) << ", " << num(c.rate) << ", " << num(c.sum) << ", " << num(c.rate) << ", " << num(c.sum);
      else if (c.kind == R_REU) o << num(c.cap) << ", " << num(c.lo) << ", " << num(c.sum) << ", " << num(c.rate); else o << num(c.sum);
      o << "); profileType = \"" << profName[c.prof] << "\"; detectorType = \"" << detName[c.det] << "\"; } }\n"; }
    o << "Act act = new Act();\n"; for (size_t k = 0; k < rc.size(); k++) for (int i = 0; i < rc[k].n; i++) o << "R" << k << " r" << k << "_" << i << " = new R" << k << "();\n";
    return o.str();
  }
  void setup(const Case& c) {
    auto cf = [&](size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; }; rc.clear(); objs.clear(); ocls.clear(); con.clear(); nextCon = 0; dirty = false; horizon = std::max(2, cf(3)); bridged = cf(11) == 1; flow = false;
    for (int k = 0; k <= cf(0); k++) { size_t b = 4 + 8 * (size_t)k; RClass x; int kd = cf(b); x.kind = kd < 3 ? R_RES : kd < 4 ? R_REU : R_UNA; int pr = cf(b + 1); x.prof = pr < 2 ? P_TT : pr == 2 ? P_FLOW : pr < 5 ? P_IFLOW : P_GR;
      int d = cf(b + 2); x.det = x.prof == P_GR ? D_GR : d == 3 ? D_OPEN : D_CLOSED; x.n = 1 + cf(b + 3); x.cap = x.kind == R_UNA ? 1 : cf(b + 4); int l = cf(b + 5); x.lo = l == 0 ? -BIG : l == 1 ? -3 : 0; x.hi = l == 0 ? BIG : x.cap + l - 1; if (x.kind == R_REU) x.hi = BIG; if (x.kind == R_UNA) { x.lo = 0; x.hi = 1; }
      int m = cf(b + 6); bool tt = x.prof == P_TT || x.prof == P_GR; x.rate = x.sum = BIG; if (tt || x.det == D_OPEN) { if (m % 3 == 1) x.sum = 2 + m / 3 % 20; if (m % 3 == 2 && tt) x.rate = 1 + m / 3 % 8; } if (x.kind == R_UNA) x.rate = BIG; flow |= !tt; rc.push_back(x); }
  }
  int idn(const TokenId t) { return atoi(p.names.count(t->getKey()) ? p.names[t->getKey()].c_str() + 1 : "0"); }
  std::string nm(const TokenId t) { return p.nameOf(t); }
  std::vector<TokenId> toks(const std::function<bool(const TokenId)>& f) { std::vector<TokenId> r; for (auto& t : p.tokens()) if (f(t)) r.push_back(t); return r; }
  int clsOf(const TokenId t) { std::string s = t->getPredicateName(); return s[0] == 'R' && isdigit(s[1]) ? s[1] - '0' : -1; }
  std::vector<ConstrainedVariableId> tvars(const TokenId t) { std::vector<ConstrainedVariableId> v = {t->start()}; if (t->start() != t->end()) v.push_back(t->end()); return v; }
  ConstrainedVariableId qty(const TokenId t) { for (auto& v : t->getVariables()) if (v->getName() == "quantity") return v; return ConstrainedVariableId::noId(); }
  void propagate() { p.propagate(); p.refresh(); dirty = false; }

  // Orders between two transactions of a resource which follow only by way of other times do not reach flow profiles (known
  // finding C08-bridge): kept out, unless the case asks for them.
  bool bridge(const TokenId a, const TokenId b) { if (bridged || !flow) return false; return clsOf(a) < 0 || clsOf(b) < 0 || !a->isActive() || !b->isActive() || !a->getObject()->lastDomain().isSingleton() || !b->getObject()->lastDomain().isSingleton() || a->getObject()->lastDomain().getSingletonValue() != b->getObject()->lastDomain().getSingletonValue(); }
  void window(const ConstrainedVariableId v, int a, int b, bool fix) {
    long lo = a % horizon, hi = fix ? lo : lo + b % (horizon - lo + 1); if (a % 7 == 0) return;   // sometimes the whole line
    p.cl->restrict(v, IntervalIntDomain(eint(lo), eint(hi)));
  }
  bool apply(const Op& op) {
    DbClientId cl = p.cl; std::ostringstream tx; bool relaxOnly = !p.cons(); auto pick = [&](std::vector<TokenId>& v, int i) { return v[(size_t)(op.a[i] % (int)v.size())]; };
    switch (op.k) {
    case N_TOK: case N_HELP: {
      if (relaxOnly || p.tokens().size() >= 8) return false; int k = op.a[0] % (int)rc.size(); std::string pr = op.k == N_HELP ? "Act.a" : "R" + std::to_string(k) + (rc[(size_t)k].kind == R_RES ? (op.a[1] % 2 ? ".produce" : ".consume") : rc[(size_t)k].kind == R_REU ? ".uses" : ".use");
      TokenId t = cl->createToken(pr, "", false, false); p.refresh(); tx << "create " << nm(t) << " " << pr; bool fix = op.a[6] % 6 == 0; window(t->start(), op.a[2], op.a[3], fix);
      if (t->start() != t->end() && op.a[6] % 3 == 1) cl->restrict(t->duration(), IntervalIntDomain(1, 1 + op.a[4] % 6)); else if (t->start() != t->end() && op.a[6] % 3 == 2) { long hi = horizon + op.a[4] % 6; if (t->end()->lastDomain().getLowerBound() <= hi) cl->restrict(t->end(), IntervalIntDomain(MINUS_INFINITY, eint(hi))); }
      ConstrainedVariableId q = qty(t); if (!q.isNoId() && op.k == N_TOK && rc[(size_t)k].kind != R_UNA) { double lo = op.a[4] % 5, hi = op.a[5] % 3 ? lo : lo + op.a[5] % 4; if (op.a[5] % 11 == 10) lo += .5, hi += .5; cl->restrict(q, IntervalDomain(lo, hi)); }
      if (op.a[7] % 3 && t->isInactive()) cl->activate(t); tx << " [" << t->start()->lastDomain() << " " << t->end()->lastDomain() << "]"; break; }
    case N_ACT: { if (relaxOnly) return false; auto v = toks([](const TokenId t) { return t->isInactive(); }); if (v.empty()) return false; TokenId t = pick(v, 0); tx << "activate " << nm(t); cl->activate(t); break; }
    case N_CAN: { auto v = toks([](const TokenId t) { return t->isActive(); }); if (v.empty()) return false; TokenId t = pick(v, 0); tx << "cancel " << nm(t); cl->cancel(t); break; }
    case N_DEL: { auto v = toks([&](const TokenId t) { if (!t->isInactive()) return false; for (auto& c : con) { ConstraintId k(Entity::getEntity(c.second.first)); for (auto& x : k->getScope()) if (x->parent() == t) return false; } return true; }); if (v.empty()) return false; TokenId t = pick(v, 0); tx << "delete " << nm(t); cl->deleteToken(t); break; }
    case N_TIME: case N_QTY: { if (relaxOnly) return false; std::vector<ConstrainedVariableId> vs; for (auto& t : p.tokens()) { if (op.k == N_TIME) { for (auto& x : tvars(t)) if (!x->isSpecified()) vs.push_back(x); } else { auto q = qty(t); if (!q.isNoId() && !q->isSpecified()) vs.push_back(q); } } if (vs.empty()) return false;
      ConstrainedVariableId v = vs[(size_t)(op.a[0] % (int)vs.size())]; const Domain& d = v->lastDomain(); double lo = std::max(cast_double(d.getLowerBound()), op.k == N_QTY ? 0. : -5.), hi = std::min(cast_double(d.getUpperBound()), lo + 25); if (lo > hi) return false; double x = op.a[1] % 4 == 0 ? lo : op.a[1] % 4 == 1 ? hi : std::floor(lo) + op.a[2] % std::max(1, (int)(hi - lo) + 1); if (op.a[3] % 30 == 0 && op.k == N_TIME) x = hi + 1; else if (x < lo || x > hi) return false; if (!v->baseDomain().isMember(x)) return false;
      tx << "specify " << p.nameOf(v) << " = " << x; cl->specify(v, x); break; }
    case N_OBJ: { if (relaxOnly) return false; auto v = toks([](const TokenId t) { return !t->getObject()->isSpecified() && t->getObject()->lastDomain().getSize() > 1; }); if (v.empty()) return false; TokenId t = pick(v, 0); const Domain& os = t->getObject()->lastDomain(); std::vector<ObjectId> c; for (auto& o : objs) if (os.isMember(o->getKey())) c.push_back(o); if (c.empty()) return false; ObjectId o = c[(size_t)(op.a[1] % (int)c.size())]; tx << "specify object of " << nm(t) << " = " << o->getName(); cl->specify(t->getObject(), o->getKey()); break; }
    case N_RST: { std::vector<ConstrainedVariableId> vs; for (auto& t : p.tokens()) { for (auto& x : tvars(t)) if (x->isSpecified() && !x->baseDomain().isSingleton()) vs.push_back(x); auto q = qty(t); if (!q.isNoId() && q->isSpecified() && !q->baseDomain().isSingleton()) vs.push_back(q); if (t->getObject()->isSpecified() && !t->getObject()->baseDomain().isSingleton()) vs.push_back(t->getObject()); } if (vs.empty()) return false;
      ConstrainedVariableId v = vs[(size_t)(op.a[0] % (int)vs.size())]; tx << "reset " << p.nameOf(v); cl->reset(v); break; }
    case N_CON: { if (relaxOnly) return false; auto v = p.tokens(); if (v.size() < 2) return false; TokenId a = pick(v, 0), b = pick(v, 1); if (a == b || bridge(a, b)) return false; auto va = tvars(a), vb = tvars(b); ConstrainedVariableId x = va[(size_t)(op.a[3] % (int)va.size())], y = vb[(size_t)(op.a[4] % (int)vb.size())]; std::vector<ConstrainedVariableId> sc; eint extra(-1); const char* n = "precedes"; int kd = op.a[2] % 6;
      if (kd < 3) sc = {x, y}; else if (kd == 3) { n = op.a[5] % 2 ? "concurrent" : "strictlyPrecedes"; sc = {x, y}; } else { n = "temporalDistance"; long lo = op.a[5] % 12 - 4, hi = lo + op.a[6] % 6; int inf = op.a[7] % 5; ConstrainedVariableId dv = cl->createVariable("int", IntervalIntDomain(inf == 0 ? eint(MINUS_INFINITY) : eint(lo), inf == 1 ? eint(PLUS_INFINITY) : eint(hi)), ("g" + std::to_string(p.nextVar++)).c_str(), false, true); extra = dv->getKey(); sc = {x, dv, y}; }
      ConstraintId c = cl->createConstraint(n, sc); con[nextCon++] = std::make_pair(c->getKey(), extra); tx << "c" << nextCon - 1 << " " << n << " " << p.nameOf(x) << " " << p.nameOf(y); if (kd > 3) tx << " " << sc[1]->lastDomain(); break; }
    case N_DELC: { if (con.empty()) return false; auto it = con.begin(); std::advance(it, op.a[0] % (int)con.size()); { ConstraintId k(Entity::getEntity(it->second.first)); if (bridge(TokenId(k->getScope().front()->parent()), TokenId(k->getScope().back()->parent()))) return false; } tx << "delete c" << it->first; cl->deleteConstraint(ConstraintId(Entity::getEntity(it->second.first))); if (it->second.second != eint(-1)) cl->deleteVariable(ConstrainedVariableId(Entity::getEntity(it->second.second))); con.erase(it); break; }
    case N_PROP: tx << "propagate"; propagate(); break;
    case N_SOLVE: return solve(op);
    default: return false; }
    dirty = op.k != N_PROP; last = tx.str(); cx->ev(last); cx->count("ops_applied"); return true;
  }

  // ---- what follows from the definition of a schedule --------------------------
  std::vector<Tx> txs(const ObjectId o, TOracle& T) {
    std::vector<Tx> r; for (auto& t : p.tokens()) { int k = clsOf(t); if (k < 0 || !t->isActive() || !t->getObject()->lastDomain().isSingleton() || t->getObject()->lastDomain().getSingletonValue() != edouble(o->getKey())) continue;
      ConstrainedVariableId q = qty(t); double ql = 1, qu = 1; if (!q.isNoId()) { const Domain& d = q->baseDomain(); ql = ed(d.getLowerBound()); qu = ed(d.getUpperBound()); if (q->isSpecified()) ql = qu = ed(q->getSpecifiedValue()); }
      auto vs = tvars(t); for (size_t i = 0; i < vs.size(); i++) { Tx x; x.tok = t; x.v = T.find(vs[i]); if (x.v < 0) throw Stop{"time variable unknown"}; x.lb = T.lo(x.v); x.ub = T.hi(x.v); x.ql = ql; x.qu = qu; x.cons = rc[(size_t)k].kind == R_RES ? std::string(t->getPredicateName()).find("consume") != std::string::npos : i == 0; r.push_back(x); } }
    return r;
  }
  // every level a schedule can reach at time t; amounts of the two ends of a use go together when joint
  Env exact(const std::vector<Tx>& x, TOracle& T, long t, bool joint) {
    std::vector<size_t> pend; std::vector<char> in(x.size(), 0); for (size_t i = 0; i < x.size(); i++) { if (x[i].ub <= t) in[i] = 1; else if (x[i].lb <= t) pend.push_back(i); }
    size_t n = pend.size(); std::vector<unsigned> need(n, 0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && T.d[(size_t)x[pend[i]].v][(size_t)x[pend[j]].v] <= 0) need[i] |= 1u << j;
    Env e = {BIG * 10, -BIG * 10}; auto s = [](double d) { return d; };
    for (unsigned m = 0; m < (1u << n); m++) { bool ok = true; for (size_t i = 0; i < n && ok; i++) if (m >> i & 1 && (need[i] & ~m)) ok = false; if (!ok) continue;
      for (size_t i = 0; i < n; i++) in[pend[i]] = m >> i & 1; double lo = 0, hi = 0;
      for (size_t i = 0; i < x.size(); i++) { if (!in[i]) continue; if (joint && i + 1 < x.size() && x[i + 1].tok == x[i].tok && in[i + 1]) { i++; continue; } if (x[i].cons) { lo -= s(x[i].qu); hi -= s(x[i].ql); } else { lo += s(x[i].ql); hi += s(x[i].qu); } }
      e.lo = std::min(e.lo, lo); e.hi = std::max(e.hi, hi); }
    return e;
  }
  struct Wnd { double lo = 0, hi = 0, loMax = 0, hiMin = 0, gLo = 0, gHi = 0, instC = 0, instP = 0, minInstC = 0, minInstP = 0, sumC = 0, sumP = 0, minC = 0, minP = 0; };
  Wnd window(const std::vector<Tx>& x, long t) {
    Wnd w; for (auto& a : x) { bool st = a.lb <= t, en = a.ub <= t, at = st && a.ub >= t;
      if (a.cons) { if (st) { w.lo -= a.qu; w.loMax -= a.ql; w.gLo -= a.qu; w.gHi -= a.ql; w.sumC += a.qu; } if (en) { w.hi -= a.ql; w.hiMin -= a.qu; w.minC += a.ql; } if (at) w.instC += a.qu; if (at && a.lb == a.ub) w.minInstC += a.ql; }
      else { if (st) { w.hi += a.qu; w.hiMin += a.ql; w.gLo += a.ql; w.gHi += a.qu; w.sumP += a.qu; } if (en) { w.lo += a.ql; w.loMax += a.qu; w.minP += a.ql; } if (at) w.instP += a.qu; if (at && a.lb == a.ub) w.minInstP += a.ql; } }
    return w;
  }
  struct RView { ObjectId o; RClass* c; std::vector<Tx> x; std::vector<long> at; };
  static double big(double d) { return d > BIG ? BIG : d < -BIG ? -BIG : d; }
  static double ed(edouble e) { double d = cast_double(e); return d >= cast_double(PLUS_INFINITY) ? BIG : d <= cast_double(MINUS_INFINITY) ? -BIG : d; }

  // why a resource is in violation at t, or null
  const char* violated(RView& v, TOracle& T, long t) {
    RClass& c = *v.c; Wnd w = window(v.x, t); bool tt = c.prof == P_TT || c.prof == P_GR; double rate = c.rate >= BIG ? c.sum : c.rate;
    if (tt) { if (w.minC > c.sum) return "total consumption"; if (w.minP > c.sum) return "total production"; if (w.minInstC > rate) return "consumption rate"; if (w.minInstP > rate) return "production rate"; }
    Env e; if (tt) e = Env{w.lo, w.hi}; else e = exact(v.x, T, t, false); double minC = tt ? w.minC : 0, minP = tt ? w.minP : 0; double lo = c.cap + e.lo, hi = c.cap + e.hi;
    if (c.det == D_OPEN) { hi = c.sum >= BIG ? BIG : hi + c.sum - minP; lo = c.sum >= BIG ? -BIG : lo - (c.sum - minC); }
    if (hi < c.lo) return "level too low"; if (lo > c.hi) return "level too high"; return nullptr;
  }
  bool flawed(RView& v, TOracle& T, long t) {
    RClass& c = *v.c; Wnd w = window(v.x, t); bool tt = c.prof == P_TT || c.prof == P_GR; double rate = c.rate >= BIG ? c.sum : c.rate;
    if (tt && (w.sumC > c.sum || w.sumP > c.sum || w.instC > rate || w.instP > rate)) return true; double lo, hi;
    if (tt) { lo = c.det == D_OPEN ? w.loMax : c.det == D_GR ? w.gLo : w.lo; hi = c.det == D_OPEN ? w.hiMin : c.det == D_GR ? w.gHi : w.hi; } else { Env e = exact(v.x, T, t, false); lo = e.lo; hi = e.hi; }
    return c.cap + lo < c.lo || c.cap + hi > c.hi;
  }
  // a schedule drawn at random from those the temporal constraints allow
  bool sample(TOracle& T, Rng& r, std::vector<long>& out) {
    TOracle S = T; size_t n = S.vars.size(); out.assign(n, 0); std::vector<size_t> o; for (size_t i = 1; i < n; i++) o.push_back(i); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[(size_t)r.below((int)i)]);
    int mode = r.below(4);
    for (auto& i : o) { long lo = S.lo((int)i), hi = S.hi((int)i); lo = std::max(lo, -60L); hi = std::min(hi, 80L); if (lo > hi) { lo = hi = std::max(S.lo((int)i), std::min(S.hi((int)i), lo)); } long v = mode == 0 ? lo : mode == 1 ? hi : r.chance(1, 3) ? lo : lo + r.below((int)(hi - lo + 1)); out[i] = v;
      // tighten: time i is v
      S.d[0][i] = std::min(S.d[0][i], v); S.d[i][0] = std::min(S.d[i][0], -v); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { long x = std::min(S.d[a][0] + S.d[0][i] + S.d[i][b], S.d[a][i] + S.d[i][0] + S.d[0][b]); if (S.d[a][0] < INFL && S.d[0][i] < INFL && S.d[i][b] < INFL) S.d[a][b] = std::min(S.d[a][b], S.d[a][0] + S.d[0][i] + S.d[i][b]); if (S.d[a][i] < INFL && S.d[i][0] < INFL && S.d[0][b] < INFL) S.d[a][b] = std::min(S.d[a][b], S.d[a][i] + S.d[i][0] + S.d[0][b]); (void)x; } }
    for (size_t i = 0; i < n; i++) if (S.d[i][i] < 0) return false; return true;
  }
  std::string show(RView& v) { std::ostringstream o; o << v.o->getName() << " (" << profName[v.c->prof] << ", capacity " << v.c->cap << ", limits [" << v.c->lo << " " << v.c->hi << "]):"; for (auto& a : v.x) o << " " << nm(a.tok) << (a.cons ? "-" : "+") << "[" << a.ql << " " << a.qu << "]@[" << a.lb << " " << a.ub << "]"; return o.str(); }

  void check(const Op& op) {
    if (dirty) propagate(); TOracle T; T.build(p); bool ok = p.cons(); cx->count(ok ? "checks_consistent" : "checks_inconsistent"); cx->nontrivial = true;
    if (!T.sat) { cx->count("unsatisfiable_times"); if (ok) VFAIL("inconsistent-times-accepted", "the times of the activities contradict each other"); return; }
    std::vector<RView> vs; for (size_t k = 0; k < objs.size(); k++) { RView v; v.o = objs[k]; v.c = &rc[(size_t)ocls[k]]; v.x = txs(objs[k], T); if (v.x.size() > 16) return; std::set<long> s; for (auto& a : v.x) { s.insert(a.lb); s.insert(a.ub); } v.at.assign(s.begin(), s.end()); vs.push_back(v); }
    const char* why = nullptr; std::string where; for (auto& v : vs) for (long t : v.at) if (const char* w = violated(v, T, t)) if (!why) { why = w; where = show(v) + " at " + sim::show(t); }
    if (why) { cx->probe(std::string("violation: ") + why); cx->count("violations_expected"); }
    if (ok && why) VFAIL("violation-missed", "no schedule of these activities keeps within the limits (" << why << "): " << where);
    if (!ok && !why) { std::string all; for (auto& v : vs) all += "\n" + show(v); VFAIL("violation-unfounded", "the engine finds an inconsistency, but the limits can be kept:" << all); }
    if (!ok) { // is it really impossible?
      Rng r((uint64_t)op.a[0] + 7); for (int i = 0; i < 12; i++) { std::vector<long> s; if (!sample(T, r, s)) continue; cx->count("schedules_sampled"); bool good = true; for (auto& v : vs) { if (v.c->det == D_OPEN) { good = false; break; } std::vector<std::pair<TokenId, double>> q; for (auto& a : v.x) { bool f = false; for (auto& y : q) if (y.first == a.tok) f = true; if (!f) q.push_back(std::make_pair(a.tok, r.chance(1, 2) ? a.ql : a.qu)); }
          std::set<long> ts; for (auto& a : v.x) ts.insert(s[(size_t)a.v]); double tc = 0, tp = 0; for (long t : ts) { double l = v.c->cap, ic = 0, ip = 0; for (auto& a : v.x) if (s[(size_t)a.v] <= t) { double am = 0; for (auto& y : q) if (y.first == a.tok) am = y.second; l += a.cons ? -am : am; if (s[(size_t)a.v] == t) (a.cons ? ic : ip) += am; } tc += ic; tp += ip; double rate = v.c->rate >= BIG ? v.c->sum : v.c->rate; if (l < v.c->lo || l > v.c->hi || ic > rate || ip > rate || tc > v.c->sum || tp > v.c->sum) good = false; } if (!good) break; }
        if (good) VFAIL("violation-refuted", "the engine finds an inconsistency, but a schedule keeps within all limits: " << where); }
      return; }
    for (auto& v : vs) envelope(v, T, op);
    if (!cx->sched) return; cx->count("resources_checked", (long)vs.size());
  }
  void envelope(RView& v, TOracle& T, const Op& op) {
    Resource* res = dynamic_cast<Resource*>(static_cast<Object*>(v.o)); ProfileId pf = res->getProfile(); RClass& c = *v.c; bool tt = c.prof == P_TT || c.prof == P_GR;
    std::set<long> ts; for (long t : v.at) for (long k : {-1, 0, 1}) if (t > -INFL && t < INFL) ts.insert(t + k); ts.insert(-200); ts.insert(200); bool fixed = true; for (auto& a : v.x) if (a.lb != a.ub || a.ql != a.qu) fixed = false; if (fixed && !v.x.empty()) cx->count("fixed_schedules");
    for (long t : ts) { IntervalDomain d; pf->getLevel(eint(t), d); double lo = ed(d.getLowerBound()), hi = ed(d.getUpperBound()); Env e = exact(v.x, T, t, true); cx->count("levels_checked");
      auto tell = [&](const char* cls, const char* s, double a, double b) { VFAIL(cls, s << " at " << t << ": the profile says [" << lo << " " << hi << "], " << "expected [" << a << " " << b << "]; " << show(v)); };
      if (lo > big(e.lo) || hi < big(e.hi)) tell("envelope-unsound", "schedules reach levels outside the envelope", e.lo, e.hi);
      if (fixed && (lo != big(e.lo) || hi != big(e.hi))) tell("envelope-of-fixed", "all is fixed, but the envelope is not the level", e.lo, e.hi);
      Env f; if (tt) { Wnd w = window(v.x, t); f = Env{w.lo, w.hi}; } else f = exact(v.x, T, t, false);
      if (lo != big(f.lo) || hi != big(f.hi)) tell(bridged ? "order-through-other-times" : "envelope", "the envelope is not that of these activities", f.lo, f.hi); }
    std::set<long> fl; for (long t : v.at) if (flawed(v, T, t)) fl.insert(t); std::vector<InstantId> got; res->getFlawedInstants(got); std::set<long> g; for (auto& i : got) g.insert(tnum(edouble(i->getTime()))); if (!fl.empty()) cx->count("flawed_resources");
    if (g != fl) { std::ostringstream o; for (long t : fl) if (!g.count(t)) o << " not reported at " << sim::show(t); for (long t : g) if (!fl.count(t)) o << " reported at " << sim::show(t); VFAIL("flaws", "flaws" << o.str() << "; " << show(v)); }
    std::set<std::string> wt, gt; for (auto& a : v.x) for (long t : fl) if (a.lb <= t && a.ub >= t) wt.insert(nm(a.tok)); std::vector<TokenId> to; res->getTokensToOrder(to); for (auto& t : to) gt.insert(nm(t)); if (wt != gt) { std::ostringstream o; for (auto& s : wt) if (!gt.count(s)) o << " " << s << " missing"; for (auto& s : gt) if (!wt.count(s)) o << " " << s << " reported"; VFAIL("tokens-to-order", "tokens which need ordering:" << o.str() << "; " << show(v)); }
    for (auto& i : got) choices(v, T, res, i); (void)op;
    cx->state(hstr(show(v)));
  }
  void choices(RView& v, TOracle& T, Resource* res, const InstantId inst) {
    std::vector<std::pair<TransactionId, TransactionId>> r; res->getOrderingChoices(inst, r); long at = tnum(edouble(inst->getTime())); cx->count("choice_lists");
    auto nmx = [&](const TokenId t, bool cons) { return nm(t) + (cons ? "-" : "+"); }; std::set<std::pair<std::string, std::string>> want, got;
    for (auto& a : v.x) if (a.lb <= at && a.ub >= at) for (auto& b : v.x) { if (&a == &b || a.lb > b.ub || b.lb > a.ub) continue; long ub = T.d[(size_t)a.v][(size_t)b.v], lo = -T.d[(size_t)b.v][(size_t)a.v];   // b - a in [lo, ub]
      if (ub >= 0 && lo < 0) want.insert(std::make_pair(nmx(a.tok, a.cons), nmx(b.tok, b.cons))); if (lo <= 0 && ub > 0) want.insert(std::make_pair(nmx(b.tok, b.cons), nmx(a.tok, a.cons))); }
    for (auto& x : r) { TokenId a(x.first->time()->parent()), b(x.second->time()->parent()); got.insert(std::make_pair(nmx(a, x.first->isConsumer()), nmx(b, x.second->isConsumer()))); }
    // tokens which may yet come to this resource may be ordered too
    std::set<std::pair<std::string, std::string>> may = want; for (auto& t : p.tokens()) { int k = clsOf(t); if (k < 0 || !t->isActive() || t->getObject()->lastDomain().isSingleton() || !t->getObject()->lastDomain().isMember(v.o->getKey())) continue;
      auto tv = tvars(t); for (size_t i = 0; i < tv.size(); i++) { bool cons = rc[(size_t)k].kind == R_RES ? std::string(t->getPredicateName()).find("consume") != std::string::npos : i == 0; int b = T.find(tv[i]); if (b < 0) continue;
        for (auto& a : v.x) if (a.lb <= at && a.ub >= at) { long ub = T.d[(size_t)a.v][(size_t)b], lo = -T.d[(size_t)b][(size_t)a.v]; if (ub >= 0 && lo < 0) may.insert(std::make_pair(nmx(a.tok, a.cons), nmx(t, cons))); if (lo <= 0 && ub > 0) may.insert(std::make_pair(nmx(t, cons), nmx(a.tok, a.cons))); } } }
    std::ostringstream o; for (auto& x : want) if (!got.count(x)) o << " " << x.first << "<" << x.second << " missing"; for (auto& x : got) if (!may.count(x)) o << " " << x.first << "<" << x.second << " offered";
    if (!o.str().empty()) VFAIL("ordering-choices", "ordering choices at " << at << ":" << o.str() << "; " << show(v));
  }
  bool solve(const Op& op) { (void)op; return false; }

  void run(const Case& c, Ctx& ctx) override {
    cx = &ctx; std::string where = "model"; auto cf = [&](size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; };
    try {
      setup(c); p.open((uint64_t)cf(2) + ctx.sched, cf(1) != 0); std::string m = model(); if (ctx.verbose) fprintf(stdout, "%s\n", m.c_str());
      bool ap = p.ce->getAutoPropagation(); std::string err = p.eng->executeScript("nddl", m, false); p.ce->setAutoPropagation(ap); if (!err.empty()) throw Stop{"model: " + err}; p.db->close();
      for (size_t k = 0; k < rc.size(); k++) for (int i = 0; i < rc[k].n; i++) { objs.push_back(p.db->getObject("r" + std::to_string(k) + "_" + std::to_string(i))); ocls.push_back((int)k); }
      for (size_t i = 0; i < c.ops.size(); i++) { const Op& o = c.ops[i]; ctx.beginOp((int)i, o); where = o.k < N_NOP ? ropName[o.k] : "?"; if (!apply(o)) { ctx.count("skipped"); continue; } where += " (" + last + ")"; if (ctx.verbose) fprintf(stdout, "  %s\n", last.c_str()); if (o.k == N_PROP || p.ce->getAutoPropagation()) check(o); }
      ctx.state(hstr(p.dump()));
    } catch (Violation& v) { throw Violation(v.cls, where + ": " + v.msg); }
    catch (Error& er) { VFAIL("unexpected-error", where << ": " << er.getMsg() << " | " << er.getCondition() << " (after " << last << ")"); }
    catch (std::exception& er) { VFAIL("unexpected-exception", where << ": " << er.what()); }
  }
};
struct Reg { Reg() { registerWorld("res", new ResWorld); } } reg;
}
} // namespace sim
