// World "ce": a client drives the constraint engine (variables, library
// constraints, retraction, activation, specification) while the simulator picks
// the agenda order, the moments propagation runs and the memory addresses.
// Properties: C01 (soundness), C02 (history independence), C16 (allow violations).
#include "core.h"
#include "eu.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include "Constraint.hh"
#include "Constraints.hh"
#include "ConstraintEngine.hh"
#include "ConstraintEngineListener.hh"
#include "ConstrainedVariable.hh"
#include "Domains.hh"
#include "DataTypes.hh"

using namespace sim;
using namespace EUROPA;

namespace {

enum Kind { K_INT = 0, K_FLOAT, K_BOOL, K_ENUM, K_SYM, NKIND };
const int M_INT = 1, M_FLOAT = 2, M_BOOL = 4, M_ENUM = 8, M_SYM = 16;
const int M_IVL = M_INT | M_FLOAT | M_BOOL;      // IntervalDomain derived
const int M_NUMI = M_INT | M_FLOAT;
const int M_NUM = M_INT | M_FLOAT | M_ENUM;

typedef std::vector<double> V;
bool eqd(double a, double b) { return std::fabs(a - b) < 1e-4; }

struct CType {
  const char* name;
  int minA, maxA;
  int first, rest;            // kind masks of argument 0 and of the others
  bool sameClass;             // symbol / numeric must not be mixed over all args from `from`
  int from;
  bool relation;              // has a value-level meaning (C01)
  bool strict;                // rejects violating singletons
  bool confluent;             // unique fixpoint (C02)
  std::function<bool(const V&)> ok;
};

int cnt0(const V& v, size_t from) { int n = 0; for (size_t i = from; i < v.size(); i++) n += eqd(v[i], 0); return n; }
bool alleq(const V& v, size_t f) { for (size_t i = f + 1; i < v.size(); i++) if (!eqd(v[i], v[f])) return false; return true; }
bool alldiff(const V& v, size_t f) { for (size_t i = f; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if (eqd(v[i], v[j])) return false; return true; }
double vmax(const V& v, size_t f, size_t e) { double m = v[f]; for (size_t i = f; i < e; i++) m = std::max(m, v[i]); return m; }
double vmin(const V& v, size_t f, size_t e) { double m = v[f]; for (size_t i = f; i < e; i++) m = std::min(m, v[i]); return m; }

const std::vector<CType>& types() {
  static std::vector<CType> t = {
    // name min max first rest same from rel strict confl
    {"eq", 2, 4, M_NUM | M_SYM, M_NUM | M_SYM, true, 0, true, true, true, [](const V& v) { return alleq(v, 0); }},
    {"neq", 2, 2, M_INT | M_ENUM | M_SYM, M_INT | M_ENUM | M_SYM, true, 0, true, true, true, [](const V& v) { return !eqd(v[0], v[1]); }},
    {"leq", 2, 2, M_NUM, M_NUM, false, 0, true, true, true, [](const V& v) { return v[0] <= v[1] + 1e-6; }},
    {"lt", 2, 2, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { return v[0] < v[1]; }},
    {"addEq", 3, 3, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return eqd(v[0] + v[1], v[2]); }},
    {"multEq", 3, 3, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { return eqd(v[0] * v[1], v[2]); }},
    {"divEq", 3, 3, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], v[1] * v[2]); }},
    {"eqSum", 3, 6, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { double s = 0; for (size_t i = 1; i < v.size(); i++) s += v[i]; return eqd(v[0], s); }},
    {"eqProduct", 3, 5, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { double s = 1; for (size_t i = 1; i < v.size(); i++) s *= v[i]; return eqd(v[0], s); }},
    {"neg", 2, 2, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], -v[1]); }},
    {"absVal", 2, 2, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, false, [](const V& v) { return eqd(v[0], std::fabs(v[1])); }},
    {"eqMaximum", 3, 5, M_INT, M_INT, false, 0, true, true, false, [](const V& v) { return eqd(v[0], vmax(v, 1, v.size())); }},
    {"eqMinimum", 3, 5, M_INT, M_INT, false, 0, true, true, false, [](const V& v) { return eqd(v[0], vmin(v, 1, v.size())); }},
    {"allMax", 3, 4, M_INT, M_INT, false, 0, true, true, false, [](const V& v) { return eqd(v.back(), vmax(v, 0, v.size() - 1)); }},
    {"allMin", 3, 4, M_INT, M_INT, false, 0, true, true, false, [](const V& v) { return eqd(v.back(), vmin(v, 0, v.size() - 1)); }},
    {"allDiff", 2, 5, M_INT | M_ENUM | M_SYM, M_INT | M_ENUM | M_SYM, true, 0, true, true, true, [](const V& v) { return alldiff(v, 0); }},
    {"condAllDiff", 3, 5, M_BOOL, M_INT | M_ENUM, false, 1, true, true, true, [](const V& v) { return (v[0] != 0) == alldiff(v, 1); }},
    {"condEq", 3, 5, M_BOOL, M_INT | M_ENUM, false, 1, true, true, false, [](const V& v) { return (v[0] != 0) == alleq(v, 1); }},
    {"countZeroes", 2, 5, M_INT, M_INT | M_ENUM, false, 1, true, true, true, [](const V& v) { return eqd(v[0], cnt0(v, 1)); }},
    {"countNonZeroes", 2, 5, M_INT, M_INT | M_ENUM, false, 1, true, true, true, [](const V& v) { return eqd(v[0], (double)v.size() - 1 - cnt0(v, 1)); }},
    {"or", 2, 4, M_BOOL, M_BOOL, false, 0, true, true, true, [](const V& v) { return cnt0(v, 0) < (int)v.size(); }},
    {"subsetOf", 2, 2, M_INT | M_ENUM | M_SYM, M_INT | M_ENUM | M_SYM, true, 0, true, true, true, [](const V& v) { return eqd(v[0], v[1]); }},
    {"withinBounds", 3, 3, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return v[1] <= v[0] + 1e-6 && v[0] <= v[2] + 1e-6 && v[1] <= v[2] + 1e-6; }},
    {"testEq", 3, 3, M_BOOL, M_INT | M_ENUM | M_SYM, true, 1, true, true, true, [](const V& v) { return (v[0] != 0) == eqd(v[1], v[2]); }},
    {"testNeq", 3, 3, M_BOOL, M_INT | M_ENUM | M_SYM, true, 1, true, true, true, [](const V& v) { return (v[0] != 0) == !eqd(v[1], v[2]); }},
    {"testLessThan", 3, 3, M_BOOL, M_INT, false, 1, true, true, true, [](const V& v) { return (v[0] != 0) == (v[1] < v[2]); }},
    {"testLeq", 3, 3, M_BOOL, M_INT, false, 1, true, true, true, [](const V& v) { return (v[0] != 0) == (v[1] <= v[2]); }},
    {"testAnd", 3, 3, M_BOOL, M_BOOL, false, 0, true, true, true, [](const V& v) { return (v[0] != 0) == (v[1] != 0 && v[2] != 0); }},
    {"testOr", 3, 3, M_BOOL, M_BOOL, false, 0, true, true, true, [](const V& v) { return (v[0] != 0) == (v[1] != 0 || v[2] != 0); }},
    {"maxf", 3, 3, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], std::max(v[1], v[2])); }},
    {"minf", 3, 3, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], std::min(v[1], v[2])); }},
    {"abs", 2, 2, M_INT | M_FLOAT, M_INT | M_FLOAT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], std::fabs(v[1])); }},
    {"floor", 2, 2, M_INT, M_FLOAT | M_INT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], std::floor(v[1])); }},
    {"ceil", 2, 2, M_INT, M_FLOAT | M_INT, false, 0, true, true, true, [](const V& v) { return eqd(v[0], std::ceil(v[1])); }},
    {"diffSquare", 3, 3, M_INT, M_INT, false, 0, true, true, true, [](const V& v) { return eqd(v[2], (v[0] - v[1]) * (v[0] - v[1])); }},
    {"calcDistance", 5, 5, M_FLOAT, M_INT, false, 0, true, true, true, [](const V& v) { return std::fabs(v[0] - std::sqrt((v[1] - v[3]) * (v[1] - v[3]) + (v[2] - v[4]) * (v[2] - v[4]))) < 1e-3; }},
    {"testSingleton", 2, 2, M_BOOL, M_INT | M_ENUM | M_SYM, false, 1, false, false, true, [](const V&) { return true; }},
    {"UNARY", 1, 1, M_INT | M_ENUM, 0, false, 0, true, true, true, nullptr},
  };
  return t;
}

// one execution is not always a fixpoint of these: compared only after touching everything
bool notIdempotent(const char* n) {
  static const std::set<std::string> s = {"eqMaximum", "eqMinimum", "allMax", "allMin", "multEq", "divEq", "diffSquare", "eqProduct", "condAllDiff", "calcDistance", "floor", "ceil"};
  return s.count(n) > 0;
}

enum OpK { NEWVAR, NEWCON, DELCON, DELVAR, SPECIFY, RESET, RESTRICT, PROPAGATE, AUTO, DEACTC, UNDOC, DEACTV, UNDOV, READ, TOUCH, NOPS };
const char* opName[] = {"newvar", "newcon", "delcon", "delvar", "specify", "reset", "restrict", "propagate", "auto", "deactcon", "undocon", "deactvar", "undovar", "read", "touch"};

struct MVar { int kind; std::vector<int> base; int spec = -999; int deact = 0; ConstrainedVariableId v; bool alive = true; bool dist = false, used = false; };
struct MCon { int type; std::vector<int> scope; int deact = 0; std::vector<int> udom; ConstraintId c; bool alive = true; };

const int NSYM = 6;
double symVal(int i) { static const char* n[] = {"sA", "sB", "sC", "sD", "sE", "sF"}; return (double)cast_double(edouble(LabelStr(n[i]))); }
edouble toVal(int kind, int v) { if (kind == K_SYM) return edouble(symVal(v)); return edouble((double)v); }
double fromVal(int kind, edouble e) { double d = cast_double(e); if (kind == K_SYM) { for (int i = 0; i < NSYM; i++) if (symVal(i) == d) return i; return -100; } return d; }

struct Sess {
  std::unique_ptr<CeEngine> eng;
  ConstraintEngineId ce;
  std::vector<MVar> vars;
  std::vector<MCon> cons;
};

Domain* makeDom(int kind, const std::vector<int>& vals, const ConstraintEngineId) {
  switch (kind) {
    case K_INT: return new IntervalIntDomain((eint::basis_type)vals.front(), (eint::basis_type)vals.back());
    case K_FLOAT: return new IntervalDomain((double)vals.front(), (double)vals.back());
    case K_BOOL: { if (vals.size() == 2) return new BoolDomain(); return new BoolDomain(vals[0] != 0); }
    case K_ENUM: { std::list<edouble> l; for (int v : vals) l.push_back(edouble((double)v)); NumericDomain* d = new NumericDomain(l, IntDT::instance()); return d; }
    default: { std::list<edouble> l; for (int v : vals) l.push_back(edouble(symVal(v))); return new SymbolDomain(l); }
  }
}
const char* typeName(int k) { static const char* n[] = {"int", "float", "bool", "int", "symbol"}; return n[k]; }

ConstrainedVariableId makeVar(ConstraintEngineId ce, const MVar& m, int idx) {
  std::unique_ptr<Domain> d(makeDom(m.kind, m.base, ce));
  std::ostringstream n; n << "v" << idx;
  return ce->createVariable(typeName(m.kind), *d, false, true, n.str());
}
ConstraintId makeCon(ConstraintEngineId ce, const MCon& m, const std::vector<MVar>& vars) {
  std::vector<ConstrainedVariableId> scope;
  for (int s : m.scope) scope.push_back(vars[(size_t)s].v);
  if (!types()[(size_t)m.type].ok) {
    std::unique_ptr<Domain> d(makeDom(vars[(size_t)m.scope[0]].kind, m.udom, ce));
    return (new UnaryConstraint(*d, scope[0]))->getId();
  }
  return ce->createConstraint(types()[(size_t)m.type].name, scope);
}

bool conActive(const MCon& c, const std::vector<MVar>& vars) {
  if (!c.alive || c.deact > 0) return false;
  for (int s : c.scope) if (vars[(size_t)s].deact > 0) return false;
  return true;
}
std::vector<int> allowed(const MVar& v) { if (v.spec != -999) return std::vector<int>(1, v.spec); return v.base; }

std::string domStr(int kind, const Domain& d) {
  std::ostringstream o;
  if (d.isEmpty()) return "{}";
  if (d.isEnumerated()) {
    std::list<edouble> l; d.getValues(l); std::set<double> s; for (auto& e : l) s.insert(fromVal(kind, e));
    o << "{"; for (double x : s) o << x << " "; o << "}";
  } else {
    double a = cast_double(d.getLowerBound()), b = cast_double(d.getUpperBound());
    char buf[80]; snprintf(buf, sizeof buf, "[%.4f,%.4f]", a + 0.0, b + 0.0); o << buf;
  }
  return o.str();
}

struct CeWorld : World {
  void generate(Rng& r, const std::string& prop, Case& c) override {
    int nv = r.range(2, 6);
    // cfg: 0 allow violations, 1 read-through, 2 allowed-type bitmask lo, 3 hi
    unsigned lo = (unsigned)r.next(), hi = (unsigned)r.next();
    if (r.chance(1, 3)) { lo &= (unsigned)r.next(); hi &= (unsigned)r.next(); }
    c.cfg = {prop == "C16" ? 1 : 0, r.below(2), (int)lo, (int)hi, r.range(0, 2), r.below(4)};
    int n = r.range(6, 40);
    std::vector<int> w(NOPS, 0);
    w[NEWVAR] = 3; w[NEWCON] = 14; w[DELCON] = 5; w[DELVAR] = 1; w[SPECIFY] = 6; w[RESET] = 4; w[RESTRICT] = 2; w[PROPAGATE] = 8;
    w[AUTO] = 1; w[DEACTC] = 2; w[UNDOC] = 2; w[DEACTV] = 1; w[UNDOV] = 1; w[READ] = 2; w[TOUCH] = 1;
    for (int i = 0; i < NOPS; i++) if (i != NEWVAR && i != NEWCON && i != PROPAGATE && r.chance(1, 4)) w[i] = 0;
    if (prop == "C16") { w[READ] = 0; w[DEACTV] = w[UNDOV] = w[DEACTC] = w[UNDOC] = 0; }
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < nv + n; i++) {
      Op o;
      if (i < nv) o.k = NEWVAR;
      else { int x = r.below(tot); for (o.k = 0; x >= w[(size_t)o.k]; o.k++) x -= w[(size_t)o.k]; }
      for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000);
      c.ops.push_back(o);
    }
    // switch everything back on, then settle
    for (int i = 0; i < 4; i++) { Op u; u.k = UNDOC; c.ops.push_back(u); u.k = UNDOV; c.ops.push_back(u); }
    Op p; p.k = PROPAGATE; c.ops.push_back(p);
  }
  std::string describe(const Case&, const Op& op) override {
    std::ostringstream o; o << opName[op.k % NOPS]; for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str();
  }

  // ---------------------------------------------------------------- oracles
  static bool enumerate(const Sess& s, std::vector<std::set<int>>& proj, bool& sat) {
    size_t n = s.vars.size();
    proj.assign(n, std::set<int>()); sat = false;
    std::vector<int> order; for (size_t i = 0; i < n; i++) if (s.vars[i].alive && s.vars[i].deact == 0) order.push_back((int)i);
    std::vector<std::vector<int>> doms(n);
    for (int i : order) doms[(size_t)i] = allowed(s.vars[(size_t)i]);
    // constraints indexed by the last variable (in order) of their scope
    std::vector<int> pos(n, -1); for (size_t i = 0; i < order.size(); i++) pos[(size_t)order[i]] = (int)i;
    std::vector<std::vector<int>> at(order.size());
    for (size_t k = 0; k < s.cons.size(); k++) {
      const MCon& c = s.cons[k]; if (!conActive(c, s.vars) || !types()[(size_t)c.type].relation) continue;
      int m = 0; for (int v : c.scope) m = std::max(m, pos[(size_t)v]);
      at[(size_t)m].push_back((int)k);
    }
    long nodes = 0; std::vector<int> val(n, 0); bool over = false;
    std::function<void(size_t)> rec = [&](size_t d) {
      if (over) return;
      if (d == order.size()) { sat = true; for (int v : order) proj[(size_t)v].insert(val[(size_t)v]); return; }
      int v = order[d];
      for (int x : doms[(size_t)v]) {
        if (++nodes > 150000) { over = true; return; }
        val[(size_t)v] = x; bool ok = true;
        for (int k : at[d]) {
          const MCon& c = s.cons[(size_t)k];
          if (!types()[(size_t)c.type].ok) { if (std::find(c.udom.begin(), c.udom.end(), x) == c.udom.end()) ok = false; continue; }
          V a; for (int q : c.scope) a.push_back(val[(size_t)q]);
          if (!types()[(size_t)c.type].ok(a)) { ok = false; break; }
        }
        if (ok) rec(d + 1);
      }
    };
    rec(0);
    return !over;
  }

  void checkSound(Sess& s, bool consistent, Ctx& ctx) {
    std::vector<std::set<int>> proj; bool sat;
    if (enumerate(s, proj, sat)) {
      ctx.count("soundness_checks");
      if (!consistent && sat) {
        std::ostringstream o; for (size_t i = 0; i < s.vars.size(); i++) if (!proj[i].empty()) o << " v" << i << "=" << *proj[i].begin();
        VFAIL("false-inconsistency", "propagation reports inconsistency but a solution exists (one value per variable:" << o.str() << ")");
      }
      if (consistent) {
        for (size_t i = 0; i < s.vars.size(); i++) {
          const MVar& m = s.vars[i]; if (!m.alive || m.deact) continue;
          for (int x : proj[i]) if (!m.v->lastDomain().isMember(toVal(m.kind, x)))
            VFAIL("lost-solution", "value " << x << " of v" << i << " belongs to a solution but was pruned; domain is " << domStr(m.kind, m.v->lastDomain()));
        }
        if (!sat) ctx.probe("unsat_not_detected_by_propagation");
        else ctx.nontrivial = true;
      } else { ctx.probe("inconsistent_and_unsat"); ctx.nontrivial = true; }
    } else ctx.count("enumeration_skipped");
    if (consistent) {
      for (size_t k = 0; k < s.cons.size(); k++) {
        const MCon& c = s.cons[k]; if (!conActive(c, s.vars)) continue;
        const CType& t = types()[(size_t)c.type]; if (!t.strict) continue;
        V a; bool all = true;
        for (int q : c.scope) { const Domain& d = s.vars[(size_t)q].v->lastDomain(); if (!d.isSingleton()) { all = false; break; } a.push_back(fromVal(s.vars[(size_t)q].kind, d.getSingletonValue())); }
        if (!all) continue;
        ctx.count("bound_constraint_checks");
        bool ok = t.ok ? t.ok(a) : std::find(c.udom.begin(), c.udom.end(), (int)a[0]) != c.udom.end();
        if (!ok) { std::ostringstream o; for (double x : a) o << " " << x; VFAIL("violated-accepted", "constraint " << t.name << " accepts bound values" << o.str()); }
      }
    }
  }

  static std::string snapshot(const Sess& s) {
    std::ostringstream o;
    for (size_t i = 0; i < s.vars.size(); i++) { const MVar& m = s.vars[i]; if (!m.alive || m.deact) continue; o << " v" << i << "=" << domStr(m.kind, m.v->lastDomain()); }
    return o.str();
  }

  // Re-runs every constraint until nothing changes: the common fixpoint, whatever
  // the individual constraints chose to ignore.
  static bool settle(Sess& s) {
    for (int k = 0; k < 40; k++) {
      if (!s.ce->propagate()) return false;
      std::string a = snapshot(s);
      for (auto& m : s.vars) if (m.alive && !m.deact) m.v->touch();
      if (!s.ce->propagate()) return false;
      if (a == snapshot(s)) return true;
    }
    throw Stop{"no common fixpoint within 40 rounds"};
  }
  void checkFresh(Sess& s, bool consistent, Ctx& ctx, bool touch) {
    Sess& f = *new Sess; f.eng.reset(new CeEngine()); f.ce = f.eng->ce();
    f.vars.resize(s.vars.size());
    for (size_t i = 0; i < s.vars.size(); i++) { f.vars[i] = s.vars[i]; if (!s.vars[i].alive) continue; f.vars[i].v = makeVar(f.ce, f.vars[i], (int)i); }
    for (size_t i = 0; i < s.vars.size(); i++) { const MVar& m = f.vars[i]; if (!m.alive) continue; if (m.spec != -999) m.v->specify(toVal(m.kind, m.spec)); for (int d = 0; d < m.deact; d++) m.v->deactivate(); }
    f.cons = s.cons;
    for (size_t i = 0; i < f.cons.size(); i++) { MCon& c = f.cons[i]; if (!c.alive) continue; c.c = makeCon(f.ce, c, f.vars); for (int d = 0; d < c.deact; d++) c.c->deactivate(); }
    bool r = f.ce->propagate();
    if (touch) { ctx.count("settled_comparisons"); if (consistent) consistent = settle(s); if (r) r = settle(f); }
    ctx.count("fresh_comparisons");
    std::string a = snapshot(s), b = snapshot(f);
    if (r != consistent) VFAIL("verdict-differs", "after the history propagate()=" << consistent << ", in a fresh engine " << r << "; history:" << a << " fresh:" << b);
    if (r && a != b) VFAIL("domains-differ", "history:" << a << "  fresh:" << b);
    ctx.nontrivial = true;
  }

  void run(const Case& c, Ctx& ctx) override {
    Sess& s = *new Sess; /* never destroyed: a run may end inside propagation */ s.eng.reset(new CeEngine()); s.ce = s.eng->ce();
    bool fairAgenda = ctx.sched == 0;
    if (!fairAgenda) s.eng->installAgenda(hcomb(ctx.sched, 5), 30000);
    bool c16 = c.cfg[0] == 1;
    bool c02 = ctx.has("C02") || c16, touchC02 = ctx.has("C02") && c.cfg[1] == 1, strictC02 = c02 && !touchC02;
    ConstraintEngine& ce = *s.ce;
    if (c16) ce.setAllowViolations(true);
    ce.setAutoPropagation(false);
    uint64_t mask = (uint64_t)(unsigned)c.cfg[2] | ((uint64_t)(unsigned)c.cfg[3] << 32);
    // constraints which post others internally: those are reported in their place
    static const std::set<std::string> composite = {"eqProduct", "eqSum", "or", "allDiff", "condAllDiff", "countNonZeroes", "withinBounds"};
    auto typeOk = [&](size_t t) { if (c16 && composite.count(types()[t].name)) return false; if (c02 && !types()[t].confluent) return false; if (strictC02 && notIdempotent(types()[t].name)) return false; if (ctx.has("C01") && !types()[t].relation) return false; return ((mask >> (t % 64)) & 1) != 0; };
    auto liveVar = [&](int a) -> int { std::vector<int> l; for (size_t i = 0; i < s.vars.size(); i++) if (s.vars[i].alive) l.push_back((int)i); return l.empty() ? -1 : l[(size_t)(a % (int)l.size())]; };
    auto liveCon = [&](int a) -> int { std::vector<int> l; for (size_t i = 0; i < s.cons.size(); i++) if (s.cons[i].alive) l.push_back((int)i); return l.empty() ? -1 : l[(size_t)(a % (int)l.size())]; };
    // Deactivating is documented as "not treated as a relaxation, the client is
    // responsible": the client modelled here switches things off only for a while.
        auto outstanding = [&]() { for (auto& k : s.cons) if (k.alive && k.deact) return true; for (auto& v : s.vars) if (v.alive && v.deact) return true; return false; };
    try {
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; ctx.beginOp((int)i, op); const int* a = op.a;
        std::ostringstream e; e << i << ":" << opName[op.k % NOPS];
        switch (op.k % NOPS) {
          case NEWVAR: {
            if (s.vars.size() >= 9) break;
            MVar m; m.kind = a[0] % 10 < 5 ? K_INT : a[0] % 10 == 5 ? K_FLOAT : a[0] % 10 < 8 ? K_BOOL : a[0] % 10 == 8 ? K_ENUM : K_SYM;
            if (m.kind == K_BOOL) { if (a[1] % 6 == 0) m.base = {a[2] % 2}; else m.base = {0, 1}; }
            else if (m.kind == K_ENUM) { std::set<int> x; for (int q = 0; q < 1 + a[1] % 4; q++) x.insert(a[(2 + q) % NARG] % 8 - 3); m.base.assign(x.begin(), x.end()); }
            else if (m.kind == K_SYM) { std::set<int> x; for (int q = 0; q < 1 + a[1] % 4; q++) x.insert(a[(2 + q) % NARG] % NSYM); m.base.assign(x.begin(), x.end()); }
            else { int l = a[1] % 9 - 4, w = a[2] % 7 == 0 ? 0 : a[2] % 6; for (int q = 0; q <= w; q++) m.base.push_back(l + q); }
            m.v = makeVar(s.ce, m, (int)s.vars.size());
            if (m.base.size() == 1) { /* engine specifies it itself */ }
            s.vars.push_back(m); e << " v" << s.vars.size() - 1 << " " << typeName(m.kind);
            break;
          }
          case NEWCON: {
            if (s.cons.size() >= 24) break;
            std::vector<int> ts; for (size_t t = 0; t < types().size(); t++) if (typeOk(t)) ts.push_back((int)t);
            if (ts.empty()) break;
            MCon m; m.type = ts[(size_t)(a[0] % (int)ts.size())]; const CType& t = types()[(size_t)m.type];
            int na = t.minA + a[1] % (t.maxA - t.minA + 1); bool ok = true;
            int cls = -1;
            for (int q = 0; q < na; q++) {
              int km = q == 0 ? t.first : t.rest;
              std::vector<int> l;
              for (size_t v = 0; v < s.vars.size(); v++) {
                if (!s.vars[v].alive || s.vars[v].deact || !(km & (1 << s.vars[v].kind))) continue;
                bool sym = s.vars[v].kind == K_SYM;
                // an inexact distance must not feed exact integer arithmetic
                if (s.vars[v].dist || (!strcmp(t.name, "calcDistance") && q == 0 && s.vars[v].used)) continue;
                if (t.sameClass && q >= t.from && cls >= 0 && cls != (int)sym) continue;
                if (std::find(m.scope.begin(), m.scope.end(), (int)v) != m.scope.end() && (strictC02 || a[7] % 8 != 0)) continue;
                // these ignore interior changes or their own: without touching everything
                // their fixpoint is not unique when an interval takes part
                if (strictC02 && s.vars[v].kind == K_INT && (!strcmp(t.name, "neq") || !strcmp(t.name, "testNeq") || !strcmp(t.name, "testEq"))) continue;
                l.push_back((int)v);
              }
              if (l.empty()) { ok = false; break; }
              int v = l[(size_t)(a[(2 + q) % NARG] % (int)l.size())];
              if (q >= t.from && cls < 0) cls = s.vars[(size_t)v].kind == K_SYM;
              m.scope.push_back(v);
            }
            if (!ok) break;
            // eq of several enumerations and intervals stops short of its fixpoint (its last pass leaves holes)
            if (strictC02 && !strcmp(t.name, "eq") && m.scope.size() > 2) { bool en = false, iv = false; for (int q : m.scope) (s.vars[(size_t)q].kind == K_ENUM ? en : iv) = true; if (en && iv) m.scope.resize(2); }
            if (!t.ok) { for (int x = -4 + a[3] % 4; x <= a[4] % 5; x++) m.udom.push_back(x); if (m.udom.empty()) m.udom.push_back(0); if (s.vars[(size_t)m.scope[0]].kind == K_ENUM && a[5] % 2) { std::vector<int> y; for (size_t q = 0; q < m.udom.size(); q += 2) y.push_back(m.udom[q]); m.udom = y; } }
            for (int q : m.scope) s.vars[(size_t)q].used = true;
            if (!strcmp(t.name, "calcDistance")) s.vars[(size_t)m.scope[0]].dist = true;
            m.c = makeCon(s.ce, m, s.vars); s.cons.push_back(m);
            e << " c" << s.cons.size() - 1 << " " << t.name; for (int q : m.scope) e << " v" << q;
            break;
          }
          case DELCON: { int k = liveCon(a[0]); if (k < 0 || outstanding()) break; s.cons[(size_t)k].alive = false; ce.deleteConstraint(s.cons[(size_t)k].c); e << " c" << k; ctx.fault("retract_constraint"); break; }
          case DELVAR: {
            std::vector<int> l; for (size_t v = 0; v < s.vars.size(); v++) { if (!s.vars[v].alive || s.vars[v].deact) continue; bool used = false; for (auto& k : s.cons) if (k.alive && std::find(k.scope.begin(), k.scope.end(), (int)v) != k.scope.end()) used = true; if (!used) l.push_back((int)v); }
            if (l.size() < 1) break; int v = l[(size_t)(a[0] % (int)l.size())]; s.vars[(size_t)v].alive = false; delete static_cast<ConstrainedVariable*>(s.vars[(size_t)v].v); e << " v" << v; ctx.fault("delete_variable"); break;
          }
          case SPECIFY: { int v = liveVar(a[0]); if (v < 0 || s.vars[(size_t)v].deact) break; if (outstanding() && s.vars[(size_t)v].spec != -999) break; MVar& m = s.vars[(size_t)v]; int x = m.base[(size_t)(a[1] % (int)m.base.size())]; if (m.spec != -999 && m.spec != x) { m.v->reset(); e << " (reset first)"; } m.spec = x; m.v->specify(toVal(m.kind, x)); e << " v" << v << "=" << x; break; }
          case RESET: { int v = liveVar(a[0]); if (v < 0 || outstanding()) break; s.vars[(size_t)v].spec = -999; s.vars[(size_t)v].v->reset(); e << " v" << v; ctx.fault("reset_variable"); break; }
          case RESTRICT: {
            int v = liveVar(a[0]); if (v < 0 || s.vars[(size_t)v].deact) break; MVar& m = s.vars[(size_t)v];
            if (m.kind == K_BOOL && m.base.size() < 2) break;
            if (m.v->lastDomain().isEmpty()) break;
            std::vector<int> nb; size_t n = m.base.size(), b = (size_t)a[1] % n, w = (size_t)a[2] % (n - b);
            for (size_t q = b; q <= b + w; q++) nb.push_back(m.base[q]);
            if (m.spec != -999 && std::find(nb.begin(), nb.end(), m.spec) == nb.end()) break;
            std::unique_ptr<Domain> d(makeDom(m.kind, nb, s.ce)); m.base = nb; m.v->restrictBaseDomain(*d); e << " v" << v << " n=" << nb.size(); break;
          }
          case DEACTC: { int k = liveCon(a[0]); if (k < 0 || s.cons[(size_t)k].deact > 1) break; s.cons[(size_t)k].deact++; s.cons[(size_t)k].c->deactivate(); e << " c" << k; ctx.fault("deactivate_constraint"); break; }
          case UNDOC: { std::vector<int> l; for (size_t k = 0; k < s.cons.size(); k++) if (s.cons[k].alive && s.cons[k].deact) l.push_back((int)k); if (l.empty()) break; int k = l[(size_t)(a[0] % (int)l.size())]; s.cons[(size_t)k].deact--; s.cons[(size_t)k].c->undoDeactivation(); e << " c" << k; break; }
          case DEACTV: { int v = liveVar(a[0]); if (v < 0 || s.vars[(size_t)v].deact) break; s.vars[(size_t)v].deact++; s.vars[(size_t)v].v->deactivate(); e << " v" << v; ctx.fault("deactivate_variable"); break; }
          case UNDOV: { std::vector<int> l; for (size_t k = 0; k < s.vars.size(); k++) if (s.vars[k].alive && s.vars[k].deact) l.push_back((int)k); if (l.empty()) break; int v = l[(size_t)(a[0] % (int)l.size())]; s.vars[(size_t)v].deact--; s.vars[(size_t)v].v->undoDeactivation(); e << " v" << v; break; }
          case READ: { int v = liveVar(a[0]); if (v < 0 || s.vars[(size_t)v].deact) break; const Domain& d = s.vars[(size_t)v].v->derivedDomain(); e << " v" << v << " " << domStr(s.vars[(size_t)v].kind, d); ctx.fault("lazy_read_propagation"); break; }
          case TOUCH: { int v = liveVar(a[0]); if (v < 0 || s.vars[(size_t)v].deact) break; s.vars[(size_t)v].v->touch(); break; }
          case AUTO: { ce.setAutoPropagation(a[0] % 2 == 0); e << a[0] % 2; break; }
          case PROPAGATE: {
            bool was = ce.provenInconsistent();
            bool r = ce.propagate(); e << " -> " << r << snapshot(s);
            if (was) ctx.probe("propagate_from_inconsistent");
            ctx.count(r ? "propagations_consistent" : "propagations_inconsistent");
            ctx.state(hcomb(hstr(snapshot(s)), r));
            if (c16) checkViolations(s, r, ctx);
            else {
              if (r != ce.constraintConsistent()) VFAIL("verdict-incoherent", "propagate() returned " << r << " but constraintConsistent()=" << ce.constraintConsistent());
              if (outstanding()) { ctx.count("checks_skipped_while_deactivated"); break; }
              if (ctx.has("C01")) checkSound(s, r, ctx);
              if (ctx.has("C02")) checkFresh(s, r, ctx, touchC02);
            }
            break;
          }
        }
        ctx.ev(e.str());
      }
    } catch (Error& er) {
      VFAIL("unexpected-error", "EUROPA error: " << er.getMsg() << " | " << er.getCondition());
    }
  }

  // C16 ------------------------------------------------------------------
  // What propagation finds of the constraints in `on` alone, posted to a fresh engine which stops at conflicts.
  static Sess& freshSess(const Sess& s, const std::vector<char>& on) {
    Sess& f = *new Sess; f.eng.reset(new CeEngine()); f.ce = f.eng->ce(); f.ce->setAutoPropagation(false); f.vars = s.vars; f.cons = s.cons;
    for (size_t i = 0; i < s.vars.size(); i++) if (s.vars[i].alive) { f.vars[i].v = makeVar(f.ce, f.vars[i], (int)i); if (f.vars[i].spec != -999) f.vars[i].v->specify(toVal(f.vars[i].kind, f.vars[i].spec)); }
    for (size_t k = 0; k < s.cons.size(); k++) if (s.cons[k].alive && on[k]) f.cons[k].c = makeCon(f.ce, f.cons[k], f.vars);
    return f; }
  static bool freshOf(const Sess& s, const std::vector<char>& on, std::string* dom) { Sess& f = freshSess(s, on); bool r = f.ce->propagate(); if (dom) *dom = r ? snapshot(f) : "(inconsistent)"; return r;
  }
  void checkViolations(Sess& s, bool r, Ctx& ctx) {
    ctx.nontrivial = true; std::vector<size_t> live; std::set<size_t> viol; std::map<ConstraintId, size_t> idx;
    for (size_t k = 0; k < s.cons.size(); k++) if (s.cons[k].alive) { live.push_back(k); idx[s.cons[k].c] = k; if (s.ce->isViolated(s.cons[k].c)) viol.insert(k); }
    auto names = [&](const std::set<size_t>& v) { std::ostringstream o; for (size_t k : v) { o << " c" << k << "=" << types()[(size_t)s.cons[k].type].name << "("; for (int q : s.cons[k].scope) o << " v" << q; o << " )"; } return o.str(); };
    if (!r) VFAIL("stuck", "propagation does not get past the conflicts:" << snapshot(s));
    PSList<PSConstraint*> all = s.ce->getAllViolations(); std::set<size_t> rep;
    for (int i = 0; i < all.size(); i++) { bool f = false; for (auto& e : idx) if (all.get(i) && (PSEntityKey)all.get(i)->getEntityKey() == (PSEntityKey)cast_int(e.first->getKey())) { rep.insert(e.second); f = true; } if (!f) VFAIL("violation-of-nothing", "a constraint is reported as violated which is not posted"); }
    if (rep != viol) VFAIL("violations-incoherent", "the list of violations names" << names(rep) << ", asked one by one these are violated:" << names(viol));
    double total = s.ce->getViolation(), sum = 0; for (size_t k : viol) sum += s.cons[k].c->getViolation(); for (size_t k : live) if (!viol.count(k) && s.cons[k].c->getViolation() != 0) VFAIL("violations-incoherent", "c" << k << " is not violated but has a violation");
    if (std::fabs(total - sum) > 1e-9 || (total == 0) != viol.empty()) VFAIL("total-violation", "the total violation is " << total << ", the violated constraints are" << names(viol));
    if (s.ce->getViolationExpl().size() != (int)viol.size()) VFAIL("violations-incoherent", "explanations: " << s.ce->getViolationExpl().size() << ", violations:" << names(viol));
    for (size_t i = 0; i < s.vars.size(); i++) if (s.vars[i].alive) { double w = 0; for (size_t k : viol) if (std::find(s.cons[k].scope.begin(), s.cons[k].scope.end(), (int)i) != s.cons[k].scope.end()) w += s.cons[k].c->getViolation(); if (std::fabs(w - s.vars[i].v->getViolation()) > 1e-9) VFAIL("variable-violation", "the violation of v" << i << " is " << s.vars[i].v->getViolation() << ", that of its constraints " << w); }
    std::vector<char> on(s.cons.size(), 0); for (size_t k : live) on[k] = 1; std::string dom; bool ok = freshOf(s, on, &dom); ctx.count(viol.empty() ? "checks_without_violation" : "checks_with_violations"); if (viol.size() > 1) ctx.count("checks_with_several_violations");
    if (ok && !viol.empty()) VFAIL("violation-without-conflict", "the posted constraints are consistent, reported as violated:" << names(viol));
    if (!ok && viol.empty()) VFAIL("conflict-not-reported", "the posted constraints are not consistent, but no violation is reported;" << snapshot(s));
    for (size_t k : viol) on[k] = 0; if (!viol.empty() && !freshOf(s, on, &dom)) VFAIL("conflict-not-reported", "also without the constraints reported as violated (" << names(viol) << " ) the others are not consistent;" << snapshot(s));
    std::vector<int> grp(s.vars.size()); for (size_t i = 0; i < grp.size(); i++) grp[i] = (int)i; std::function<int(int)> root = [&](int x) { return grp[(size_t)x] == x ? x : grp[(size_t)x] = root(grp[(size_t)x]); };
    for (size_t k : live) for (int q : s.cons[k].scope) grp[(size_t)root(q)] = root(s.cons[k].scope[0]);
    std::string have = snapshot(s);
    if (dom != have) VFAIL("domains-differ", "with" << (viol.empty() ? " nothing" : names(viol)) << " violated:" << snapshot(s) << "; the others alone give:" << dom);
    for (size_t k : viol) { int g = root(s.cons[k].scope[0]); std::fill(on.begin(), on.end(), 0); for (size_t j : live) on[j] = root(s.cons[j].scope[0]) == g; if (freshOf(s, on, nullptr)) VFAIL("violation-not-in-conflict", "c" << k << " is reported as violated (" << names(viol) << " ) but all constraints it is connected with are consistent"); ctx.count("violations_confirmed"); }
  }
};

struct Reg { Reg() { registerWorld("ce", new CeWorld()); } } reg;
} // namespace
