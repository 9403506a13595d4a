// World "stn": a client edits the temporal network (timepoints, distance
// constraints, narrowing, removal) with queries and propagation anywhere.
// Property C03.  Oracle: all-pairs shortest paths over the surviving constraints.
#include "core.h"
#include "eu.h"
#include <algorithm>
#include "TemporalNetworkDefs.hh"
#include "TemporalNetwork.hh"

using namespace sim;
using namespace EUROPA;

namespace {
typedef long long L;
const L INF = 1LL << 50;
enum OpK { ADDTP, ADDCON, DELCON, NARROW, DELTP, PROP, BOUNDS, DIST, DISTV, SIGNS, NOGOOD, LESS, DELTPRAW, NOPS };
const char* opName[] = {"addtp", "addcon", "delcon", "narrow", "deltp", "propagate", "bounds", "dist", "distvec", "signs", "nogood", "less", "deltp-with-constraints"};

struct TP { Timepoint* p; bool alive; };
struct TC { TemporalConstraint* c; int s, t; L lb, ub; bool alive; };

struct StnWorld : World {
  void generate(Rng& r, const std::string&, Case& c) override {
    int ntp = r.range(2, 9), n = r.range(8, 60);
    int span = r.range(0, 3);
    c.cfg = {span, r.below(3)};
    std::vector<int> w = {3, 16, 8, 5, 1, 5, 5, 5, 2, 2, 1, 2, 1};
    for (int i = 0; i < NOPS; i++) if (i != ADDCON && r.chance(1, 5)) w[(size_t)i] = 0;
    if (r.chance(1, 3)) w[DELCON] *= 3;
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < ntp + n; i++) {
      Op o; if (i < ntp) o.k = ADDTP; else { int x = r.below(tot); for (o.k = 0; x >= w[(size_t)o.k]; o.k++) x -= w[(size_t)o.k]; }
      for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000);
      c.ops.push_back(o);
    }
    Op p; p.k = BOUNDS; c.ops.push_back(p); p.k = DISTV; c.ops.push_back(p);
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << opName[op.k % NOPS]; for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  std::vector<TP> tps; std::vector<TC> tcs;
  std::vector<std::vector<L>> d; bool cons;

  void solve() {
    size_t n = tps.size(); d.assign(n, std::vector<L>(n, INF)); for (size_t i = 0; i < n; i++) d[i][i] = 0;
    for (auto& c : tcs) if (c.alive) {
      size_t s = (size_t)c.s, t = (size_t)c.t;
      if (c.ub < INF) d[s][t] = std::min(d[s][t], c.ub);
      if (c.lb > -INF) d[t][s] = std::min(d[t][s], -c.lb);
    }
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (d[i][k] < INF) for (size_t j = 0; j < n; j++) if (d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    cons = true; for (size_t i = 0; i < n; i++) if (d[i][i] < 0) cons = false;
  }
  static L ext(Time t) { if (t >= POS_INFINITY) return INF; if (t <= NEG_INFINITY) return -INF; return t; }
  static L neg(L v) { return v >= INF ? -INF : v <= -INF ? INF : -v; }
  static std::string show(L v) { return v >= INF ? "+inf" : v <= -INF ? "-inf" : std::to_string(v); }

  void run(const Case& c, Ctx& ctx) override {
    Error::doThrowExceptions(); Error::doNotDisplayErrors();
    TemporalNetwork& net = *new TemporalNetwork();
    tps.push_back(TP{&net.getOrigin(), true});
    auto live = [&](int a, bool origin) -> int { std::vector<int> l; for (size_t i = origin ? 0 : 1; i < tps.size(); i++) if (tps[i].alive) l.push_back((int)i); return l.empty() ? -1 : l[(size_t)(a % (int)l.size())]; };
    auto liveC = [&](int a) -> int { std::vector<int> l; for (size_t i = 0; i < tcs.size(); i++) if (tcs[i].alive) l.push_back((int)i); return l.empty() ? -1 : l[(size_t)(a % (int)l.size())]; };
    static const int spans[] = {4, 12, 60, 100000};
    int span = spans[c.cfg[0] & 3];
    auto bnd = [&](int a, int b) -> L { if (c.cfg[1] == 0 && a % 5 == 0) return 0; return (L)((a * 7919L + b * 104729L) % (2 * span + 1)) - span; };
    auto toT = [&](L v) -> Time { return v >= INF ? POS_INFINITY : v <= -INF ? NEG_INFINITY : (Time)v; };
    auto verdict = [&](bool got, const char* where) { if (got != cons) VFAIL(got ? "inconsistency-missed" : "false-inconsistency", where << ": network says " << (got ? "consistent" : "inconsistent") << ", the constraints are " << (cons ? "satisfiable" : "unsatisfiable")); };
    try {
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; const int* a = op.a; ctx.beginOp((int)i, op);
        std::ostringstream e; e << i << ":" << opName[op.k % NOPS];
        switch (op.k % NOPS) {
          case ADDTP: if (tps.size() > 12) break; tps.push_back(TP{&net.addTimepoint(), true}); e << " t" << tps.size() - 1; break;
          case ADDCON: {
            int s = live(a[0], true), t = live(a[1], true); if (s == t || tcs.size() > 60) break;
            L lb = bnd(a[2], a[3]), ub = bnd(a[4], a[5]); if (lb > ub) std::swap(lb, ub);
            switch (a[6] % 8) { case 0: lb = -INF; break; case 1: ub = INF; break; case 2: ub = lb; break; case 3: lb = ub = 0; break; case 4: if (a[7] % 4 == 0) { lb = -INF; ub = INF; } break; }
            TemporalConstraint* k = net.addTemporalConstraint(*tps[(size_t)s].p, *tps[(size_t)t].p, toT(lb), toT(ub));
            tcs.push_back(TC{k, s, t, lb, ub, true}); e << " c" << tcs.size() - 1 << " t" << s << "->t" << t << " [" << show(lb) << "," << show(ub) << "]"; break;
          }
          case DELCON: { int k = liveC(a[0]); if (k < 0) break; tcs[(size_t)k].alive = false; net.removeTemporalConstraint(*tcs[(size_t)k].c); e << " c" << k; ctx.fault("remove_constraint"); break; }
          case NARROW: {
            int k = liveC(a[0]); if (k < 0) break; TC& q = tcs[(size_t)k]; L lb = q.lb, ub = q.ub;
            L cand = bnd(a[1], a[2]); if (cand < lb || cand > ub) break;
            if (a[3] % 3 != 0) lb = cand; if (a[3] % 3 != 1) ub = cand; 
            net.narrowTemporalConstraint(*q.c, toT(lb), toT(ub)); q.lb = lb; q.ub = ub; e << " c" << k << " [" << show(lb) << "," << show(ub) << "]"; break;
          }
          case DELTP: case DELTPRAW: {
            int t = live(a[0], false); if (t < 0) break; int n = 0;
            for (size_t k = 0; k < tcs.size(); k++) if (tcs[k].alive && (tcs[k].s == t || tcs[k].t == t)) { tcs[k].alive = false; n++; if (op.k % NOPS == DELTP) net.removeTemporalConstraint(*tcs[k].c); }
            tps[(size_t)t].alive = false; net.deleteTimepoint(*tps[(size_t)t].p); e << " t" << t << " with " << n; ctx.fault("delete_timepoint"); break;
          }
          case PROP: { solve(); bool g = net.propagate(); e << " " << g; verdict(g, "propagate"); ctx.count("verdict_checks"); ctx.state(hcomb(3, g)); break; }
          case NOGOOD: {
            solve(); std::list<Dedge*> g = net.getEdgeNogoodList(); verdict(g.empty(), "nogood list");
            if (!g.empty()) { L sum = 0; for (Dedge* x : g) sum += x->length; if (sum >= 0) VFAIL("bad-nogood", "the reported conflict is not a negative cycle: total " << sum); ctx.count("nogood_checks"); }
            break;
          }
          case BOUNDS: {
            solve(); ctx.count("bounds_checks");
            for (size_t k = 0; k < tps.size(); k++) {
              if (!tps[k].alive) continue; Time lb, ub; net.getTimepointBounds(*tps[k].p, lb, ub);
              verdict(net.propagate(), "bounds");
              if (!cons) { if (lb <= ub) VFAIL("bounds-of-inconsistent", "inconsistent network reports bounds " << lb << ".." << ub); continue; }
              L wl = neg(d[k][0]), wu = d[0][k];
              if (ext(lb) != wl || ext(ub) != wu) VFAIL("wrong-bounds", "t" << k << " reported [" << show(ext(lb)) << "," << show(ext(ub)) << "], implied [" << show(wl) << "," << show(wu) << "]");
              ctx.state(hcomb((uint64_t)wl, (uint64_t)wu)); e << " [" << show(wl) << "," << show(wu) << "]";
            }
            if (cons) ctx.nontrivial = true; else ctx.probe("inconsistent_bounds_query");
            break;
          }
          case DIST: {
            solve(); int s = live(a[0], true), t = live(a[1], true); if (s == t) break; Time lb, ub; net.calcDistanceBounds(*tps[(size_t)s].p, *tps[(size_t)t].p, lb, ub);
            if (!cons) { if (lb <= ub) VFAIL("bounds-of-inconsistent", "inconsistent network reports distance"); break; }
            L wl = neg(d[(size_t)t][(size_t)s]), wu = d[(size_t)s][(size_t)t]; ctx.count("distance_checks"); ctx.nontrivial = true;
            if (ext(lb) != wl || ext(ub) != wu) VFAIL("wrong-distance", "t" << s << "->t" << t << " reported [" << show(ext(lb)) << "," << show(ext(ub)) << "], implied [" << show(wl) << "," << show(wu) << "]");
            e << " " << show(wl) << ".." << show(wu); break;
          }
          case DISTV: case SIGNS: {
            solve(); if (!net.propagate()) { verdict(false, "distance vector"); break; } verdict(true, "distance vector");
            int s = live(a[0], true); std::vector<Timepoint*> ts; std::vector<int> ix;
            for (size_t k = 0; k < tps.size(); k++) if (tps[k].alive && (int)k != s && (op.k == DISTV || a[(k % 6) + 1] % 3)) { ts.push_back(tps[k].p); ix.push_back((int)k); }
            if (ts.empty()) break;
            std::vector<Time> lbs, ubs;
            if (op.k % NOPS == DISTV) net.calcDistanceBounds(*tps[(size_t)s].p, ts, lbs, ubs); else net.calcDistanceSigns(*tps[(size_t)s].p, ts, lbs, ubs);
            ctx.count("distance_checks", (long)ts.size()); ctx.nontrivial = true;
            auto sg = [](L v) { return v < 0 ? -1 : v > 0; };
            for (size_t q = 0; q < ts.size(); q++) {
              size_t k = (size_t)ix[q]; L wl = neg(d[k][(size_t)s]), wu = d[(size_t)s][k];
              bool ok = op.k % NOPS == DISTV ? (ext(lbs[q]) == wl && ext(ubs[q]) == wu) : (sg(ext(lbs[q])) == sg(wl) && sg(ext(ubs[q])) == sg(wu));
              if (!ok) VFAIL(op.k % NOPS == DISTV ? "wrong-distance" : "wrong-sign", "from t" << s << " to t" << k << " reported [" << show(ext(lbs[q])) << "," << show(ext(ubs[q])) << "], implied [" << show(wl) << "," << show(wu) << "]");
            }
            break;
          }
          case LESS: {   // documented as an approximation that may only miss: a positive answer must be true
            solve(); if (!net.propagate()) { verdict(false, "less"); break; } verdict(true, "less");
            int s = live(a[0], true), t = live(a[1], true); if (s == t) break; L b = bnd(a[2], a[3]); if (b == 1 && a[4] % 2) b = 2;
            bool g = net.isDistanceLessThan(*tps[(size_t)s].p, *tps[(size_t)t].p, (Time)b); bool w = d[(size_t)s][(size_t)t] < b;
            ctx.count("less_checks"); e << " " << g;
            if (g && !w) VFAIL("wrong-less", "distance t" << s << "->t" << t << " is " << show(d[(size_t)s][(size_t)t]) << " but isDistanceLessThan(" << b << ") is true");
            if (!net.isDistancePossiblyLessThan(*tps[(size_t)s].p, *tps[(size_t)t].p, (Time)b) && w) VFAIL("wrong-possibly-less", "distance t" << s << "->t" << t << " is " << show(d[(size_t)s][(size_t)t]) << " but isDistancePossiblyLessThan(" << b << ") is false");
            break;
          }
        }
        ctx.ev(e.str());
      }
    } catch (Error& er) { VFAIL("unexpected-error", "EUROPA error: " << er.getMsg() << " | " << er.getCondition()); }
    catch (std::runtime_error& er) { VFAIL("unexpected-error", "error: " << er.what()); }
  }
};
struct Reg { Reg() { registerWorld("stn", new StnWorld()); } } reg;
}
