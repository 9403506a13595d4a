// World "txn" (C12, C13): a client edits a plan with transaction logging on and
// stops at any point; what reached the log, cut off anywhere, is replayed in a
// fresh engine.  C13 rewinds the log to a breakpoint and plays it again.
#include "sess.h"
#include "side.h"
#include "DbClientTransactionLog.hh"
#include "DbClientTransactionPlayer.hh"
#include "tinyxml.h"
#include <sstream>
using namespace sim;
using namespace EUROPA;

namespace {
struct TxnWorld : World {
  static int cf(const Case& c, size_t i) { return i < c.cfg.size() ? c.cfg[i] : 0; }
  enum { X_CUT = 60, X_REWIND };
  void generate(Rng& r, const std::string& prop, Case& c) override {
    // cfg: 0-3 model as in world plan, 4 C13, 5 agenda 6 agenda seed, 7 durations
    bool rew = prop == "C13"; c.cfg = {r.below(2), r.chance(1, 2) ? 1 + r.below(3) : 0, r.below(3), r.below(2), rew, r.below(3) == 0, r.below(1000), r.chance(1, 3)};
    genModelOps(r, c, r.range(1, 4), r.chance(2, 3), r.chance(1, 3));
    std::vector<int> w = g_baseWeights; w[O_CHECK] = w[O_SNAP] = w[O_UNDO] = 0; w[O_PROP] = 0; w[O_DELT] = 5; if (rew) w[O_RESTR] = 0; else w[O_RESTR] = 4;
    genSessOps(r, c, r.range(4, 40), w);
    for (int i = rew ? 1 : r.range(1, 3); i > 0; i--) { Op o; o.k = rew ? X_REWIND : X_CUT; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); c.ops.push_back(o); }
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= 100 ? "model" : op.k == X_CUT ? "crash-and-replay" : op.k == X_REWIND ? "rewind" : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }
  // identities which depend on the order of creation only; what a conflict cut short is nobody's promise
  static std::string canon(Plan& p) {
    Plan q = p; q.names.clear(); q.nextMaster = q.nextOrphan = 0; q.refresh(); std::string d = q.dump(); if (d.compare(0, 2, "IN")) return d;
    std::istringstream i(d); std::string l, o; while (std::getline(i, l)) { if (!l.compare(0, 7, "toorder")) continue; if (!l.compare(0, 7, "object ")) l = l.substr(0, l.find(" tokens")); o += l + "\n"; } return o; }
  // what has been logged since goes to disk
  static void flush(DbClientTransactionLog* l, std::vector<std::string>& text) { std::ostringstream o; l->flush(o); std::istringstream i(o.str()); std::string s; while (std::getline(i, s)) if (!s.empty()) text.push_back(s + "\n"); }
  static std::string diff(const std::string& a, const std::string& b) {
    std::multiset<std::string> x, y; std::istringstream i(a), j(b); std::string l; while (std::getline(i, l)) x.insert(l); while (std::getline(j, l)) y.insert(l); std::string o;
    int n = 0; for (auto& s : x) if (!y.count(s) && n++ < 14) o += "  - " + s + "\n"; n = 0; for (auto& s : y) if (!x.count(s) && n++ < 14) o += "  + " + s + "\n"; return o.empty() ? "(order only)" : o; }
  void openPlan(Plan& p, const Case& c, const Model& m) { p.realAgenda = cf(c, 5) == 0; p.open((uint64_t)cf(c, 6), false); p.load(m); p.closeAll(); p.propagate(); p.cl->enableTransactionLogging(); }

  void run(const Case& c, Ctx& cx) override {
    std::string where = "model"; Sess s; s.ctx = &cx; s.chrono = true;
    try {
      s.m.durations = cf(c, 7) != 0; s.m.build(c); openPlan(s.p, c, s.m); if (cx.verbose) fprintf(stdout, "%s\n", s.m.nddl().c_str());
      DbClientTransactionLog* log = new DbClientTransactionLog(s.p.cl, false);
      std::vector<std::pair<size_t, std::string>> hist; std::vector<std::string> text, ops; bool over = false;
      auto mark = [&] { if (!cf(c, 4)) flush(log, text); hist.push_back(std::make_pair(text.size(), canon(s.p))); ops.push_back(s.last); };
      mark();
      for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& op = c.ops[i]; if (op.k >= 100) continue; cx.beginOp((int)i, op);
        if (op.k == X_CUT) { cut(c, op, s, hist, text, ops, cx, where); continue; }
        if (op.k == X_REWIND) { rewind(c, op, s, log, hist, ops, cx, where); break; }
        if (over || op.k >= NSOP) continue; where = g_sops[op.k];
        if (!s.apply(op)) { cx.count("skipped"); continue; }
        s.propagate(); cx.nontrivial = true; mark(); cx.state(hstr(hist.back().second));
        for (auto& n : s.p.names) if (n.second.find('~') != std::string::npos) over = true;   // what outlives its master has no path
      }
    } catch (Error& er) { VFAIL("unexpected-error", where << ": " << er.getMsg() << " | " << er.getCondition() << " (after " << s.last << ")"); }
    catch (std::exception& er) { VFAIL("unexpected-exception", where << ": " << er.what()); }
  }
  // The client stops after operation j, or while the next one is written; the log survives up to a byte.
  void cut(const Case& c, const Op& op, Sess& s, std::vector<std::pair<size_t, std::string>>& hist, std::vector<std::string>& text, std::vector<std::string>& ops, Ctx& cx, std::string& where) {
    size_t j = op.a[0] % 3 == 0 ? hist.size() - 1 : (size_t)op.a[1] % hist.size(); std::string t; for (size_t i = 0; i < hist[j].first; i++) t += text[i];
    if (t.empty()) { cx.count("empty_logs"); return; }
    bool torn = op.a[2] % 2 && hist[j].first < text.size(); size_t whole = t.size(); if (torn) { const std::string& e = text[hist[j].first]; size_t n = 1 + (size_t)(op.a[3] * 1000 + op.a[4]) % (e.size() - 2); if (op.a[5] % 3 == 0) { n = e.rfind("/>", e.size() - 4); n = n == std::string::npos ? 1 : n + 2; } t += e.substr(0, std::min(n, e.size() - 2)); cx.fault("log_torn_inside_an_entry"); } else cx.fault("log_cut_between_entries");
    Sess b; b.m = s.m; openPlan(b.p, c, b.m); std::string at = "replaying";
    int chunk = op.a[6] % 3;
    try {
      DbClientTransactionPlayer pl(b.p.cl);
      if (chunk == 0) { std::istringstream is(t); pl.play(is); }
      else { size_t i = 0, pos = 0; while (i < hist[j].first) { size_t n = chunk == 1 ? 1 : 1 + (size_t)(op.a[7] + (int)i) % 4; std::string part; for (; n > 0 && i < hist[j].first; n--, i++) { part += text[i]; pos += text[i].size(); } if (i == hist[j].first) part += t.substr(whole); at = "replaying " + part; std::istringstream is(part); pl.play(is); } }
    } catch (Error& er) { VFAIL("replay-error", "the log of a client which stopped after '" << ops[j] << "'" << (torn ? " (last entry cut off)" : "") << " cannot be replayed: " << er.getMsg() << " | " << er.getCondition() << " while " << at << "\nlog:\n" << t); }
    b.p.propagate(); std::string now = canon(b.p); cx.count(torn ? "replays_of_torn_logs" : "replays_of_cut_logs"); cx.count("entries_replayed", (int)hist[j].first);
    const std::string& want = hist[j].second; bool ok = want.compare(0, 10, "CONSISTENT") == 0;
    if (now != want) VFAIL(now.substr(0, 4) != want.substr(0, 4) ? "replay-consistency" : torn ? "torn-replay-differs" : "replay-differs", "a client stopped after '" << ops[j] << "'" << (torn ? " (last entry cut off)" : "") << "; the plan its log rebuilds differs (- was, + rebuilt):\n" << diff(want, now) << "log:\n" << t);
    cx.probe(ok ? "txn:replayed-consistent" : "txn:replayed-inconsistent");
  }
  void rewind(const Case& c, const Op& op, Sess& s, DbClientTransactionLog* log, std::vector<std::pair<size_t, std::string>>& hist, std::vector<std::string>& ops, Ctx& cx, std::string& where) { (void)c; (void)op; (void)s; (void)log; (void)hist; (void)ops; (void)cx; (void)where; }
};
struct Reg { Reg() { registerWorld("txn", new TxnWorld); } } reg;
}
