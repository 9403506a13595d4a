// World "engines" (C14): several engines in one process, each driven by a
// program of its own in a generated interleaving, with torn and wrong scripts
// and wrong operations thrown in, and shut down and restarted at any point.
// Each engine must show what it shows when it runs alone, and nothing an
// engine created may be left after its shutdown.
#include "side.h"
#include "Id.hh"
#include "PSSolversImpl.hh"
#include "NddlInterpreter.hh"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <errno.h>
using namespace sim;
using namespace EUROPA;

namespace {
enum EOp { E_USE = 500, E_SHUT, E_RESTART, E_SCRIPT, E_TORN, E_BADOP, E_END };
const char* enames[] = {"engine.use", "engine.shutdown", "engine.restart", "engine.script", "engine.torn-script", "engine.bad-operation"};
const char* mopNames[] = {"pred", "param", "pcon", "sub", "if", "local", "con"};
const char* const snippets[] = {
  "Foo x = new Foo();", "K0 oX = new K9();", "int v0 = ;", "int i = 3; int i = 4;", "undefinedVar == 3;", "eq(1, zz);", "nosuch(1, 2);", "close(;", "K0::P99 { }", "rejectable(K0.P99 t);",
  "goal(K0.P0 t); t.nosuch == 1;", "class Z extends Nope { }", "class Z { predicate P { Nope x; } }", "enum E2 {A, B, A};", "typedef int [5 1] W;", "typedef Nope W;", "int q = 1/0;", "string s = \"abc;", "/* open", "#include \"nofile.nddl\"",
  "o0_0.close();", "tt.activate();", "goal(K0.P0 t); t.activate(); t.reject();", "goal(K0.P0 a); goal(K0.P0 b); a.merge(b);", "K0 o0_0 = new K0();", "eq(o0_0, 1);", "E x = D;", "S y = 9;", "}", "{", ";;", "K0::P0 { meets(K0.P99 s); }", "K0::P0 { nosuch == 1; }",
  "bool b = maybe;", "xx.yy.zz = 1;", "o0_0.nosuchattr == 1;", "int g1 = 7;", "int g2; g2 = 3;", "E g3 = A;", "S g4; neq(g4, 1);", "goal(K0.P0 tk);", "rejectable(K0.P0 tr);", "close();", "class Y { int a; Y(int x) { a = x; } } Y y0 = new Y(3);", "class Y2 { int a; Y2(int x) { a = nox; } } Y2 y2 = new Y2(3);", "Y y1 = new Y(1, 2, 3);",
  "class T2 extends Timeline { predicate Q { int z; } } T2 t2 = new T2(); goal(T2.Q q); q.z == 3;", "", "   ", "int", "goal(", "goal(K0.P0 t", "K0::P0 {", "class", "float f = [0.0 1.0];", "float f2 = [1.0 0.0];", "leq(g2, g1);", "int lone = [3 5]; lone = 9;", "fact(K0.P0 fa); fa.start = 3; fa.start = 4;", "\"\"", "1 == 2;", "goal(K0.P0 c1); c1.cancel();", "goal(K0.P0 c2); c2.start.specify(4);", "o0_0.free(q9);", "if (1 == 1) { int in = 2; }",
  "#include \"inca.nddl\"\nIC ic = new IC(); goal(IC.P icp);", "#include \"incb.nddl\"", "#include \"incb.nddl\"\n#include \"inca.nddl\"\nid0 == 3;", "#include \"incbad.nddl\"", "#include \"incsem.nddl\"", "#include \"inca.nddl\"\nclass {", "#include \"incb.nddl\"\ngoal(ID.Q", "#include \"incloop.nddl\"", "IA ia = IA1;", "ID id1 = new ID(); goal(ID.P idp);" };
const char* const files[] = {"sim/inc/inca.nddl", "sim/inc/incb.nddl", "sim/inc/incbad.nddl", "sim/inc/incsem.nddl", "sim/inc/incloop.nddl"};
const int NSNIP = (int)(sizeof snippets / sizeof *snippets);
const char* const xmls[] = { "<goal><predicateinstance name=\"x\" type=\"K0.P99\"/></goal>", "<new type=\"Nope\" name=\"n\"/>", "<unknown/>", "<new type=\"K0\" name=\"kx\"></new>", "<var type=\"int\" name=\"vx\"><value type=\"int\" name=\"zz\"/></var>", "<specify><variable index=\"0\"/></specify>", "<new type=", "", "<invoke name=\"nosuch\" identifier=\"i\"></invoke>", "<activate name=\"zz\"/>", "<constrain><object name=\"o0_0\"/></constrain>", "<merge><token path=\"0\"/></merge>", "<reset><token path=\"9\"/></reset>", "text" };
const int NXML = (int)(sizeof xmls / sizeof *xmls);

std::string renamed(const std::string& t) {
  std::string r; for (size_t i = 0; i < t.size();) { if (!isalpha((unsigned char)t[i]) && t[i] != '_') { r += t[i++]; continue; } size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++; std::string w = t.substr(i, j - i); i = j;
    if (w == "E" || w == "S" || w == "U" || w == "A" || w == "B" || w == "C") w += "J"; else if (w.size() == 2 && w[0] == 'K') w[0] = 'J'; else if (w[0] == 'o' && w.size() > 2 && isdigit((unsigned char)w[1])) w = "j" + w; r += w; }
  return r;
}
std::string noDigits(const std::string& t) { std::string r; for (char ch : t) if (!isdigit((unsigned char)ch)) r += ch; if (r.size() > 300) r.resize(300); return r; }

struct EngineWorld : World {
  static int cf(const Case& c, size_t i) { return sideCfg(c, i); }
  void generate(Rng& r, const std::string&, Case& c) override {
    bool ord = r.chance(2, 3), times = r.chance(1, 6);
    // 0..13 as in world twin; 14 number of engines, 15 order of the final shutdowns
    int n = r.chance(1, 4) ? 1 : r.range(2, 3);
    c.cfg = {r.below(2), ord ? 1 + r.below(3) : 0, r.below(3), r.below(2), 0, r.below(4) == 0, r.below(1000), r.chance(1, 3), r.below(6), times, r.below(1000), r.below(1000), r.below(12), r.chance(4, 5), n, r.below(1000)};
    std::vector<std::vector<Op>> prog; auto mk = [&](int k) { Op o; o.k = k; for (int j = 0; j < NARG; j++) o.a[j] = r.below(1000); return o; };
    for (int e = 0; e < n; e++) {
      Case t; t.cfg = c.cfg; Op u = mk(E_USE); u.a[0] = e; c.ops.push_back(u); size_t at = c.ops.size();
      if (e > 0 && r.chance(1, 3)) { }                 // the same model shape may repeat: no model ops means a single plain predicate
      else { genModelOps(r, c, r.range(1, 3), r.chance(4, 5), r.chance(1, 2)); genConfigOps(r, c, r.chance(1, 3) ? "C11" : "C09"); } (void)at;
      std::vector<int> w = g_baseWeights; w[O_CHECK] = w[O_SNAP] = w[O_UNDO] = 0; t.ops.clear(); bool solv = r.chance(1, 2);
      if (solv) { w[O_DELT] = w[O_CAN] = w[O_RST] = w[O_DELC] = w[O_UNORD] = w[O_RESTR] = 1; w[O_PROP] = 8; w[O_TOK] = 16; w[O_ACT] = w[O_MERGE] = w[O_REJ] = w[O_SPEC] = w[O_ORD] = 2; w[O_CON] = 14; }
      genSessOps(r, t, r.range(2, solv ? 16 : 26), w); if (solv) { t.ops.push_back(mk(S_ATTACH)); for (int i = r.range(1, 5); i > 0; i--) { int x = r.below(8); t.ops.push_back(mk(x < 4 ? S_SOLVE : x < 6 ? S_STEP : x < 7 ? S_RESET : S_BACKJUMP)); } }
      int faults = r.below(4); for (int i = 0; i < faults; i++) { int x = r.below(10); Op o = mk(x < 4 ? E_SCRIPT : x < 6 ? E_TORN : x < 8 ? E_BADOP : x < 9 ? E_SHUT : E_RESTART); t.ops.insert(t.ops.begin() + r.below((int)t.ops.size() + 1), o); }
      prog.push_back(t.ops);
    }
    std::vector<size_t> at((size_t)n, 0); int cur = -1; std::vector<int> delay; for (int e = 0; e < n; e++) delay.push_back(r.chance(1, 3) ? r.below(30) : 0);
    for (int guard = 0; guard < 2000; guard++) { std::vector<int> live; for (int e = 0; e < n; e++) if (at[(size_t)e] < prog[(size_t)e].size()) live.push_back(e); if (live.empty()) break; int e = r.pick(live); if (delay[(size_t)e]-- > 0 && live.size() > 1) continue; int len = r.range(1, 4); if (e != cur) { Op u = mk(E_USE); u.a[0] = e; c.ops.push_back(u); cur = e; } while (len-- > 0 && at[(size_t)e] < prog[(size_t)e].size()) c.ops.push_back(prog[(size_t)e][at[(size_t)e]++]); }
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << (op.k >= E_USE && op.k < E_END ? std::string(enames[op.k - E_USE]) : op.k >= S_ATTACH && op.k < S_SVEND ? std::string(g_svops[op.k - S_ATTACH]) : op.k >= 200 ? std::string(op.k == G_FILTER ? "config.filter" : "config.handler") : op.k >= 100 && op.k < M_END ? std::string("model.") + mopNames[op.k - 100] : op.k < NSOP ? g_sops[op.k] : "?"); for (int i = 0; i < NARG; i++) o << " " << op.a[i]; return o.str(); }

  // one engine: its program, its side, what it showed
  struct Eng { Case c; Side* x = nullptr; bool erred = false, closed = false; std::string text; Ctx k; std::set<std::string> mine; int no = 0, steps = 0; };
  static std::set<std::string> keysNow() { std::set<EntityId> s; Entity::getEntities(s); std::set<std::string> r; for (auto& e : s) { std::ostringstream o; o << e->getKey(); r.insert(o.str()); } return r; }
  static std::string typeOf(const std::string& k) { EntityId e = Entity::getEntity(eint(atol(k.c_str()))); if (e.isNoId()) return "?"; return std::string(typeid(*e.operator->()).name()); }
  static void open(Eng& e, PlanEngine* reuse = nullptr) { e.x = new Side; e.x->s.p.eng = reuse; e.erred = false; sideOpen(*e.x, e.c); e.x->s.p.eng->getConfig()->setProperty("nddl.includePath", "sim/inc"); e.k.ev("opened"); }
  static void dropSolver(Eng& e) { if (e.x && e.x->S) { delete e.x->S; delete e.x->l; e.x->S = nullptr; } }
  static PlanEngine* stop(Eng& e, bool keep) { dropSolver(e); PlanEngine* p = e.x->s.p.eng; p->end(); if (!keep) { delete p; p = nullptr; } e.x = nullptr; e.k.ev("shut down"); return p; }
  static std::string tornText(Eng& e, const Op& op) {
    Case t = e.c; t.cfg[0] = op.a[6]; Model m; m.durations = false; m.build(t); std::string s = renamed(m.nddl()); for (int i = 0; i < 2; i++) s += "J0 jx" + std::to_string(op.a[5] % 7) + " = new J0();\ngoal(J0.P0 jt" + std::to_string(i) + ");\n";
    int kind = op.a[0] % 4; size_t n = s.size(); size_t at = (size_t)(op.a[1] * 1000 + op.a[2]) % n;
    if (kind == 0) return s.substr(0, at); std::vector<std::pair<size_t, size_t>> tk; for (size_t i = 0; i < n;) { if (isspace((unsigned char)s[i])) { i++; continue; } size_t j = i + 1; if (isalnum((unsigned char)s[i])) while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++; tk.push_back({i, j - i}); i = j; }
    auto q = tk[at % tk.size()]; if (kind == 1) return s.erase(q.first, q.second); auto z = tk[(size_t)(op.a[3] * 7 + op.a[4]) % tk.size()]; std::string w = s.substr(z.first, z.second); if (kind == 2) return s.replace(q.first, q.second, w); return s.insert(q.first, w + " ");
  }
  static void script(Eng& e, const std::string& lang, const std::string& text, bool file = false) {
    e.k.ev("script " + lang + ": " + text); std::string r; Side& x = *e.x;
    try { r = "returned " + x.s.p.eng->executeScript(lang, text, file); } catch (Error& er) { r = "error " + er.getCondition() + " " + er.getMsg(); } catch (PSLanguageExceptionList& l) { r = "syntax error " + std::to_string(l.getExceptionCount()); } catch (std::string& t) { r = "thrown " + t; } catch (std::exception& ex) { r = std::string("exception ") + ex.what(); }
    e.k.ev(noDigits(r)); x.s.dirty = true; e.k.probe(r.substr(0, r.find(' ') + 1) == "returned " ? (r.size() > 9 ? "script-reported-errors" : "script-accepted") : "script-raised");
  }
  static void badOp(Eng& e, const Op& op) {
    Side& x = *e.x; Plan& p = x.s.p; std::string what, r = "returned"; std::vector<TokenId> ts = p.tokens(); TokenId t = ts.empty() ? TokenId() : ts[(size_t)op.a[1] % ts.size()], u = ts.empty() ? TokenId() : ts[(size_t)op.a[2] % ts.size()]; std::vector<ObjectId> os = p.objects(); ObjectId o = os.empty() ? ObjectId() : os[(size_t)op.a[3] % os.size()];
    try { switch (op.a[0] % 17) {
      case 0: what = "create a token of an unknown type"; p.cl->createToken("Nope.X"); break;
      case 1: what = "create an object of an unknown type"; p.cl->createObject("Nope", "nope"); break;
      case 2: what = "create a variable of an unknown type"; p.cl->createVariable("nope", "nv"); break;
      case 3: what = "create an unknown constraint"; { std::vector<ConstrainedVariableId> sc; if (!t.isNoId()) { sc.push_back(t->start()); sc.push_back(t->end()); } p.cl->createConstraint("nosuch", sc); } break;
      case 4: what = "create an object with a used name"; if (o.isNoId()) break; p.cl->createObject("K0", o->getName().c_str()); break;
      case 5: what = "activate an active token"; if (t.isNoId() || !t->isActive()) { what = ""; break; } p.cl->activate(t); break;
      case 6: what = "cancel an inactive token"; if (t.isNoId() || !t->isInactive()) { what = ""; break; } p.cl->cancel(t); break;
      case 7: what = "merge with an inactive token"; if (t.isNoId() || !t->isInactive() || !u->isInactive()) { what = ""; break; } p.cl->merge(t, u); break;
      case 8: what = "specify a value outside the domain"; if (t.isNoId() || !t->isActive()) { what = ""; break; } p.cl->specify(t->duration(), edouble(-5.0)); break;
      case 9: what = "free a token which is not constrained"; if (t.isNoId() || o.isNoId() || !t->isActive() || !o->getPrecedenceConstraint(t, t).isNoId()) { what = ""; break; } p.cl->free(o, t, t); break;
      case 10: what = "a plugin which does not exist"; p.eng->loadModule("/nonexistent/libnothing.so"); break;
      case 11: what = "close a type twice"; p.db->close("K0"); p.db->close("K0"); break;
      case 12: what = "a script in an unknown language"; p.eng->executeScript("klingon", "x", false); break;
      case 14: case 15: { std::string ty = "K" + std::to_string(op.a[3] % 3) + ".P" + std::to_string(op.a[4] % 4); if (p.db->getSchema()->isPredicate(ty)) break; what = "create a token of type " + ty + ", which this engine has not got"; p.cl->createToken(ty); break; }
      case 16: { std::string ty = "K" + std::to_string(op.a[3] % 4); if (p.db->getSchema()->isObjectType(ty)) break; what = "create an object of type " + ty + ", which this engine has not got"; p.cl->createObject(ty, "nope"); break; }
      case 13: what = "a script which cannot be read"; p.eng->executeScript("nddl", "/nonexistent/x.nddl", true); break;
    } } catch (Error& er) { r = "error " + er.getCondition() + " " + er.getMsg(); } catch (std::string& s) { r = "thrown " + s; } catch (std::exception& ex) { r = std::string("exception ") + ex.what(); }
    if (what.empty()) return; e.k.ev("bad operation: " + what + ": " + noDigits(r)); if (r != "returned") { e.erred = true; e.k.probe("operation-raised"); } else x.s.dirty = true;
  }
  static void step(Eng& e, const Op& op) {
    randSeed(hcomb((uint64_t)e.steps++, (uint64_t)sideCfg(e.c, 11)));   // rand() is shared by the process: each engine draws from its own stream
    if (op.k == E_SHUT) { if (e.x) stop(e, false); return; }
    if (op.k == E_RESTART) { if (e.x) { PlanEngine* p = stop(e, true); open(e, p); } return; }
    if (!e.x) open(e);
    if (op.k == E_SCRIPT || op.k == E_TORN || op.k == E_BADOP) { if (e.erred || (e.x->S && e.x->S->getDepth() > 0)) return; }
    if (op.k == E_SCRIPT) { if (op.a[2] % 8 == 0) script(e, "nddl-xml", xmls[op.a[1] % NXML]); else if (op.a[2] % 8 == 1) script(e, "nddl", files[op.a[1] % 5], true); else { std::string t = snippets[op.a[0] % NSNIP]; if (op.a[2] % 3 == 0) t += std::string("\n") + snippets[op.a[1] % NSNIP]; script(e, "nddl", t); } if (e.x->s.p.cons()) e.x->s.propagate(); sideShow(*e.x, e.k); return; }
    if (op.k == E_TORN) { script(e, "nddl", tornText(e, op)); sideShow(*e.x, e.k); return; }
    if (op.k == E_BADOP) { badOp(e, op); return; }
    if (e.erred) return;
    try { sideStep(*e.x, e.c, op, e.k); } catch (Error& er) { e.k.ev("error " + noDigits(er.getCondition() + " " + er.getMsg())); e.erred = true; } catch (Violation& v) { e.k.ev("violation " + v.cls); e.erred = true; } catch (Stop& v) { e.k.ev("stop " + v.why); e.erred = true; }
  }
  struct Part { int e; const Op* op; };
  static void split(const Case& c, std::vector<Eng>& es, std::vector<Part>& seq) {
    int n = cf(c, 14); if (n < 1) n = 1; if (n > 4) n = 4; es.resize((size_t)n); for (int i = 0; i < n; i++) { Case& t = es[(size_t)i].c; t.world = c.world; t.prop = c.prop; t.sched = c.sched; t.cfg = c.cfg; while (t.cfg.size() < 16) t.cfg.push_back(0); t.cfg[1] = (t.cfg[1] + i) % 4; t.cfg[2] += i; t.cfg[6] += i; es[(size_t)i].no = i; }
    int cur = 0; for (auto& o : c.ops) { if (o.k == E_USE) { cur = o.a[0] % n; continue; } es[(size_t)cur].c.ops.push_back(o); if (!(o.k >= 100 && o.k < S_ATTACH)) seq.push_back(Part{cur, &o}); }
  }
  // run the engines of `which` (-1: all) in this process; the text of each
  static std::string go(const Case& c, int which, bool verbose) {
    std::vector<Eng> es; std::vector<Part> seq; split(c, es, seq); std::string out; Error::doThrowExceptions(); Error::doNotDisplayErrors(); std::set<std::string> before = keysNow(); std::string problem;
    for (auto& e : es) { e.k.sink = &e.text; e.k.verbose = verbose; }
    arenaBegin(c.sched + 5, true);
    auto track = [&](Eng& e, const std::set<std::string>& a) { std::set<std::string> b = keysNow(); for (auto& k : b) if (!a.count(k)) e.mine.insert(k);
      for (auto& o : es) { bool shut = !o.x; for (auto i = o.mine.begin(); i != o.mine.end();) { if (!b.count(*i)) { if (o.no != e.no && problem.empty()) problem = "an entity of engine " + std::to_string(o.no) + " was destroyed by an operation on engine " + std::to_string(e.no); i = o.mine.erase(i); } else ++i; }
        if (shut && !o.mine.empty() && problem.empty()) { std::map<std::string, int> ty; for (auto& k : o.mine) ty[typeOf(k)]++; problem = std::to_string(o.mine.size()) + " entities remain after the shutdown of engine " + std::to_string(o.no) + ":"; for (auto& t : ty) problem += " " + t.first + " x" + std::to_string(t.second); } } };
    try {
      for (auto& s : seq) { if (which >= 0 && s.e != which) continue; Eng& e = es[(size_t)s.e]; std::set<std::string> a = keysNow(); if (verbose) { fprintf(stdout, "--- engine %d: op %d\n", s.e, s.op->k); fflush(stdout); } step(e, *s.op); track(e, a); }
      std::vector<int> order; for (int i = 0; i < (int)es.size(); i++) order.push_back(i); Rng sr((uint64_t)cf(c, 15)); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)sr.below((int)i)]);
      for (int i : order) { Eng& e = es[(size_t)i]; if ((which >= 0 && i != which) || !e.x) continue; std::set<std::string> a = keysNow(); stop(e, false); track(e, a); }
      std::set<std::string> after = keysNow(); for (auto& k : after) if (!before.count(k) && problem.empty()) problem = "an entity remains after the shutdown of every engine: " + typeOf(k);
    } catch (Error& er) { problem = "error while an engine is opened or shut down: " + er.getCondition() + " " + er.getMsg(); } catch (Stop& s) { out += "STOP " + s.why + "\n"; } catch (std::exception& ex) { problem = std::string("exception: ") + ex.what(); }
    for (auto& e : es) { if (which >= 0 && e.no != which) continue; out += "ENGINE " + std::to_string(e.no) + "\n" + e.text; for (auto& q : e.k.counters) out += "COUNT " + q.first + " " + std::to_string(q.second) + "\n"; }
    if (!problem.empty()) out += "PROBLEM " + problem + "\n"; return out;
  }
  struct Got { std::string text; int st = 0; };
  static Got isolated(const Case& c, int which, bool verbose) {
    int fd[2]; Got g; if (pipe(fd)) throw Stop{"pipe"}; fflush(stdout); pid_t p = fork(); if (p < 0) throw Stop{"fork"};
    if (p == 0) { close(fd[0]); struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &tv, nullptr); std::string s = go(c, which, verbose); const char* q = s.data(); size_t n = s.size(); while (n) { ssize_t w = write(fd[1], q, n); if (w <= 0) break; q += w; n -= (size_t)w; } fflush(stdout); _exit(0); }
    close(fd[1]); char b[65536]; for (;;) { ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; g.text.append(b, (size_t)n); } close(fd[0]); while (waitpid(p, &g.st, 0) < 0 && errno == EINTR) {} return g;
  }
  static std::vector<std::string> lines(const std::string& t, int engine, std::string& problem, Ctx* cx) {
    std::vector<std::string> r; std::istringstream in(t); std::string l; int cur = -1; while (std::getline(in, l)) { if (l.compare(0, 7, "ENGINE ") == 0) { cur = atoi(l.c_str() + 7); continue; } if (l.compare(0, 8, "PROBLEM ") == 0) { problem = l.substr(8); continue; } if (l.compare(0, 6, "COUNT ") == 0) { size_t q = l.rfind(' '); if (cx) cx->counters[l.substr(6, q - 6)] += atol(l.c_str() + q); continue; } if (cur == engine) r.push_back(l); } return r;
  }
  void run(const Case& c, Ctx& cx) override {
    std::vector<Eng> es; std::vector<Part> seq; split(c, es, seq); int n = (int)es.size(); std::string problem, none;
    for (auto& s : seq) if (s.op->k >= E_USE) cx.fault(enames[s.op->k - E_USE]);
    Got all = isolated(c, -1, cx.verbose); if (all.st) { cx.ev("died"); VFAIL("died", "with " << n << " engines the process ends with status " << all.st); }
    lines(all.text, -2, problem, &cx); if (!problem.empty()) { cx.ev(problem); VFAIL(problem.compare(0, 5, "error") == 0 || problem.compare(0, 5, "excep") == 0 ? "error" : "entities", problem); }
    if (all.text.find("STOP ") != std::string::npos) throw Stop{"engine"}; cx.nontrivial = all.text.size() > 300; cx.count("engines", n); cx.ev(std::to_string(hstr(all.text))); cx.state(hstr(all.text));
    if (n > 1) for (int i = 0; i < n; i++) {
      Got one = isolated(c, i, false); if (one.st) { cx.ev("died"); VFAIL("died", "engine " << i << " alone: the process ends with status " << one.st); } std::string p2; std::vector<std::string> a = lines(all.text, i, none, nullptr), b = lines(one.text, i, p2, nullptr); if (!p2.empty()) { cx.ev(p2); VFAIL("entities", "alone: " << p2); }
      for (size_t k = 0; k < a.size() || k < b.size(); k++) if (k >= a.size() || k >= b.size() || a[k] != b[k]) { cx.ev("differ"); VFAIL("differs", "line " << k << " of engine " << i << " is '" << (k < a.size() ? a[k] : "(end)") << "' next to the others and '" << (k < b.size() ? b[k] : "(end)") << "' alone"); }
      cx.count("lone_comparisons"); cx.count("lines_compared", (long)a.size()); }
    size_t q = all.text.find("\nerror "); if (q != std::string::npos) cx.probe("engine-operation-error");
  }
};
struct Reg { Reg() { registerWorld("engines", new EngineWorld); } } reg;
}
