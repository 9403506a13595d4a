// World "threads" (C18): several threads use the process-wide tables at once;
// the simulator decides every switch between them.  Results are judged by the
// time intervals of the calls; at the end the tables must match exactly.
#include "sched.h"
#include "../core.h"
#include "Entity.hh"
#include "LabelStr.hh"
#include "IdTable.hh"
#include "Error.hh"
#include <typeinfo>
using namespace sim;
using namespace EUROPA;

namespace {
enum TOp { T_INTERN = 0, T_STR, T_ISSTR, T_SIZE, T_NEW, T_DEL, T_FIND, T_ALL, T_VALID, T_IDSIZE, T_RAWINS, T_RAWDEL, T_RAWKEY, T_TYPES, T_OUT, T_PURGE, T_COPY, T_BAD, NTOP };
const char* const names[] = {"intern", "text-of", "is-string", "label-count", "create", "destroy", "look-up", "all-entities", "validate", "id-count", "insert-id", "remove-id", "key-of-id", "type-counts", "print-ids", "purge", "copy-id", "bad-key"};
class Thing : public Entity { public: Id<Thing> m_id; int no; Thing(int n) : m_id(this), no(n) {} ~Thing() { m_id.remove(); } };
typedef Id<Thing> ThingId;

struct Label { std::string text; bool begun = false, known = false; double key = 0; };
struct Ent { Thing* p = nullptr; Entity* e = nullptr; eint key = 0; ThingId id; int owner = 0; int st = 0; bool seen = false, unseen = false; };  // st 1 being made, 2 live, 3 being destroyed, 4 gone
struct Raw { int st = 0; int owner = -1; unsigned key = 0; int inserting = 0; long gen = 0, dels = 0; };                     // st 1 present, 2 being removed
struct State {
  std::vector<Label> labels; std::map<double, int> byKey; std::vector<Ent> ents; std::vector<Raw> raws; std::set<unsigned> idKeys; std::map<std::string, int> entKeys;
  unsigned long labels0 = 0, ids0 = 0; std::set<EntityId> ents0; bool purging = false; long begunEnts = 0, begunRaws = 0; eint maxKey = -1; eint key0 = 0;
};
State* S; Ctx* cx;
const unsigned long RAW0 = 0x1000; unsigned long rawAddr(int i) { return RAW0 + 16UL * (unsigned long)i; }
std::string num(const eint k) { std::ostringstream o; o << k; return o.str(); }
#define BAD(cls, expr) do { std::ostringstream _o; _o << "thread " << Sched::me() << ": " << expr; throw Violation(cls, _o.str()); } while (0)

struct Bounds { std::vector<int> live; size_t n; int poss; std::vector<int> raws; std::vector<long> dels; int rposs; long rbegun; };
Bounds mark() { Bounds b; b.poss = 0; b.rposs = 0; b.n = S->ents.size(); b.rbegun = S->begunRaws; for (size_t i = 0; i < S->ents.size(); i++) { if (S->ents[i].st == 2) b.live.push_back((int)i); if (S->ents[i].st >= 1 && S->ents[i].st <= 3) b.poss++; }
  for (size_t i = 0; i < S->raws.size(); i++) { if (S->raws[i].st == 1) { b.raws.push_back((int)i); b.dels.push_back(S->raws[i].dels); } if (S->raws[i].st || S->raws[i].inserting) b.rposs++; } return b; }
long low(const Bounds& b, bool e, bool r) { long n = 0; if (e) for (int i : b.live) if (S->ents[(size_t)i].st == 2) n++; if (r) for (size_t k = 0; k < b.raws.size(); k++) if (S->raws[(size_t)b.raws[k]].st == 1 && S->raws[(size_t)b.raws[k]].dels == b.dels[k]) n++; return n; }
long high(const Bounds& b, bool e, bool r) { return (e ? b.poss + (long)(S->ents.size() - b.n) : 0) + (r ? b.rposs + (S->begunRaws - b.rbegun) : 0); }

const char* const rawTypes[] = {"simraw", "simraw1", "arawsim", "zraw", "mraw"};
bool isRawType(const std::string& t) { for (auto x : rawTypes) if (t == x) return true; return false; }
void checkTypes(const std::string& text, const Bounds& b) {
  std::istringstream in(text); std::string l; std::string tn = typeid(Thing).name(); long raws = 0;
  while (std::getline(in, l)) { std::istringstream f(l); long n; std::string t; if (!(f >> n >> t)) continue;
    if (t == tn && (n < low(b, true, false) || n > high(b, true, false))) BAD("id-table", "the count printed for " << t << " is " << n << " with between " << low(b, true, false) << " and " << high(b, true, false) << " such ids");
    if (isRawType(t)) { if (n < 0) BAD("id-table", "the count printed for " << t << " is " << n); raws += n; } }
  if (raws < low(b, false, true) || raws > high(b, false, true)) BAD("id-table", "the counts printed for raw ids add up to " << raws << " with between " << low(b, false, true) << " and " << high(b, false, true) << " such ids");
}
void newLabelKey(int li, double k) {
  Label& l = S->labels[(size_t)li]; if (l.known && l.key != k) BAD("label-key", "'" << l.text << "' got key " << k << " and has key " << l.key);
  auto it = S->byKey.find(k); if (it != S->byKey.end() && it->second != li) BAD("label-key", "'" << l.text << "' got key " << k << ", which is the key of '" << S->labels[(size_t)it->second].text << "'");
  l.known = true; l.key = k; S->byKey[k] = li;
}
void newIdKey(unsigned k, const std::string& what) { if (!S->idKeys.insert(k).second) BAD("id-table", what << " got id key " << k << ", which another id has"); }

void doOp(const Op& op) {
  int a = op.a[1];
  try { switch (op.k) {
    case T_INTERN: { int i = a % (int)S->labels.size(); Label& l = S->labels[(size_t)i]; l.begun = true; double k;
      if (op.a[6] % 3 == 0) k = cast_double(REAL(LabelStr::getKey(l.text))); else if (op.a[6] % 3 == 1) k = cast_double(REAL(LabelStr(l.text).getKey())); else k = cast_double(REAL(LabelStr(l.text.c_str()).getKey()));
      newLabelKey(i, k); break; }
    case T_STR: { std::vector<int> c; for (size_t i = 0; i < S->labels.size(); i++) if (S->labels[i].known) c.push_back((int)i); if (c.empty()) break; Label& l = S->labels[(size_t)c[(size_t)a % c.size()]];
      edouble key(l.key); if (!REAL(LabelStr::isString(key))) BAD("label-lookup", "the key of '" << l.text << "' is not known as one"); std::string t = REAL(LabelStr(key).toString()); if (t != l.text) BAD("label-lookup", "the key of '" << l.text << "' maps back to '" << t << "'"); break; }
    case T_ISSTR: { Label& l = S->labels[(size_t)a % S->labels.size()]; bool was = l.known; bool r = REAL(LabelStr::isString(l.text)); if (r && !l.begun) BAD("label-lookup", "'" << l.text << "' is known, never interned"); if (!r && was) BAD("label-lookup", "'" << l.text << "' is not known after it was interned"); break; }
    case T_SIZE: { unsigned long lo = S->labels0; for (auto& l : S->labels) if (l.known) lo++; unsigned long n = REAL(LabelStr::getSize()); unsigned long hi = S->labels0; for (auto& l : S->labels) if (l.begun) hi++; if (n < lo || n > hi) BAD("label-lookup", "the number of interned strings is " << n << ", must be between " << lo << " and " << hi); break; }
    case T_NEW: { size_t i = S->ents.size(); Ent e0; e0.st = 1; e0.owner = Sched::me(); S->ents.push_back(e0); Thing* p = REAL(new Thing((int)i)); Ent& e = S->ents[i]; e.p = p; e.e = p; e.key = p->getKey(); e.id = p->m_id;
      std::string k = num(e.key); if (S->entKeys.count(k)) BAD("entity-key", "a new entity got key " << k << ", which another entity has"); S->entKeys[k] = (int)i; if (e.key > S->maxKey) S->maxKey = e.key;
      std::ostringstream o; o << e.id; newIdKey((unsigned)atol(o.str().substr(3).c_str()), "a new entity"); e.st = 2; break; }
    case T_DEL: { std::vector<int> c; for (size_t i = 0; i < S->ents.size(); i++) if (S->ents[i].st == 2 && S->ents[i].owner == Sched::me()) c.push_back((int)i); if (c.empty()) break; size_t i = (size_t)c[(size_t)a % c.size()]; S->ents[i].st = 3; REAL(delete S->ents[i].p); S->ents[i].st = 4; break; }
    case T_FIND: { eint k = S->key0 + eint(a % (int)(S->ents.size() + 2)); auto it = S->entKeys.find(num(k)); int idx = it == S->entKeys.end() ? -1 : it->second; int st = idx < 0 ? 0 : S->ents[(size_t)idx].st;
      bool making = false; for (auto& e : S->ents) if (e.st == 1) making = true; size_t n0 = S->ents.size();
      EntityId r = REAL(Entity::getEntity(k)); it = S->entKeys.find(num(k)); if (idx < 0 && it != S->entKeys.end()) { idx = it->second; }
      if (r.isNoId()) { if (st == 2 && S->ents[(size_t)idx].st == 2) BAD("entity-lookup", "live entity with key " << k << " is not found"); break; }
      Entity* p = r.operator->();
      if (idx >= 0) { if (st == 4) BAD("entity-lookup", "entity with key " << k << " is found after its destruction"); if (p != S->ents[(size_t)idx].e) BAD("entity-lookup", "key " << k << " finds another entity"); }
      else if (!making && S->ents.size() == n0) BAD("entity-lookup", "key " << k << ", which no entity has, finds one");
      break; }
    case T_ALL: { std::vector<int> st; for (auto& e : S->ents) st.push_back(e.st); std::set<EntityId> r; REAL(Entity::getEntities(r)); std::set<Entity*> got; for (auto& e : r) got.insert(e.operator->());
      for (size_t i = 0; i < st.size(); i++) { bool in = got.count(S->ents[i].e) != 0; if (st[i] == 2 && S->ents[i].st == 2 && !in) BAD("entity-lookup", "live entity " << S->ents[i].key << " is not among all entities"); if (st[i] == 4 && in) { bool reused = false; for (size_t j = 0; j < S->ents.size(); j++) if (j != i && S->ents[j].p == S->ents[i].p && S->ents[j].st != 4) reused = true; for (auto& e : S->ents) if (e.st == 1) reused = true; if (!reused) BAD("entity-lookup", "destroyed entity " << S->ents[i].key << " is among all entities"); } }
      long poss = 0; for (auto s : st) if (s != 4) poss++; poss += (long)(S->ents.size() - st.size()); if ((long)r.size() > poss + (long)S->ents0.size()) BAD("entity-lookup", r.size() << " entities are listed, at most " << poss + (long)S->ents0.size() << " exist"); break; }
    case T_VALID: { if (S->ents.empty()) break; size_t i = (size_t)a % S->ents.size(); if (S->ents[i].st < 2) break; ThingId id = S->ents[i].id; int st = S->ents[i].st; bool v = REAL(id.isValid()); if (st == 2 && S->ents[i].st == 2 && !v) BAD("id-table", "the reference to live entity " << S->ents[i].key << " is invalid"); if (st == 4 && v) BAD("id-table", "the reference to destroyed entity " << S->ents[i].key << " is valid"); break; }
    case T_COPY: { std::vector<int> c; for (size_t i = 0; i < S->ents.size(); i++) if (S->ents[i].st == 2 && S->ents[i].owner == Sched::me()) c.push_back((int)i); if (c.empty()) break; size_t i = (size_t)c[(size_t)a % c.size()]; ThingId id0 = S->ents[i].id; EntityId e = REAL(EntityId(id0)); ThingId t = REAL(ThingId(e)); if (!(t == S->ents[i].id)) BAD("id-table", "a copied reference differs from the original"); break; }
    case T_IDSIZE: { Bounds b = mark(); long n = (long)REAL(IdTable::size()) - (long)S->ids0; if (n < low(b, true, true) || n > high(b, true, true)) BAD("id-table", "the table counts " << n << " ids, must be between " << low(b, true, true) << " and " << high(b, true, true)); break; }
    case T_RAWINS: { int i = a % (int)S->raws.size(); Raw& r = S->raws[(size_t)i]; int st0 = r.st; long d0 = r.dels; int ins0 = r.inserting; long g0 = r.gen; r.inserting++; S->begunRaws++; unsigned k = REAL(IdTable::insert(rawAddr(i), rawTypes[op.a[6] % 5])); r.inserting--;
      if (k) { if (r.st == 1 || (st0 == 1 && r.dels == d0)) BAD("id-table", "address " << i << " was inserted although it is present"); newIdKey(k, "an inserted address"); r.st = 1; r.owner = Sched::me(); r.key = k; r.gen++; }
      else if (st0 == 0 && ins0 == 0 && r.inserting == 0 && r.gen == g0) BAD("id-table", "address " << i << " was refused although it is absent"); break; }
    case T_RAWDEL: { std::vector<int> c; for (size_t i = 0; i < S->raws.size(); i++) if (S->raws[i].st == 1 && S->raws[i].owner == Sched::me()) c.push_back((int)i); if (c.empty()) break; Raw& r = S->raws[(size_t)c[(size_t)a % c.size()]]; r.st = 2; r.dels++; REAL(IdTable::remove(rawAddr((int)(&r - &S->raws[0])))); if (r.st == 2) { r.st = 0; r.owner = -1; } break; }
    case T_RAWKEY: { int i = a % (int)S->raws.size(); Raw& r = S->raws[(size_t)i]; int st0 = r.st; long d0 = r.dels, g0 = r.gen; int in0 = r.inserting; unsigned key0 = r.key; unsigned k = REAL(op.a[6] % 2 ? IdTable::getKey(rawAddr(i)) : (unsigned)IdTable::allocated(rawAddr(i))); bool one = op.a[6] % 2 == 0;
      if (st0 == 1 && r.dels == d0 && (one ? k != 1 : k != key0)) BAD("id-table", "present address " << i << " has key " << k << ", not " << key0); if (st0 == 0 && in0 == 0 && r.inserting == 0 && r.gen == g0 && k) BAD("id-table", "absent address " << i << " has key " << k); break; }
    case T_TYPES: { Bounds b = mark(); std::ostringstream o; REAL(IdTable::printTypeCnts(o)); checkTypes(o.str(), b); break; }
    case T_OUT: { Bounds b = mark(); std::ostringstream o; REAL(IdTable::output(o)); std::string t = o.str(); checkTypes(t, b); size_t p = t.find("Id Contents:"); long n = 0; if (p == std::string::npos) BAD("id-table", "the ids are not printed"); for (; p < t.size(); p++) if (t[p] == '(') n++; n -= (long)S->ids0; if (n < low(b, true, true) || n > high(b, true, true)) BAD("id-table", n << " ids are printed, must be between " << low(b, true, true) << " and " << high(b, true, true)); break; }
    case T_PURGE: { if (S->purging) { REAL(Entity::isPurging()); break; } S->purging = true; REAL(Entity::purgeStarted()); if (!REAL(Entity::isPurging())) BAD("entity-lookup", "purging is not reported as started"); REAL(Entity::purgeEnded()); S->purging = false; break; }
    case T_BAD: if (REAL(LabelStr::isString(edouble(-7.0)))) BAD("label-lookup", "a key that was never given out is known"); break;
  } } catch (Error& e) { BAD("error", names[op.k] << " raised: " << e.getCondition() << " " << e.getMsg()); }
}

struct ThreadWorld : World {
  void generate(Rng& r, const std::string&, Case& c) override {
    int nt = r.range(2, 4); bool storm = r.chance(1, 4); int nops = r.range(2, 5) * nt;
    // 0 threads, 1 labels, 2 labels interned before, 3 entities before, 4 raw ids before, 5 random switches: one in
    c.cfg = {nt, r.range(1, 6), r.below(3), r.below(4), r.below(3), storm ? (r.chance(1, 2) ? r.range(2, 20) : r.range(20, 400)) : 0, r.below(100000)};
    std::vector<int> w(NTOP); int focus = r.below(4);
    for (int k = 0; k < NTOP; k++) { bool lab = k <= T_SIZE, ent = k >= T_NEW && k <= T_ALL, id = k >= T_VALID && k <= T_OUT; w[(size_t)k] = focus == 0 ? (lab ? 10 : ent || id ? 1 : 0) : focus == 1 ? (ent ? 10 : k == T_VALID || k == T_PURGE || k == T_COPY ? 4 : 1) : focus == 2 ? (id ? 10 : k == T_NEW || k == T_DEL ? 8 : 1) : 4; }
    w[T_OUT] = std::min(w[T_OUT], 2); w[T_TYPES] = std::min(w[T_TYPES], 3); w[T_BAD] = 1; int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < nops; i++) {
      Op o; int x = r.below(tot); while (x >= w[(size_t)o.k]) x -= w[(size_t)o.k++]; o.a[0] = r.below(nt); o.a[1] = r.below(60); o.a[6] = r.below(60);
      if (!storm) for (int j = 2; j <= 4; j += 2) if (r.chance(1, 3)) { int span = r.below(4); o.a[j] = 1 + r.below(span == 0 ? 12 : span == 1 ? 60 : span == 2 ? 200 : 800); o.a[j + 1] = r.below(nt); }
      c.ops.push_back(o);
    }
  }
  std::string describe(const Case&, const Op& op) override { std::ostringstream o; o << "thread " << op.a[0] << " " << (op.k < NTOP ? names[op.k] : "?") << " " << op.a[1]; for (int j = 2; j <= 4; j += 2) if (op.a[j]) o << " [switch point " << op.a[j] << " -> thread " << op.a[j + 1] << "]"; return o.str(); }
  void run(const Case& c, Ctx& ctx) override {
    Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); cx = &ctx;
    S = new State; S->ents.reserve(200); int nt = c.cfg[0] < 1 ? 1 : c.cfg[0] > 6 ? 6 : c.cfg[0];
    for (int i = 0; i < c.cfg[1] || i < 1; i++) { Label l; l.text = std::string("label") + (char)('a' + i % 26); S->labels.push_back(l); } S->raws.resize(3);
    // type names are interned on first use; do that before counting
    { Thing* t = new Thing(-1); EntityId e = t->m_id; S->key0 = t->getKey() + eint(1); delete t; IdTable::insert(rawAddr(900), "simraw"); IdTable::remove(rawAddr(900)); for (auto x : rawTypes) LabelStr y(x); LabelStr x; Entity::getEntities(S->ents0); }
    S->labels0 = LabelStr::getSize(); S->ids0 = IdTable::size();
    for (int i = 0; i < c.cfg[2] && i < (int)S->labels.size(); i++) { S->labels[(size_t)i].begun = true; newLabelKey(i, cast_double(LabelStr(S->labels[(size_t)i].text).getKey())); }
    { Op o; o.k = T_NEW; for (int i = 0; i < c.cfg[3]; i++) { doOp(o); S->ents.back().owner = i % nt; } o.k = T_RAWINS; for (int i = 0; i < c.cfg[4] && i < 3; i++) { o.a[1] = i; doOp(o); S->raws[(size_t)i].owner = i % nt; } }
    if (c.cfg[5] > 0) Sched::storm((unsigned)c.cfg[6] + 1, c.cfg[5] < 2 ? 2 : c.cfg[5]); long points = 0;
    Sched::run(nt, [&](int me) {
      for (size_t i = 0; i < c.ops.size(); i++) { const Op& op = c.ops[i]; if (op.k < 0 || op.k >= NTOP || op.a[0] % nt != me) continue;
        std::vector<Preempt> p; for (int j = 2; j <= 4; j += 2) if (op.a[j] > 0) p.push_back(Preempt{op.a[j], op.a[j + 1]});
        Sched::beginOp(p, op.k); if (ctx.verbose) { fprintf(stdout, "thread %d: %s\n", me, describe(c, op).c_str()); fflush(stdout); } doOp(op); points += Sched::points(); ctx.count(std::string("op:") + names[op.k]); if (ctx.verbose) { fprintf(stdout, "thread %d: %s done after %ld switch points\n", me, names[op.k], Sched::points()); fflush(stdout); } } }, 3000000);
    // nothing runs any more: the tables must be exactly what the calls add up to
    long nl = 0, nr = 0; for (auto& e : S->ents) if (e.st == 2) nl++; for (auto& r : S->raws) if (r.st == 1) nr++;
    try {
      unsigned long known = S->labels0; for (size_t i = 0; i < S->labels.size(); i++) { Label& l = S->labels[i]; if (LabelStr::isString(l.text) != l.known) VFAIL("label-lookup", "at the end '" << l.text << "' is " << (l.known ? "not " : "") << "known"); if (!l.known) continue; known++; double k = cast_double(LabelStr(l.text).getKey()); if (k != l.key) VFAIL("label-key", "at the end '" << l.text << "' has key " << k << ", not " << l.key); if (LabelStr(edouble(k)).toString() != l.text) VFAIL("label-lookup", "at the end the key of '" << l.text << "' maps back to '" << LabelStr(edouble(k)).toString() << "'"); }
      if (LabelStr::getSize() != known) VFAIL("label-lookup", "at the end " << LabelStr::getSize() << " strings are counted, " << known << " were interned");
      std::set<EntityId> all; Entity::getEntities(all); if ((long)all.size() != nl + (long)S->ents0.size()) VFAIL("entity-lookup", "at the end " << all.size() << " entities are listed, " << nl + (long)S->ents0.size() << " are live");
      for (auto& e : S->ents) { EntityId f = Entity::getEntity(e.key); if (e.st == 2 ? (f.isNoId() || f.operator->() != e.e) : e.st == 4 && !f.isNoId()) VFAIL("entity-lookup", "at the end entity " << e.key << " is " << (f.isNoId() ? "not found" : "found wrongly")); if (e.id.isValid() != (e.st == 2)) VFAIL("id-table", "at the end the reference to entity " << e.key << " is " << (e.st == 2 ? "invalid" : "valid")); }
      if ((long)(IdTable::size() - S->ids0) != nl + nr) VFAIL("id-table", "at the end the table counts " << IdTable::size() - S->ids0 << " ids, " << nl + nr << " are in use");
      for (size_t i = 0; i < S->raws.size(); i++) { unsigned k = IdTable::getKey(rawAddr((int)i)); if (k != (S->raws[i].st == 1 ? S->raws[i].key : 0)) VFAIL("id-table", "at the end address " << i << " has key " << k << ", not " << (S->raws[i].st == 1 ? S->raws[i].key : 0)); }
      std::ostringstream o; IdTable::printTypeCnts(o); std::istringstream in(o.str()); std::string l, tn = typeid(Thing).name(); long raws = 0; while (std::getline(in, l)) { std::istringstream f(l); long n; std::string t; if (!(f >> n >> t)) continue; if (isRawType(t)) raws += n; if (t == tn && n != nl) VFAIL("id-table", "at the end the count printed for " << t << " is " << n << ", not " << nl); } if (raws != nr) VFAIL("id-table", "at the end the counts printed for raw ids add up to " << raws << ", not " << nr);
    } catch (Error& e) { VFAIL("error", "at the end: " << e.getCondition() << " " << e.getMsg()); }
    ctx.fault("thread-switch", Sched::switches); ctx.fault("wait-for-lock", Sched::blocked); ctx.count("switch_points", points); ctx.state(Sched::trace); ctx.nontrivial = Sched::switches > nt; ctx.ev(std::to_string(Sched::trace) + " " + std::to_string(points));
  }
};
struct Reg { Reg() { registerWorld("threads", new ThreadWorld); } } reg;
}
namespace sim { struct PropWorld { const char* prop; const char* world; int weight; }; extern const PropWorld g_propWorlds[]; extern const char* const g_realComponents; extern const char* const g_stubs; const char* const g_realComponents = "Utils (LabelStr, Entity, IdTable, Id, Mutex, Error, Debug) compiled from the current tree with a hook at every memory access"; const char* const g_stubs = "pthread mutexes, once-control and static-initialisation guards (cooperative model), operator new/delete, thread scheduler"; const PropWorld g_propWorlds[] = {{"C18", "threads", 1}, {nullptr, nullptr, 0}}; }
