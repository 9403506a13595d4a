// A complete EUROPA planning engine under the simulator: model generator,
// client operations on the plan database, canonical dump, temporal oracle.
#pragma once
#include "core.h"
#include "eu.h"
#include "EuropaEngine.hh"
#include "PlanDatabase.hh"
#include "PlanDatabaseListener.hh"
#include "DbClient.hh"
#include "Token.hh"
#include "TokenVariable.hh"
#include "Object.hh"
#include "ObjectType.hh"
#include "Timeline.hh"
#include "Schema.hh"
#include "RulesEngine.hh"
#include "RuleInstance.hh"
#include "TemporalAdvisor.hh"
#include "ObjectTokenRelation.hh"
#include <algorithm>

namespace sim {
using namespace EUROPA;

const long INFL = 1L << 40;

// ---- model ----------------------------------------------------------------
enum PType { T_ENUM, T_SMALL, T_INT, T_BOOL, T_OBJ0, T_OBJ1, NPTYPE };
struct MVar { std::string expr; int type; };            // an expression usable in a rule
struct MGuard { std::string expr; int type; int rel; int value; };   // rel 0: ==, 1: !=
struct MStmt { int kind; int rel; int pred; int id; std::string text; int thenB, elseB; MGuard g; std::string cname; std::string x, y; };
enum { ST_SUB, ST_LOCAL, ST_CON, ST_IF };
struct MBlock { std::vector<MStmt> stmts; std::vector<MVar> vis; int depth; };
struct MPred { int cls; std::vector<int> params; std::vector<std::string> body; std::vector<MBlock> blocks; int nextId = 0; std::set<std::pair<int,int>> used; };
struct Model {
  int ncls = 1; std::vector<int> timeline, nobj; std::vector<MPred> preds;
  bool durations = false;
  void build(const Case& c);
  std::string nddl() const;
  std::string predName(int p) const;
  static std::string typeName(int t);
  static std::string valueText(int t, int v);
};
extern const char* const g_rels[];
const int NRELS = 18;
enum MOp { M_PRED = 100, M_PARAM, M_PCON, M_SUB, M_IF, M_LOCAL, M_CON, M_END };
void genModelOps(Rng& r, Case& c, int npred, bool rules, bool guards);

// ---- engine ---------------------------------------------------------------
class PlanEngine : public EuropaEngine {
public:
  PlanEngine();
  void begin();              // doStart
  void end() { doShutdown(); }
};

struct Plan {
  PlanEngine* eng = nullptr; ConstraintEngineId ce; PlanDatabaseId db; DbClientId cl;
  const Model* model = nullptr; bool realAgenda = false;   // keep the order in which the Default propagator runs its agenda
  std::map<eint, std::string> names;     // token key -> structural identity
  int nextMaster = 0, nextOrphan = 0, nextCon = 0, nextVar = 0;
  std::map<int, ConstraintId> userCons;   // client constraints still alive, by number
  std::map<int, std::string> userConText;
  std::vector<ConstrainedVariableId> gvars;
  std::set<eint> seenCons;
  void open(uint64_t agendaSeed, bool autoProp, bool temporalSim = false);
  void load(const Model& m, bool objects = true);
  void closeAll();
  bool propagate();
  bool cons() { return ce->constraintConsistent(); }
  void refresh();                         // assign identities to new tokens
  std::string nameOf(const TokenId t);
  std::string nameOf(const ConstrainedVariableId v);
  std::vector<TokenId> tokens();           // ordered by identity
  std::vector<ObjectId> objects();         // ordered by name
  std::string dom(const Domain& d);
  std::string distText(const EUROPA::ConstrainedVariableId d, const EUROPA::ConstrainedVariableId from, const EUROPA::ConstrainedVariableId to);
  std::string now(const EUROPA::ConstrainedVariableId v);
  std::string dump(bool domains = true, bool noderived = false);
  std::string constraintText(const ConstraintId c);
};
int predOf(const Model& m, const TokenId t);

// ---- temporal oracle --------------------------------------------------------
struct TOracle {
  std::vector<ConstrainedVariableId> vars; std::map<eint, int> idx;
  std::vector<std::vector<long>> d; bool sat = true;
  void build(Plan& p);
  long lo(int i) const { return d[(size_t)i][0] >= INFL ? -INFL : -d[(size_t)i][0]; }
  long hi(int i) const { return d[0][(size_t)i]; }
  int find(const ConstrainedVariableId v) const { auto it = idx.find(v->getKey()); return it == idx.end() ? -1 : it->second; }
  void close();
};
long tnum(edouble v);
std::string show(long v);

} // namespace sim
