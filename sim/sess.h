// One client session on a plan database: applies generated operations, knows
// which of them are legal, and can undo the decisions made since a snapshot.
#pragma once
#include "plan.h"

namespace sim {
enum SOp { O_TOK, O_ACT, O_MERGE, O_REJ, O_CAN, O_DELT, O_SPEC, O_RST, O_RESTR, O_CON, O_DELC, O_ORD, O_UNORD, O_PROP, O_CHECK, O_SNAP, O_UNDO, NSOP };
extern const char* const g_sops[];
enum DK { D_TOK, D_CAN, D_SPEC, D_CON, D_ORD };
struct Dec { int kind; eint a, b, o; int con; std::string text; };

struct Sess {
  Plan p; Model m; Ctx* ctx = nullptr;
  bool chrono = false;            // what transaction logging permits: tokens deleted last in first out, none outlives its master
  bool temporalOnly = false;      // client constraints only on times
  std::vector<Dec> decs; bool snap = false; std::string snapDump; std::vector<std::string> snapDecs;
  bool dirty = false;             // something happened since the last propagation
  std::string last;               // text of the last applied operation
  std::map<int, std::pair<eint, eint>> cons;   // client constraint -> constraint key, created variable key (or -1)
  bool apply(const Op& op);       // false: not applicable, nothing done
  bool propagate();
  bool undoOne(Rng& r);           // undo one permitted decision; false when none is left
  bool clean() { return !dirty && p.cons(); }
  std::string seqText(const TimelineId tl);
  std::vector<TokenId> filter(const std::function<bool(const TokenId)>& f);
  bool canMerge(const TokenId t, const TokenId a);
  bool carries(const TokenId t, eint e); bool ordered(const TokenId t); bool constrained(const TokenId t); bool supports(const TokenId t);
private:
  TokenId tok(eint k); ConstraintId con(eint k); ConstrainedVariableId var(eint k);
};
// weights for the session operations; false entries are switched off
void genSessOps(Rng& r, Case& c, int n, std::vector<int> w);
extern const std::vector<int> g_baseWeights;
} // namespace sim
