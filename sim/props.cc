namespace sim {
struct PropWorld { const char* prop; const char* world; int weight; };
extern const PropWorld g_propWorlds[];
extern const char* const g_realComponents; extern const char* const g_stubs;
const char* const g_realComponents = "all EUROPA libraries of the current tree (ConstraintEngine, TemporalNetwork, PlanDatabase, RulesEngine, NDDL interpreter, Solvers, Resource, System, TinyXml, Utils) run unmodified";
const char* const g_stubs = "operator new/delete, rand(), agenda order of the Default propagator (subclass), streams";
const PropWorld g_propWorlds[] = {
  {"C01", "ce", 1}, {"C02", "ce", 1}, {"C16", "ce", 1}, {"C03", "stn", 1},
  {"C04", "plan", 1}, {"C05", "plan", 1}, {"C06", "plan", 1}, {"C07", "plan", 1},
  {"C09", "solver", 1}, {"C10", "solver", 1}, {"C11", "solver", 1},
  {"C17", "twin", 1}, {"C15", "mirror", 1}, {"C14", "engines", 1},
  {"C08", "res", 1}, {"C12", "txn", 1}, {"C13", "txn", 1},
  {nullptr, nullptr, 0}
};
}
