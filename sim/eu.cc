#include "eu.h"
#include "ModuleConstraintEngine.hh"
#include <boost/cast.hpp>

using namespace EUROPA;
namespace sim {

void SimPropagator::execute() {
  unsigned cyc = getConstraintEngine()->cycleCount();
  if (cyc != m_cycle) { m_cycle = cyc; m_steps = 0; }
  if (++m_steps > m_limit) throw Violation("no-termination", "propagation executed more constraints than the step limit in one cycle");
  if (m_agenda.size() > 1) {
    size_t k = (size_t)m_rng.below((int)m_agenda.size());
    if (g_ctx) g_ctx->count("agenda_choices");
    if (k > 0) {
      ConstraintSet::iterator it = m_agenda.begin(); std::advance(it, (long)k);
      // if the propagator drops its agenda, what was set aside is dropped too
      bool hadOthers = false; { ConstraintSet::iterator n = it; ++n; hadOthers = n != m_agenda.end(); }
      std::vector<ConstraintId> stash(m_agenda.begin(), it);
      for (size_t i = 0; i < stash.size(); i++) m_agenda.erase(stash[i]);
      DefaultPropagator::execute();
      if (!(hadOthers && m_agenda.empty())) for (size_t i = 0; i < stash.size(); i++) m_agenda.insert(stash[i]);
      return;
    }
  }
  DefaultPropagator::execute();
}

CeEngine::CeEngine() {
  Error::doThrowExceptions();
  Error::doNotDisplayErrors();
  addModule((new ModuleConstraintEngine())->getId());
  addModule((new ModuleConstraintLibrary())->getId());
  doStart();
}
CeEngine::~CeEngine() { doShutdown(); }
ConstraintEngineId CeEngine::ce() { return boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"))->getId(); }
void CeEngine::installAgenda(uint64_t seed, long limit) { new SimPropagator("Default", ce(), seed, limit); }

}
