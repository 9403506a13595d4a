// Shared helpers that sit on EUROPA's own extension points.
#pragma once
#include "core.h"
#include "Error.hh"
#include "Entity.hh"
#include "Engine.hh"
#include "LabelStr.hh"
#include "Module.hh"
#include "ConstraintEngine.hh"
#include "Constraint.hh"
#include "ConstrainedVariable.hh"
#include "ConstraintType.hh"
#include "Domains.hh"
#include "Propagators.hh"

namespace sim {

// Real DefaultPropagator whose agenda order is decided by the seed.
class SimPropagator : public EUROPA::DefaultPropagator {
public:
  SimPropagator(const std::string& n, const EUROPA::ConstraintEngineId ce, uint64_t seed, long limit)
    : EUROPA::DefaultPropagator(n, ce), m_rng(seed), m_limit(limit), m_steps(0), m_cycle(0) {}
  virtual void execute();
  virtual void execute(const EUROPA::ConstraintId c) { EUROPA::DefaultPropagator::execute(c); }
private:
  Rng m_rng; long m_limit, m_steps; unsigned m_cycle;
};

class CeEngine : public EUROPA::EngineBase {
public:
  CeEngine();
  ~CeEngine();
  EUROPA::ConstraintEngineId ce();
  void installAgenda(uint64_t seed, long limit);
};

} // namespace sim
