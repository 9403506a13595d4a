From 5d72c88d98b54d59901afa8e993b6aa9bf5c322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 01/64] fix: delete the parts of an eqProduct constraint before
 its internal variables

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..01688e6 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1013,6 +1013,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
+    // The contained constraints have to go before the variables they constrain.
+    m_eqProductC5.reset();
+    m_eqProductC4.reset();
+    m_eqProductC3.reset();
+    m_eqProductC2.reset();
+    m_eqProductC1.reset();
     // Further unwind for contained variables
     // m_product1.discard();
     // m_product2.discard();
-- 
2.43.0


From 9dc9b167729393c16915c35ddbe741477f5c4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 02/64] fix: condEq stops when equating empties either domain

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 01688e6..1bf71c1 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1165,8 +1165,9 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
         for (bool changedOne = true; changedOne; ) {
           changedOne = false;
           for (i = 2; i < ARG_COUNT; i++) {
-            changedOne = dom1.equate(getCurrentDomain(m_variables[i])) || changedOne;
-            if (dom1.isEmpty())
+            Domain& domi = getCurrentDomain(m_variables[i]);
+            changedOne = dom1.equate(domi) || changedOne;
+            if (dom1.isEmpty() || domi.isEmpty())
               return; // inconsistent: cannot all be the same but condition var requires they are.
           }
         }
-- 
2.43.0


From 62dfe7f8338aa1b4d5a57f2ec3679521f330c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 03/64] fix: testNeq and absVal do not touch emptied or
 unsplittable domains

---
 .../ConstraintEngine/component/Constraints.cc      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 1bf71c1..2e3ed01 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1969,14 +1969,11 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
-	}
-	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
-	}
+	if(!NotEqualConstraint::checkAndRemove(m_arg1, m_arg2))
+	  NotEqualConstraint::checkAndRemove(m_arg2, m_arg1);
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
@@ -2209,7 +2206,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
       ub = std::max(std::abs(m_y.getLowerBound()), m_y.getUpperBound());
     }
 
-    m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.intersect(IntervalDomain(lb, ub)) && m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
-- 
2.43.0


From 817248af1e3273168c0068af7ef7346307ff28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 04/64] fix: keep pending and redundant constraints across
 inconsistency and deactivation

---
 .../ConstraintEngine/base/Constraint.cc       |  4 +--
 .../ConstraintEngine/base/ConstraintEngine.cc | 29 +++++++++++++++----
 .../ConstraintEngine/base/ConstraintEngine.hh |  6 ++++
 .../ConstraintEngine/component/Propagators.cc | 16 +++-------
 4 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..5a8c6cc 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -293,8 +293,8 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
-    // Prevent deactivation if redundant
-    if(isRedundant())
+    // Prevent reactivation if redundant, unless it is still waiting to be propagated for the last time
+    if(isRedundant() && !m_constraintEngine->isPendingRedundant(m_id))
       return;
 
     m_deactivationRefCount--;
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..7c430ae 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -44,6 +44,7 @@ namespace EUROPA
     virtual void addEmptyVariable(ConstrainedVariableId c);
     virtual const ConstrainedVariableSet& getEmptyVariables() const;
     virtual void clearEmptyVariables();
+    virtual void removeEmptyVariable(ConstrainedVariableId v);
     virtual void relaxEmptyVariables();
 
   protected:
@@ -202,6 +203,11 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
     m_emptyVariables.clear();
   }
 
+  void ViolationMgrImpl::removeEmptyVariable(ConstrainedVariableId v)
+  {
+    m_emptyVariables.erase(v);
+  }
+
   void ViolationMgrImpl::relaxEmptyVariables()
   {
     if (m_relaxing)
@@ -455,8 +461,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     if(Entity::isPurging())
       return;
 
-    if(getViolationMgr().isEmpty(variable))
-      clearEmptyVariables();
+    // Only this variable goes: any other empty variable still has to be relaxed.
+    getViolationMgr().removeEmptyVariable(variable);
 
     publish(notifyRemoved(variable));
 
@@ -578,9 +584,10 @@ void ConstraintEngine::add(const PropagatorId propagator){
   void ConstraintEngine::notifyRedundant(const ConstraintId redundantConstraint){
     debugMsg("ConstraintEngine:notifyRedundant", redundantConstraint->toString());
 
+    m_redundantConstraints.insert(redundantConstraint);
+
     // If active, want to push it on the agenda for propagation
     if(redundantConstraint->isActive()){
-      m_redundantConstraints.insert(redundantConstraint);
       notifyActivated(redundantConstraint); // Make sure it gets propagated
     }
   }
@@ -824,8 +831,8 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
+    // May have been emptied by a specification that follows a relaxation, before propagating
+    m_relaxed.erase(variable);
     getViolationMgr().handleEmpty(variable);
   }
 
@@ -1023,17 +1030,27 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
    */
   void ConstraintEngine::processRedundantConstraints(){
     checkError(constraintConsistent(), "Can only process when fully propagated.");
+    ConstraintSet inactive;
     for(ConstraintSet::const_iterator it = m_redundantConstraints.begin();
 	it != m_redundantConstraints.end();
 	++it){
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
       checkError(constraint->isRedundant(), "Must be redundant. Buffering error.");
+      // If it is switched off it has not been propagated yet: keep it for when it is back.
+      if(!constraint->isActive()){
+	inactive.insert(constraint);
+	continue;
+      }
       constraint->deactivate();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
 
-    m_redundantConstraints.clear();
+    m_redundantConstraints.swap(inactive);
+  }
+
+  bool ConstraintEngine::isPendingRedundant(const ConstraintId constraint) const {
+    return m_redundantConstraints.find(constraint) != m_redundantConstraints.end();
   }
 
 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 48113bc..f783588 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -48,6 +48,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
   	  virtual void addEmptyVariable(ConstrainedVariableId c) = 0;
   	  virtual const ConstrainedVariableSet& getEmptyVariables() const = 0;
   	  virtual void clearEmptyVariables() = 0;
+  	  virtual void removeEmptyVariable(ConstrainedVariableId v) = 0;
       virtual void relaxEmptyVariables() = 0;
 
   	protected:
@@ -527,6 +528,11 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
      */
     void processRedundantConstraints();
 
+    /**
+     * @brief True while a redundant constraint still has to be propagated before it is deactivated for good.
+     */
+    bool isPendingRedundant(const ConstraintId constraint) const;
+
     /**
      * @brief Allow ViolationMgr to inform us of updates we should publish
      */
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..7d12785 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,10 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // If this has been proven inconsistent the agenda is kept: constraints on it that do not involve the
+    // variables to be relaxed later would not be put back by that relaxation.
+    condDebugMsg(getConstraintEngine()->provenInconsistent(), "DefaultPropagator:agenda",
+                 "CE was proven inconsistent, keeping agenda because propagation can continue later");
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From c38afa8e6801806792614ffb8e59b5e271e30ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 05/64] fix: mixed enumerated and interval domains in allDiff
 and eq

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 src/PLASMA/ConstraintEngine/component/Domains.cc     | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 2e3ed01..1091f46 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1248,7 +1248,8 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration has gaps that the interval being added may fill.
+  bool changing = (*unionOfDomains)->isEnumerated();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..1b979b5 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 2491abe12b6e5e423ac0ab98c8a687ce4e79a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 06/64] fix: deleting a timepoint removes it from the edge maps
 of its predecessors

---
 src/PLASMA/TemporalNetwork/base/DistanceGraph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..f6ffdff 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -113,6 +113,7 @@ Void DistanceGraph::deleteNode(Dnode& node)
   for (Int j=0; j < node.inCount; j++) {
     Dedge* edge = node.inArray[j];
     detachEdge(edge->from.outArray, edge->from.outCount, *edge);
+    edge->from.edgemap.erase(&node);
     eraseEdge(*edge);
   }
   node.inCount = node.outCount = 0;
-- 
2.43.0


From c3d34f52e1944ccf72eab1585ad090419e983288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 07/64] fix: keep timepoint equivalence rings consistent when a
 member already has a leader

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..008ec0f 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -969,7 +969,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From b4dbab6cddee71858576b4fc8fdc948e868e75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 08/64] fix: keep the source of a migrated constraint ahead of
 its propagation when merging tokens

---
 src/PLASMA/PlanDatabase/base/MergeMemento.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/MergeMemento.cc b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
index 43c3596..21f7647 100644
--- a/src/PLASMA/PlanDatabase/base/MergeMemento.cc
+++ b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
@@ -172,10 +172,15 @@ namespace EUROPA{
 
       debugMsg("europa:merging:migrateConstraint", "Creating replacement for " << constraint->toString());
       ConstraintId newConstraint;
-      newConstraint = m_activeToken->getPlanDatabase()->getConstraintEngine()->createConstraint(constraint->getName(),newScope);
+      // Constraints may rely on their source when they execute, so do not propagate before it has been set.
+      ConstraintEngineId constraintEngine = m_activeToken->getPlanDatabase()->getConstraintEngine();
+      const bool autoPropagate = constraintEngine->getAutoPropagation();
+      constraintEngine->setAutoPropagation(false);
+      newConstraint = constraintEngine->createConstraint(constraint->getName(),newScope);
 
       // Now set the source on the new constraint to give opportunity to pass data
       newConstraint->setSource(constraint);
+      constraintEngine->setAutoPropagation(autoPropagate);
       m_newConstraints.push_back(newConstraint);
     }
 
-- 
2.43.0


From 8a38aab39d7004d44acc4798e2191385662cae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 09/64] fix: token restrictions contributed by merged tokens
 survive relaxation of the variable

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..315f8d1 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,10 +284,12 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
-    	this->m_derivedDomain->relax(*m_integratedBaseDomain);
+    // Unless specified, relax only as far as the restrictions of the merged tokens permit. Relaxing to the base domain
+    // of this variable first would lose them since a domain cannot be relaxed to a smaller one.
+    if(this->isSpecified())
+      Variable<DomainType>::relax();
+    else
+      this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
 }
-- 
2.43.0


From 7d3d62d5c7af5bb929e3662428e4a8a2b0785d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 10/64] fix: undoing a rule instance removes every constraint
 it posted

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..563f2b9 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -303,12 +303,11 @@ void RuleInstance::undo() {
       ConstraintId constr = *it;
       checkError(constr.isValid(), constr);
 
-      // Only discard constraints that are connected to the master since the master may persist after the rule has cleaned up
-      // but the constraints should not. If it is not connected to the master then it applies to local variables or slave variables.
-      // if a full roll-back of the rule occurs, slaves and local variables will be deleted, causing a delete of the attendant constraints.
-      // In the event that a slave persists, as cann occur when the master is removed through termination, then the constraints among
-      // remaining slaves should also be retained
-      if(connectedToToken(constr, m_token)){
+      // Discard every constraint the rule has posted, including those which only relate slaves or variables of an enclosing
+      // rule: those persist when just a guarded part of the rule is undone, and a slave cannot be deleted with constraints on it.
+      // In the event that a slave persists, as can occur when the master is removed through termination, the constraints among
+      // remaining slaves should be retained, so then only discard what is connected to the master.
+      if(!m_token->isTerminated() || connectedToToken(constr, m_token)){
         debugMsg("RuleInstance:undo",
                  "Removing connected constraint " << constr->toLongString());
 	delete static_cast<Constraint*>(constr);
-- 
2.43.0


From 8dfa172bae2fc604815157e2a5dcb92ed6f1e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 11/64] fix: strict precedence relations no longer leak an
 anonymous distance variable

---
 src/PLASMA/NDDL/component/Interpreter.cc | 30 ++++++++----------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..a8dcda3 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1005,16 +1005,6 @@ TokenId PredicateInstanceRef::createSubgoal(EvalContext& context,
   }
 
 
-#define makeStrictPrecedenceRelation(origin, originvar, target, targetvar) { \
-    PlanDatabase* db = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));\
-    std::vector<ConstrainedVariableId> vars;				\
-    ConstrainedVariableId var = (new Variable<IntervalIntDomain>(db->getConstraintEngine(), IntervalIntDomain(1, PLUS_INFINITY)))->getId(); \
-    vars.push_back(origin->originvar());				\
-    vars.push_back(var);						\
-    vars.push_back(target->targetvar());				\
-    makeConstraint(context, "temporalDistance", vars, "");			\
-  }
-
 namespace {
 void createRelation(EvalContext& context,
                     const std::string& relationName,
@@ -1059,38 +1049,38 @@ void createRelation(EvalContext& context,
     makeRelation(precedes, target, end, origin, end);
   }
   else if (relationName == "ends_after") {
-    makeStrictPrecedenceRelation(target, end, origin, end);
+    makeRelation(strictlyPrecedes, target, end, origin, end);
   }
   else if (relationName == "ends_before") {
-    makeStrictPrecedenceRelation(origin, end, target, end);
+    makeRelation(strictlyPrecedes, origin, end, target, end);
   }
   else if (relationName == "ends_after_start") {
-    makeStrictPrecedenceRelation(target, start, origin, end);
+    makeRelation(strictlyPrecedes, target, start, origin, end);
   }
   else if (relationName == "starts_before_end") {
-    makeStrictPrecedenceRelation(origin, start, target, end);
+    makeRelation(strictlyPrecedes, origin, start, target, end);
   }
   else if (relationName == "starts_during") {
     makeRelation(precedes, target, start, origin, start);
-    makeStrictPrecedenceRelation(origin, start, target, end);
+    makeRelation(strictlyPrecedes, origin, start, target, end);
   }
   else if (relationName == "ends_during") {
-    makeStrictPrecedenceRelation(target, start, origin, end);
+    makeRelation(strictlyPrecedes, target, start, origin, end);
     makeRelation(precedes, origin, end, target, end);
   }
   else if (relationName == "contains_start") {
     makeRelation(precedes, origin, start, target, start);
-    makeStrictPrecedenceRelation(target, start, origin, end);
+    makeRelation(strictlyPrecedes, target, start, origin, end);
   }
   else if (relationName == "contains_end") {
-    makeStrictPrecedenceRelation(origin, start, target, end);
+    makeRelation(strictlyPrecedes, origin, start, target, end);
     makeRelation(precedes, origin, end, target, end);
   }
   else if (relationName == "starts_after") {
-    makeStrictPrecedenceRelation(target, start, origin, start);
+    makeRelation(strictlyPrecedes, target, start, origin, start);
   }
   else if (relationName == "starts_before") {
-    makeStrictPrecedenceRelation(origin, start, target, start);
+    makeRelation(strictlyPrecedes, origin, start, target, start);
   }
   else if (relationName == "equals") {
     makeRelation(concurrent, origin, start, target, start);
-- 
2.43.0


From 66c9801c01b2a76c6467f20834d5f59a30ba249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 12/64] fix: cancelling an ordered token no longer re-enters
 the object removal notification

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..1e4ab48 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -144,10 +144,16 @@ namespace EUROPA {
 
       ObjectId object = *it;
 
-      if(!active || !m_currentDomain.isMember(object)){
+      // A token that has been ordered on an object is tied to it by a constraint, which cannot be deleted while propagating.
+      // Leave it: the constraint conflicts with the restriction, so propagation is going to find the inconsistency.
+      bool tied = active && m_constraintEngine->isPropagating() && object->isConstrainedToThisObject(m_token);
+
+      if(!active || (!m_currentDomain.isMember(object) && !tied)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
+	// Removal can relax the object variable (when it deletes the constraints that tie the token to the object)
+	// and so call back into this method. Forget the object first so that it is not removed twice.
 	m_notifiedObjects.erase(object);
+	object->remove(m_token);
       } else {
 	startIndex++;
       }
-- 
2.43.0


From dfcb658ad6b8577c5530638e82912d8034ea4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 13/64] fix: a temporal constraint relating a timepoint to
 itself holds or is a conflict instead of an error

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..5693ef6 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -455,6 +455,13 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
     check_error(startTp);
     check_error(endTp);
 
+    // A constraint relating a timepoint to itself, as arises when the tokens it relates are merged, has no counterpart
+    // in the network. It either holds trivially or is a conflict.
+    if(startTp == endTp) {
+      if(lb > 0 || ub < 0)
+        getCurrentDomain(start).empty();
+      return;
+    }
 
     TemporalConstraint* c = m_tnet->addTemporalConstraint(*startTp,
                                                           *endTp,
-- 
2.43.0


From d3499437c0605dc1928382f9b7cf9decc964f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 14/64] fix: temporal constraints left unprocessed by a
 conflict are applied once it is withdrawn

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 5693ef6..e65fab7 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -541,7 +541,8 @@ void TemporalPropagator::processVariableChanges() {
 
 void TemporalPropagator::processConstraintChanges() {
   debugMsg("TemporalPropagator:updateTnet", "Processing changed constraints... ");
-  for( ConstraintsSet::const_iterator it = m_changedConstraints.begin(); it != m_changedConstraints.end(); ++it){
+  ConstraintsSet::iterator it = m_changedConstraints.begin();
+  for(; it != m_changedConstraints.end(); ++it){
     ConstraintId constraint = *it;
     if(!constraint->isActive())
       continue;
@@ -553,7 +554,8 @@ void TemporalPropagator::processConstraintChanges() {
     if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations())
       break;
   }
-  m_changedConstraints.clear();
+  // Keep those which have not been processed, since they still have to be applied once the conflict has been withdrawn.
+  m_changedConstraints.erase(m_changedConstraints.begin(), it);
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed constraints... ");
 
 }
-- 
2.43.0


From 74cf23a78f0ee96cca848c8099a31bf1c2b3a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 15/64] fix: no automatic propagation in reaction to a domain
 change

---
 .../ConstraintEngine/base/ConstraintEngine.cc  | 18 +++++++++++++++++-
 .../ConstraintEngine/base/ConstraintEngine.hh  |  1 +
 src/PLASMA/PlanDatabase/base/Object.cc         |  4 ++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 7c430ae..857c4d5 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -312,6 +312,7 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
       //, m_relaxed(false)
     , m_relaxed()
     , m_propInProgress(false)
+    , m_notificationDepth(0)
     , m_deleted(false)
     , m_purged(false)
     , m_dirty(false)
@@ -342,7 +343,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
    * Even if propagation is enabled automatically, we don't want to do it if already going on.
    */
   bool ConstraintEngine::shouldAutoPropagate() const {
-    return m_autoPropagate && ! m_propInProgress;
+    // Not in reaction to a domain change either, since the operation which causes it is still under way.
+    return m_autoPropagate && ! m_propInProgress && m_notificationDepth == 0;
   }
 
   bool ConstraintEngine::getAutoPropagation() const
@@ -776,11 +778,25 @@ void ConstraintEngine::add(const PropagatorId propagator){
     return result;
   }
 
+namespace {
+/** Counts the scopes entered, also when they are left by an exception */
+class DepthCounter {
+ public:
+  explicit DepthCounter(unsigned int& depth) : m_depth(depth) { ++m_depth; }
+  ~DepthCounter() { --m_depth; }
+ private:
+  DepthCounter(const DepthCounter&);
+  DepthCounter& operator=(const DepthCounter&);
+  unsigned int& m_depth;
+};
+}
+
 void ConstraintEngine::notify(const ConstrainedVariableId source,
                               const DomainListener::ChangeType& changeType){
   check_error(!Entity::isPurging());
   check_error(source.isValid());
 
+  DepthCounter notificationDepth(m_notificationDepth);
   m_dirty = true;
 
   // If variable is inavtice, no impact.
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index f783588..7204d4d 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -562,6 +562,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
     //bool m_relaxed;           /*!< Set when a domain is RELAXED. Implies PENDING. */
     std::set<ConstrainedVariableId> m_relaxed;
     bool m_propInProgress;    /*!< Set true when doing propagation, otherwise false. */
+    unsigned int m_notificationDepth; /*!< Greater than 0 while the reactions to a domain change are under way. */
     bool m_deleted;           /*!< Used to control cleanup, preventing cycles. */
     bool m_purged;            /*!< Indicates if the engine has been purged of its data */
     bool m_dirty;              /*!< Flag to record if any messages handled without propagating consequences */
diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..4ef1686 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -334,7 +334,7 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
   m_planDatabase->notifyConstrained(m_id, predecessor, successor);
   check_error(isValid());
 
-  if (getPlanDatabase()->getConstraintEngine()->getAutoPropagation())
+  if (getPlanDatabase()->getConstraintEngine()->shouldAutoPropagate())
     getPlanDatabase()->getConstraintEngine()->propagate();
 
 }
@@ -384,7 +384,7 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
     m_planDatabase->notifyFreed(m_id, predecessor, successor);
     check_error(isValid());
 
-    if (getPlanDatabase()->getConstraintEngine()->getAutoPropagation())
+    if (getPlanDatabase()->getConstraintEngine()->shouldAutoPropagate())
     	getPlanDatabase()->getConstraintEngine()->propagate();
   }
 
-- 
2.43.0


From be6fd3bef5a1b6b5f3848f5d683248ecd13bb666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 16/64] fix: a token variable specified by its base domain
 stays so when a merge is undone

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 315f8d1..56bd1b0 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -138,8 +138,15 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template <class DomainType>
   void TokenVariable<DomainType>::handleRestrictBaseDomain(const Domain& domain){
+    const bool wasSpecified = this->isSpecified();
     Variable<DomainType>::handleRestrictBaseDomain(domain);
 
+    // If it has been specified since there is just one value left, it is so irrespective of any merged tokens
+    if(!wasSpecified && this->isSpecified()) {
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->getSpecifiedValue();
+    }
+
     if(this->m_integratedBaseDomain->isOpen() && domain.isClosed())
       this->m_integratedBaseDomain->close();
 
-- 
2.43.0


From 53c56bfa25ff9e5cb09cd8e25a9a2da1096ddbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 17/64] fix: report temporal conflicts on an active variable

---
 .../TemporalNetwork/component/TemporalPropagator.cc    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index e65fab7..cf3a891 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -307,7 +307,15 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
           m_timepointToVar.find(*(updatedTimepoints.begin()));
       check_error(it != m_timepointToVar.end());
       ConstrainedVariableId var = it->second;
-      
+
+      // Report the conflict on an active variable. The domain of an inactive one, as for a merged token, is not considered
+      // so the conflict would go unnoticed.
+      for(std::set<Timepoint*>::const_iterator tpIt = updatedTimepoints.begin(); tpIt != updatedTimepoints.end() && !var->isActive(); ++tpIt) {
+        it = m_timepointToVar.find(*tpIt);
+        if(it != m_timepointToVar.end() && it->second->isActive())
+          var = it->second;
+      }
+
       if (getConstraintEngine()->getAllowViolations())
           collectViolations(var);
       else
-- 
2.43.0


From 118a549dd9c93af7801cb3ab11c7337ea0d9919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 18/64] fix: a token variable specified by closing its domain
 stays so when a merge is undone

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 56bd1b0..26ddcf7 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -72,6 +72,8 @@ private:
 
     void handleConstraintRemoved(const ConstraintId constraint);
 
+    void recordImplicitSpecification(bool wasSpecified);
+
     DomainType* m_integratedBaseDomain; /**< The integrated base domain over this and all supported tokens. */
     bool m_isLocallySpecified;
     edouble m_localSpecifiedValue;
@@ -120,8 +122,10 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template <class DomainType>
   void TokenVariable<DomainType>::close(){
+    const bool wasSpecified = this->isSpecified();
     Variable<DomainType>::close();
     this->m_integratedBaseDomain->close();
+    recordImplicitSpecification(wasSpecified);
   }
 
   template <class DomainType>
@@ -141,11 +145,7 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
     const bool wasSpecified = this->isSpecified();
     Variable<DomainType>::handleRestrictBaseDomain(domain);
 
-    // If it has been specified since there is just one value left, it is so irrespective of any merged tokens
-    if(!wasSpecified && this->isSpecified()) {
-      m_isLocallySpecified = true;
-      m_localSpecifiedValue = this->getSpecifiedValue();
-    }
+    recordImplicitSpecification(wasSpecified);
 
     if(this->m_integratedBaseDomain->isOpen() && domain.isClosed())
       this->m_integratedBaseDomain->close();
@@ -153,6 +153,15 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
     this->m_integratedBaseDomain->intersect(domain);
   }
 
+  template <class DomainType>
+  void TokenVariable<DomainType>::recordImplicitSpecification(bool wasSpecified){
+    // If it has been specified since there is just one value left, it is so irrespective of any merged tokens
+    if(!wasSpecified && this->isSpecified()) {
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->getSpecifiedValue();
+    }
+  }
+
   template <class DomainType>
   void TokenVariable<DomainType>::setSpecified(edouble singletonValue){
     check_error(this->m_parentToken.isValid());
-- 
2.43.0


From 287caa876fd0302dba0cd49cff5d7e05f24ed404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 19/64] fix: a token which outlived its master is deleted when
 it no longer supports merged tokens

---
 src/PLASMA/PlanDatabase/base/DbClient.cc | 5 +++--
 src/PLASMA/PlanDatabase/base/Token.cc    | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/DbClient.cc b/src/PLASMA/PlanDatabase/base/DbClient.cc
index 2d32523..8d1b73c 100644
--- a/src/PLASMA/PlanDatabase/base/DbClient.cc
+++ b/src/PLASMA/PlanDatabase/base/DbClient.cc
@@ -223,9 +223,10 @@ void DbClient::deleteToken(const TokenId token, const std::string& name) {
     }
 
 
-    token->cancel();
-
+    // The token may be gone afterwards, if it was just supporting merged tokens
     debugMsg("DbClient:cancel", token->toString());
+
+    token->cancel();
   }
 
   ConstraintId DbClient::createConstraint(const std::string& name,
diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..96b2338 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -406,6 +406,10 @@ void Token::doMerge(const TokenId activeToken){
     memento.release();
 
     m_planDatabase->notifySplit(m_id);
+
+    // The active token may have outlived its master, just to support this one
+    if(activeTokenDeleted && !activeToken->isDeleted())
+      delete static_cast<Token*>(activeToken);
   }
 
   void Token::reject(){
@@ -459,6 +463,9 @@ void Token::doMerge(const TokenId activeToken){
     if(isCommitted() && !isDeleted())
       return;
 
+    // Hold on to this token while it is being deactivated, as the merged tokens may be all that keeps it
+    incRefCount();
+
     while(!m_mergedTokens.empty()){
       TokenId tokenToSplit = *(m_mergedTokens.begin());
       check_error(tokenToSplit.isValid());
@@ -484,6 +491,8 @@ void Token::doMerge(const TokenId activeToken){
       }
     }
 
+    if(decRefCount() && !isDeleted())
+      delete this;
   }
 
   void Token::addStandardConstraint(const ConstraintId constraint)
-- 
2.43.0


From 6f77fff9d1b35bbb610c20cd269a527d034fdeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 20/64] fix: neighbours of a token freed from the middle of a
 timeline stay ordered

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 16 ++++++++++++++--
 src/PLASMA/PlanDatabase/component/Timeline.hh |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..8f7f8e5 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -451,6 +451,7 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     }
 
     m_tokenSequence.erase(pos++);
+    linkToPrevious(pos);
     return *pos;
   }
 
@@ -469,8 +470,19 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
       return m_tokenSequence.front();
     }
 
-    m_tokenSequence.erase(pos--);
-    return(*pos);
+    m_tokenSequence.erase(pos++);
+    linkToPrevious(pos);
+    return(*--pos);
+  }
+
+  void Timeline::linkToPrevious(std::list<TokenId>::iterator pos) {
+    if (pos == m_tokenSequence.begin() || pos == m_tokenSequence.end())
+      return;
+
+    TokenId later = *pos;
+    TokenId earlier = *--pos;
+    if (!isConstrainedToPrecede(earlier, later))
+      Object::constrain(earlier, later, false);
   }
 
   bool Timeline::adjacent(const TokenId x, const TokenId y) const {
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..e708189 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -93,6 +93,9 @@ namespace EUROPA {
     TokenId removePredecessor(const TokenId token);
     bool adjacent(const TokenId x, const TokenId y) const;
 
+    /** Constrain the token at this position to follow the one before it, if it is not so constrained yet */
+    void linkToPrevious(std::list<TokenId>::iterator pos);
+
 
     /**
      * A list indicating the temporal order of Tokens constrained for this timeline.
-- 
2.43.0


From ad1b0c7d1eb894186728ac597da55ba1d78986bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 21/64] fix: relaxing the variable which was emptied withdraws
 the conflict

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 857c4d5..d77257a 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -915,6 +915,10 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     	}
     }
     m_relaxing = false;
+
+    // The conflict is withdrawn if this is the variable which has been emptied. Propagation determines if it still holds.
+    if(getViolationMgr().isEmpty(variable) && !variable->getCurrentDomain().isEmpty())
+      getViolationMgr().removeEmptyVariable(variable);
   }
 
   void ConstraintEngine::handleRestrict(const ConstrainedVariableId var) {
-- 
2.43.0


From f77a905d940a94ae29e8e815d00bd2ddbe85c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:47 +0000
Subject: [PATCH 22/64] fix: forget a pending rule instance when it is deleted

A nested rule instance that was waiting to be executed or undone could be
deleted by the undo of its parent in the same pass, which left a dangling
identity in the pending lists (and appending to a list while it was being
iterated invalidated the iterators).
---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  4 ++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 41 ++++++++++-----------
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  1 +
 3 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 563f2b9..ff5b099 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -144,6 +144,10 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
     if(isExecuted())
       undo();
 
+    // It may be waiting to be executed or undone
+    if(!Entity::isPurging())
+      m_rulesEngine->forget(m_id);
+
     // If there is a guard domain, delete it
     if(m_guardDomain != 0)
       delete m_guardDomain;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..ea9e8ec 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,6 +243,11 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::forget(const RuleInstanceId r) {
+    std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
+    std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+  }
+
   bool RulesEngine::doRules() {
     check_error(!m_executing);
     m_executing = true;
@@ -256,34 +261,28 @@ RulesEngine::~RulesEngine(){
     // std::vector<RuleInstanceId>::iterator undoEnd = std::unique(m_ruleInstancesToUndo.begin(),
     //                                                             m_ruleInstancesToUndo.end(),
     //                                                             EntityComparator<RuleInstanceId>());
-    std::vector<RuleInstanceId>::iterator execEnd = m_ruleInstancesToExecute.end();
-    std::vector<RuleInstanceId>::iterator undoEnd = m_ruleInstancesToUndo.end();
-    
     bool retval = false;
 
     debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
-	     " total rules in execution list, executing " << 
-	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
-    
-    for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
-	       "In vector: " << (*it)->toString() << " : " <<
-	       ((*it)->isExecuted() ? "E" : "*") <<
-	       ((*it)->test() ? "T" : "*") <<
-	       ((*it)->hasEmptyGuard() ? "G" : "*"));
-    }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
-        debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
-        (*it)->execute();
+	     " total rules in execution list");
+
+    // Executing or undoing a rule can schedule further ones, and can delete others which are still waiting here (see forget)
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < m_ruleInstancesToExecute.size(); ++i) {
+      RuleInstanceId r = m_ruleInstancesToExecute[i];
+      if(!r.isNoId() && !r->isExecuted() && r->test()) {
+        debugMsg("RulesEngine:doRules", "Executing rule " << r->toString());
+        r->execute();
         retval = true;
       }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
-        debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
-        (*it)->undo();
+    }
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < m_ruleInstancesToUndo.size(); ++i) {
+      RuleInstanceId r = m_ruleInstancesToUndo[i];
+      if(!r.isNoId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+        debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
+        r->undo();
         retval = true;
       }
+    }
     m_ruleInstancesToExecute.clear();
     m_ruleInstancesToUndo.clear();
     debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..a35d956 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,7 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+    void forget(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0


From 53175f658da8c5d07678774da2adbf16dcd16cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 23/64] fix: relinking two tokens already placed on a timeline
 does not require it to be in their current object domain

Removing the token between them while one of them was being moved away
reported 'not part of derived domain'.
---
 src/PLASMA/PlanDatabase/base/Object.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 4ef1686..a56aaa0 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -567,12 +567,12 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
   void Object::constrainToThisObjectAsNeeded(const TokenId token) {
     check_error(token.isValid());
     check_error(token->isActive());
-    check_error(token->getObject()->lastDomain().isMember(getKey()),
-      "Cannot assign token " + token->getPredicateName() + " to  object " + getName() + ", it is not part of derived domain.");
 
     // Place this token on the object. We use a constraint since token assignment is done by specifying
     // the object variable. This only needs to be done once, so test first if it has already been constrained
     if (!isConstrainedToThisObject(token)) {
+      check_error(token->getObject()->lastDomain().isMember(getKey()),
+        "Cannot assign token " + token->getPredicateName() + " to  object " + getName() + ", it is not part of derived domain.");
       ConstraintId thisObject =
           getPlanDatabase()->getConstraintEngine()->createConstraint("eq",
 					    makeScope(token->getObject(), m_thisVar));
-- 
2.43.0


From c73bddb09ce12c82643801ca1954f192ed0b8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 24/64] fix: a token removed from an object is no longer
 explicitly placed on it

The mark outlived the removal, so that freeing the token after it had been
activated and ordered again left it in the sequence.
---
 src/PLASMA/PlanDatabase/base/Object.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index a56aaa0..1ca55bc 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -196,6 +196,9 @@ const std::string& Object::getName() const {
 
     m_tokens.erase(token);
 
+    // It is no longer explicitly placed here
+    m_explicitConstraints.erase(token->getKey());
+
     // A set is used to avoid duplicate deletions
     std::set<ConstraintId> constraints;
 
-- 
2.43.0


From 1c50778b16ba51d4ba97ca664565da44c331b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 25/64] fix: automatic propagation waits until a token has been
 sequenced or freed

Propagating between the steps of Timeline::constrain and Timeline::free could
remove the token from the timeline which then went on to dereference its
position.
---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 8f7f8e5..6e07f2d 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -23,6 +23,23 @@
 
 namespace EUROPA {
 
+  namespace {
+    /**
+     * Puts automatic propagation off until a change to the sequence is complete. Propagating half way through it could
+     * remove the tokens concerned from the timeline.
+     */
+    class DeferredPropagation {
+    public:
+      explicit DeferredPropagation(const ConstraintEngineId ce) : m_ce(ce), m_autoPropagate(ce->getAutoPropagation()) {
+        m_ce->setAutoPropagation(false);
+      }
+      ~DeferredPropagation() noexcept(false) { m_ce->setAutoPropagation(m_autoPropagate); }
+    private:
+      ConstraintEngineId m_ce;
+      bool m_autoPropagate;
+    };
+  }
+
   /** TIMELINE IMPLEMENTATION **/
 
 Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type, 
@@ -202,6 +219,8 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
    * activate them when freeing.
    */
   void Timeline::constrain(const TokenId predecessor, const TokenId successor) {
+    DeferredPropagation deferred(getPlanDatabase()->getConstraintEngine());
+
     checkError(getPrecedenceConstraint(predecessor, successor).isNoId(),
 	       "At least one of predecessor and successor should not be sequenced yet." <<
 	       predecessor->toString() << " before " << successor->toString());
@@ -333,6 +352,8 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
    * be removed.
    */
   void Timeline::free(const TokenId predecessor, const TokenId successor) {
+    DeferredPropagation deferred(getPlanDatabase()->getConstraintEngine());
+
     check_error(m_tokenIndex.find(predecessor->getKey()) != m_tokenIndex.end() &&
                 m_tokenIndex.find(successor->getKey()) != m_tokenIndex.end(),
                 "Predecessor and successor must both be sequenced if they are to be freed");
-- 
2.43.0


From a168850bbaa2e596f89105f20a090086a3ebf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 26/64] fix: a token leaves the objects its object variable
 lost while it was empty

An emptied domain that is relaxed can come back without objects the token had
been placed on; only additions were handled.
---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 8 +++++---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.hh | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1e4ab48..b950bc8 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -78,6 +78,8 @@ namespace EUROPA {
 	// Otherwise, handle possible notifications for new values in object domain.
 	debugMsg("ObjectTokenRelation::canIgnore", "Handling addition");
 	notifyAdditions();
+	// The domain may have been emptied in between, in which case it can have lost objects too.
+	notifyRemovals(true);
       }
       else { // It is no longer active but we have outstanding objects to be notified of removal
 	debugMsg("ObjectTokenRelation::canIgnore", "Handling removal");
@@ -122,7 +124,7 @@ namespace EUROPA {
    * If it is not active, then notify all objects of removal and clear the set of stored notifications.
    * Otherwise, process the difference between the current domain, and prior notified objects
    */
-  void ObjectTokenRelation::notifyRemovals() {
+  void ObjectTokenRelation::notifyRemovals(bool relaxing) {
     static unsigned int sl_counter(0);
     sl_counter++;
 
@@ -144,9 +146,9 @@ namespace EUROPA {
 
       ObjectId object = *it;
 
-      // A token that has been ordered on an object is tied to it by a constraint, which cannot be deleted while propagating.
+      // A token that has been ordered on an object is tied to it by a constraint, which cannot be deleted while propagating or relaxing.
       // Leave it: the constraint conflicts with the restriction, so propagation is going to find the inconsistency.
-      bool tied = active && m_constraintEngine->isPropagating() && object->isConstrainedToThisObject(m_token);
+      bool tied = active && (relaxing || m_constraintEngine->isPropagating()) && object->isConstrainedToThisObject(m_token);
 
       if(!active || (!m_currentDomain.isMember(object) && !tied)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.hh b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.hh
index 44d1e41..19dcbc7 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.hh
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.hh
@@ -45,7 +45,7 @@ class ObjectDomain;
   private:
     void handleDiscard();
     void notifyAdditions();
-    void notifyRemovals();
+    void notifyRemovals(bool relaxing = false);
 
     bool isValid() const;
 
-- 
2.43.0


From f5445b4dc619eeea84cd97f72c087b9f64493efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 27/64] fix: freeing a token which is no longer on the timeline
 does not dereference its position

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 6e07f2d..cac9015 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -384,21 +384,26 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     // for the explicit constraint
     Object::free(predecessor, successor, false);
 
+    // Without the constraint a token may no longer be on this object at all, in which case it has left the sequence already
+    const bool predecessorSequenced = m_tokenIndex.find(predecessor->getKey()) != m_tokenIndex.end();
+    const bool successorSequenced = m_tokenIndex.find(successor->getKey()) != m_tokenIndex.end();
+
     // In the event we are freeing based on a single token, unlink it and get out
     if (predecessor == successor) {
-      unlink(predecessor);
+      if (predecessorSequenced)
+        unlink(predecessor);
       return;
     }
 
-    TokenId startTok(predecessor);
-    TokenId endTok(successor);
+    TokenId startTok(predecessorSequenced ? predecessor : TokenId::noId());
+    TokenId endTok(successorSequenced ? successor : TokenId::noId());
 
     // If successor is not required, remove it. Update the end token.
-    if (!successorRequired)
+    if (!successorRequired && successorSequenced)
       endTok = removeSuccessor(successor);
 
     // If predecessor is not required, remove it and update the start token
-    if (!predecessorRequired)
+    if (!predecessorRequired && predecessorSequenced)
       startTok = removePredecessor(predecessor);
 
     // If valid start and end tokens, currently unconstrained, and adjacemt
-- 
2.43.0


From 79b8058022192bb961619a6e18b3144efbe2a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:48 +0000
Subject: [PATCH 28/64] fix: tokens ordered with respect to a removed token
 stay explicitly sequenced

They stayed in the sequence, but a later free of some other pair deleted the
constraint that ties them to the timeline.
---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index cac9015..c3fe653 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -341,8 +341,22 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
 	getPrecedenceConstraint(earlier, later).isNoId())
       constrain(earlier, later);
 
+    // Tokens which were explicitly ordered with respect to this one stay where they are, though nothing else may hold them there
+    std::vector<TokenId> partners;
+    std::vector<ConstraintId> constraints;
+    getPrecedenceConstraints(token, constraints);
+    for (std::vector<ConstraintId>::const_iterator it = constraints.begin(); it != constraints.end(); ++it)
+      if (m_explicitConstraints.find((*it)->getKey()) != m_explicitConstraints.end()) {
+        const TokenId predecessor((*it)->getScope()[0]->parent());
+        partners.push_back(predecessor == token ? TokenId((*it)->getScope()[1]->parent()) : predecessor);
+      }
+
     Object::remove(token);
 
+    for (std::vector<TokenId>::const_iterator it = partners.begin(); it != partners.end(); ++it)
+      if (m_tokenIndex.find((*it)->getKey()) != m_tokenIndex.end() && !hasExplicitConstraint(*it))
+        m_explicitConstraints.insert((*it)->getKey());
+
     check_error(isValid(CLEANING_UP));
   }
 
-- 
2.43.0


From 9521b3b9cde1bc177120607c5d3631bede3fd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 29/64] fix: iterating a solver's open decisions drops the
 first flaw of later managers

---
 src/PLASMA/Solvers/base/Solver.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..f69531f 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -571,11 +571,10 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
       //get the next entity
       retval = it->next();
 
-      //it's possible that it's returning a noId because
-      //it's nearly done, so the previous call should bump it
-      //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      //move the meta-iterator forward to the next iterator that still
+      //has a flaw, without consuming that flaw.
+      while(m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From a8938ec2fbd787ba18b1d2724d79f49621782b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 30/64] fix: noMoreFlaws ignores dynamic filters for open
 conditions and unbound variables

---
 src/PLASMA/Solvers/component/OpenConditionManager.cc   | 8 ++++----
 src/PLASMA/Solvers/component/UnboundVariableManager.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/Solvers/component/OpenConditionManager.cc b/src/PLASMA/Solvers/component/OpenConditionManager.cc
index 669f19a..bef7bc4 100644
--- a/src/PLASMA/Solvers/component/OpenConditionManager.cc
+++ b/src/PLASMA/Solvers/component/OpenConditionManager.cc
@@ -26,10 +26,6 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
       }
     }
   
-  bool OpenConditionManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
-  }
-
 
     /**
      * Filter out if not a token
@@ -117,6 +113,10 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
       TokenSet::const_iterator m_end;
     };
 
+  bool OpenConditionManager::noMoreFlaws() {
+    return OpenConditionIterator(*this).done();
+  }
+
     IteratorId OpenConditionManager::createIterator() {
       return (new OpenConditionIterator(*this))->getId();
     }
diff --git a/src/PLASMA/Solvers/component/UnboundVariableManager.cc b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
index aae4cf3..69eb699 100644
--- a/src/PLASMA/Solvers/component/UnboundVariableManager.cc
+++ b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
@@ -198,10 +198,6 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
       return os.str();
     }
 
-  bool UnboundVariableManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
-  }
-
     class UnboundVariableIterator : public FlawIterator {
     public:
       UnboundVariableIterator(UnboundVariableManager& manager)
@@ -224,6 +220,10 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
     };
 
 
+  bool UnboundVariableManager::noMoreFlaws() {
+    return UnboundVariableIterator(*this).done();
+  }
+
     IteratorId UnboundVariableManager::createIterator() {
       return (new UnboundVariableIterator(*this))->getId();
     }
-- 
2.43.0


From 29a8c1a11415e1f3b9e6de88ac06ab94188ffb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:19 +0000
Subject: [PATCH 31/64] fix: a variable set to a singleton by propagation
 remains an open decision

---
 src/PLASMA/Solvers/component/UnboundVariableManager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/component/UnboundVariableManager.cc b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
index 69eb699..4857e28 100644
--- a/src/PLASMA/Solvers/component/UnboundVariableManager.cc
+++ b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
@@ -125,7 +125,8 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
     void UnboundVariableManager::notifyChanged(const ConstrainedVariableId variable,
 					       const DomainListener::ChangeType& changeType){
 
-      // In the event it is bound to a singleton, we remove it altogether as a flaw.
+      // In the event it is specified, we remove it altogether as a flaw. A variable which propagation
+      // sets to a singleton remains to be decided.
       if(changeType == DomainListener::SET_TO_SINGLETON){
 	// If it is a token state variable, we test if a case for activation
 	if(Token::isStateVariable(variable) && variable->getSpecifiedValue() == Token::ACTIVE){
@@ -138,7 +139,7 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
 	  }
 	}
 	else
-	  removeFlaw(variable);
+	  updateFlaw(variable);
 
 	return;
       }
-- 
2.43.0


From 2651ccb4e51ebd68035185420117fdcad22a2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 32/64] fix: a solver started on an inconsistent plan reports
 exhaustion

---
 src/PLASMA/Solvers/base/Solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index f69531f..482ee8c 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -298,7 +298,7 @@ const std::string& Solver::getName() const { return m_name;}
       debugMsg("Solver:step", "Conflict level after propagation: " << m_db->getConstraintEngine()->getViolation());
 
       // If inconsistent, before doing anything, there is no solution.
-      if(!conflictLevelOk()){
+      if(!conflictLevelOk() || m_db->getConstraintEngine()->provenInconsistent()){
         m_exhausted = true;
         debugMsg("Solver:step", "No solution prior to stepping. Conflict before propagation: " << m_baseConflictLevel << ", after propagation:" << m_db->getConstraintEngine()->getViolation());
         publish(notifyExhausted);
-- 
2.43.0


From 7972e054c4e9465df97eff07a2e7e936225c265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 33/64] fix: resuming a search may retract below the depth it
 was resumed at

---
 src/PLASMA/Solvers/base/Solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 482ee8c..2971275 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -325,7 +325,7 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         (getDepth() > m_depthFloor && m_maxDepth < getDepth() - m_depthFloor)){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
-- 
2.43.0


From d3ef25b8e163b2570c0b2eab7f7d60d524b2291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:23 +0000
Subject: [PATCH 34/64] fix: flaw handler guards which match at once never
 cease to apply

---
 src/PLASMA/Solvers/base/FlawHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..55c7d71 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,8 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler),
+    m_isApplied(flawHandler.isId() && flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
-- 
2.43.0


From 754d5e8c1ae8d95243ba83a558bc91bfb8961e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 35/64] fix: a constraint among variables of a merged token
 gets a surrogate for each

---
 src/PLASMA/PlanDatabase/base/MergeMemento.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/MergeMemento.cc b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
index 21f7647..9ac23b2 100644
--- a/src/PLASMA/PlanDatabase/base/MergeMemento.cc
+++ b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
@@ -4,6 +4,7 @@
 #include "ConstraintType.hh"
 #include "TokenVariable.hh"
 #include "Utils.hh"
+#include <algorithm>
 #include <map>
 
 namespace EUROPA{
@@ -95,7 +96,9 @@ namespace EUROPA{
 
   void MergeMemento::handleAdditionOfInactiveConstraint(const ConstraintId constraint){
     debugMsg("europa:merging:handleAdditionOfInactiveConstraint", constraint->toString());
-    migrateConstraint(constraint);
+    // Called for every variable of the inactive token in its scope, but there is to be a single surrogate
+    if(std::find(m_deactivatedConstraints.begin(), m_deactivatedConstraints.end(), constraint) == m_deactivatedConstraints.end())
+      migrateConstraint(constraint);
   }
 
   void MergeMemento::handleRemovalOfInactiveConstraint(const ConstraintId constraint){
-- 
2.43.0


From 60fa530f5515dc088846d8b22e3e47152111df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 36/64] fix: the effects of a withdrawn guard stay if they
 cause a conflict

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc   | 28 +++++++++++++------
 src/PLASMA/RulesEngine/base/RuleInstance.hh   | 11 ++++++++
 .../RulesEngine/base/RuleVariableListener.cc  |  7 ++++-
 src/PLASMA/RulesEngine/base/RulesEngine.cc    |  2 +-
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index ff5b099..546761d 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -20,7 +20,7 @@ RuleInstance::RuleInstance(const RuleId rule, const TokenId token,
                            const PlanDatabaseId planDb)
     : m_id(this), m_rule(rule), m_token(token), m_planDb(planDb), m_rulesEngine(), 
       m_parent(), m_guards(),
-      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_isPositive(true),
+      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false), m_isPositive(true),
       m_constraints(), m_childRules(), m_variables(), m_slaves(), 
       m_variablesByName(), m_slavesByName(),
       m_constraintsByName() {
@@ -34,7 +34,7 @@ RuleInstance::RuleInstance(const RuleId rule, const TokenId token,
                            const std::vector<ConstrainedVariableId>& guards)
     : m_id(this), m_rule(rule), m_token(token), m_planDb(planDb), m_rulesEngine(),
       m_parent(), m_guards(),
-      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_isPositive(true),
+      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false), m_isPositive(true),
       m_constraints(), m_childRules(), m_variables(), m_slaves(), m_variablesByName(),
       m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -47,7 +47,7 @@ RuleInstance::RuleInstance(const RuleId rule, const TokenId token,
                            const ConstrainedVariableId guard, const Domain& domain)
     : m_id(this), m_rule(rule), m_token(token), m_planDb(planDb), m_rulesEngine(),
       m_parent(), m_guards(),
-      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_isPositive(true),
+      m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false), m_isPositive(true),
       m_constraints(), m_childRules(), m_variables(), m_slaves(), m_variablesByName(), 
       m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -62,7 +62,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
                            const std::vector<ConstrainedVariableId>& guards)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()),m_rulesEngine() , m_parent(parent), 
-      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
+      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false),
       m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(), 
       m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -77,7 +77,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
                            const bool positive)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
-      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
+      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(),
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -91,7 +91,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
                            const ConstrainedVariableId guard, const Domain& domain)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent),
-      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
+      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false),
       m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(),
       m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -106,7 +106,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
                            const Domain& domain, const bool positive)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
-      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
+      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -119,7 +119,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
                            const std::vector<ConstrainedVariableId>& guardComponents)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
-      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
+      m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false), m_guardWithdrawn(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
@@ -269,6 +269,18 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_rulesEngine->scheduleForUndoing(getId());
   }
 
+  void RuleInstance::guardWithdrawn() {
+    m_guardWithdrawn = true;
+    m_rulesEngine->scheduleForUndoing(getId());
+  }
+
+  bool RuleInstance::mustUndo() {
+    // An emptied guard tells nothing, unless it used to hold by a value which has been withdrawn
+    bool result = isExecuted() && (hasEmptyGuard() ? m_guardWithdrawn : !test());
+    m_guardWithdrawn = false;
+    return result;
+  }
+
   void RuleInstance::execute() {
     check_error(!isExecuted(), "Cannot execute a rule if already executed.");
     debugMsg("RuleInstance:execute", "Executing:" << m_rule->toString());
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.hh b/src/PLASMA/RulesEngine/base/RuleInstance.hh
index 1ca1d98..bede364 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.hh
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.hh
@@ -163,6 +163,16 @@ namespace EUROPA{
 
     void prepare();
 
+    /**
+     * Invoked by the RuleVariableListener when a guard of the executed rule has been reset.
+     */
+    void guardWithdrawn();
+
+    /**
+     * Invoked by the RulesEngine to determine whether the guards of the rule, if executed, no longer hold.
+     */
+    bool mustUndo();
+
     const std::vector<ConstrainedVariableId> &getGuards(void) const { return m_guards;}
 
     const std::vector<ConstrainedVariableId> &getVariables(void) const { return m_variables;}
@@ -293,6 +303,7 @@ namespace EUROPA{
 
   protected:
     bool m_isExecuted; /*!< Indicates if the rule has been fired */
+    bool m_guardWithdrawn; /*!< Indicates if a guard was reset since the rule was last considered for undoing */
     bool m_isPositive; /*!< If this is false, the rule's guard is on a negative test. */
     std::vector<ConstraintId> m_constraints; /*!< Constraints introduced through rule execution */
     std::vector<RuleInstanceId> m_childRules; /*!< Child rules introduced through rule execution */
diff --git a/src/PLASMA/RulesEngine/base/RuleVariableListener.cc b/src/PLASMA/RulesEngine/base/RuleVariableListener.cc
index 5330ae7..b7bfce8 100644
--- a/src/PLASMA/RulesEngine/base/RuleVariableListener.cc
+++ b/src/PLASMA/RulesEngine/base/RuleVariableListener.cc
@@ -45,7 +45,7 @@ RuleVariableListener::RuleVariableListener(const ConstraintEngineId constraintEn
    */
 bool RuleVariableListener::canIgnore(const ConstrainedVariableId,
                                      unsigned int,
-                                     const DomainListener::ChangeType&){
+                                     const DomainListener::ChangeType& changeType){
   checkError(getRuleInstance().isValid(), getKey() << " has lost its rule instance:" << getRuleInstance());
 
   if(getRuleInstance().isNoId())
@@ -55,6 +55,11 @@ bool RuleVariableListener::canIgnore(const ConstrainedVariableId,
            "Checking canIgnore for guard listener for rule " << getRuleInstance()->getRule()->getName() <<
            " from source " << (m_sourceConstraint.isId() ? m_sourceConstraint->getName() : "NULL"));
 
+  // What an executed rule has posted may cause a conflict which stops propagation before this constraint is executed. So if
+  // the guard is withdrawn, the rule must be considered for undoing even then.
+  if(changeType == DomainListener::RESET && getRuleInstance()->isExecuted())
+    getRuleInstance()->guardWithdrawn();
+
   return false;
 }
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index ea9e8ec..74fbc53 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -277,7 +277,7 @@ RulesEngine::~RulesEngine(){
     }
     for(std::vector<RuleInstanceId>::size_type i = 0; i < m_ruleInstancesToUndo.size(); ++i) {
       RuleInstanceId r = m_ruleInstancesToUndo[i];
-      if(!r.isNoId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+      if(!r.isNoId() && r->mustUndo()) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
         r->undo();
         retval = true;
-- 
2.43.0


From 4ae5b63d0e1e6764856c8f4b1ed1b77e3f4fbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 37/64] fix: guards are tested while their domains are being
 relaxed

---
 src/PLASMA/RulesEngine/base/RulesEngine.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 74fbc53..0bbe6b0 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -266,6 +266,15 @@ RulesEngine::~RulesEngine(){
     debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
 	     " total rules in execution list");
 
+    // Undoing a rule relaxes what it constrained, so the guards of the others tell nothing until propagation has completed. Hence
+    // select what to undo beforehand.
+    const std::vector<RuleInstanceId>::size_type undoable = m_ruleInstancesToUndo.size();
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < undoable; ++i) {
+      RuleInstanceId& r = m_ruleInstancesToUndo[i];
+      if(!r.isNoId() && !r->mustUndo())
+        r = RuleInstanceId::noId();
+    }
+
     // Executing or undoing a rule can schedule further ones, and can delete others which are still waiting here (see forget)
     for(std::vector<RuleInstanceId>::size_type i = 0; i < m_ruleInstancesToExecute.size(); ++i) {
       RuleInstanceId r = m_ruleInstancesToExecute[i];
@@ -275,16 +284,16 @@ RulesEngine::~RulesEngine(){
         retval = true;
       }
     }
-    for(std::vector<RuleInstanceId>::size_type i = 0; i < m_ruleInstancesToUndo.size(); ++i) {
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < undoable; ++i) {
       RuleInstanceId r = m_ruleInstancesToUndo[i];
-      if(!r.isNoId() && r->mustUndo()) {
+      if(!r.isNoId() && r->isExecuted()) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
         r->undo();
         retval = true;
       }
     }
     m_ruleInstancesToExecute.clear();
-    m_ruleInstancesToUndo.clear();
+    m_ruleInstancesToUndo.erase(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.begin() + static_cast<long>(undoable));
     debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
     m_executing = false;
     return retval;
-- 
2.43.0


From cc9dcdf2f422d089a5c2bbbe73c17854e4ecc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:52 +0000
Subject: [PATCH 38/64] fix: relaxations caused by a relaxation are not
 propagated

---
 .../ConstraintEngine/base/ConstraintEngine.cc | 23 ++++++++++++++++++-
 .../ConstraintEngine/base/ConstraintEngine.hh |  1 +
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index d77257a..8851530 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -311,6 +311,7 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     , m_relaxingViolation(false)
       //, m_relaxed(false)
     , m_relaxed()
+    , m_nestedRelaxations()
     , m_propInProgress(false)
     , m_notificationDepth(0)
     , m_deleted(false)
@@ -460,6 +461,7 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     check_error(m_variables.find(variable) != m_variables.end());
     m_variables.erase(variable);
     m_relaxed.erase(variable);
+    m_nestedRelaxations.remove(variable);
     if(Entity::isPurging())
       return;
 
@@ -856,8 +858,16 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     check_error(variable.isValid());
     check_error(!m_propInProgress); /*!< Prohibit relaxations during propagation */
 
-    if(m_relaxing)
+    if(m_relaxing) {
+      // Relaxations can have constraints removed. What is relaxed by this, beyond the agenda below, is to be propagated as well.
+      if(variable->lastRelaxed() < m_cycleCount) {
+        variable->updateLastRelaxed(m_cycleCount);
+        m_nestedRelaxations.push_back(variable);
+        if (!m_relaxingViolation)
+          m_violationMgr->handleRelax(variable);
+      }
       return;
+    }
     debugMsg("ConstraintEngine:relaxed",
 	     "Handling relaxation of " << variable->toLongString());
 
@@ -913,6 +923,17 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     		if(!m_relaxingViolation)
     			m_violationMgr->handleRelax(id);
     	}
+
+    	// Append what is linked to the variables relaxed along with this one
+    	std::list<ConstrainedVariableId>::iterator next = it;
+    	++next;
+    	while(next == relaxationAgenda.end() && !m_nestedRelaxations.empty()) {
+    		const ConstrainedVariableId nested(m_nestedRelaxations.front());
+    		m_nestedRelaxations.pop_front();
+    		addLinkedVarsForRelaxation(nested, relaxationAgenda, relaxationAgenda.end(), visitedVariables);
+    		next = it;
+    		++next;
+    	}
     }
     m_relaxing = false;
 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 7204d4d..d1e8281 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -561,6 +561,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
     bool m_relaxingViolation; /*!< Flag to record if relax events should be ignored by the ViolationMgr */
     //bool m_relaxed;           /*!< Set when a domain is RELAXED. Implies PENDING. */
     std::set<ConstrainedVariableId> m_relaxed;
+    std::list<ConstrainedVariableId> m_nestedRelaxations; /*!< Variables relaxed while handling a relaxation, but not by it. */
     bool m_propInProgress;    /*!< Set true when doing propagation, otherwise false. */
     unsigned int m_notificationDepth; /*!< Greater than 0 while the reactions to a domain change are under way. */
     bool m_deleted;           /*!< Used to control cleanup, preventing cycles. */
-- 
2.43.0


From 0b3fa6ed620e6e2b550d32f869a80e0ff08b5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 39/64] fix: conflicts of an undone decision excuse those of
 the next

---
 src/PLASMA/Solvers/base/Solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 2971275..37de623 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -305,6 +305,9 @@ const std::string& Solver::getName() const { return m_name;}
         return;
       }
 
+      // Conflicts left by a decision undone before are cleared by now, so they must not excuse new ones.
+      m_baseConflictLevel = m_db->getConstraintEngine()->getViolation();
+
       debugMsg("Solver:step",
                "OpenDecisions at [stepCnt=" << getStepCount() << ",depth=" << getDepth() << "]" << std::endl << printOpenDecisions());
 
-- 
2.43.0


From 8999e832572eebf75b86b50cafda2640a6e2e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:28 +0000
Subject: [PATCH 40/64] fix: process timepoints in key order rather than by
 address

---
 src/PLASMA/TemporalNetwork/TemporalNetworkDefs.hh    |  8 ++++++++
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc   |  7 ++++++-
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh   |  4 ++--
 .../TemporalNetwork/component/TemporalPropagator.cc  | 12 ++++++------
 .../TemporalNetwork/component/TemporalPropagator.hh  |  4 ++--
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/TemporalNetworkDefs.hh b/src/PLASMA/TemporalNetwork/TemporalNetworkDefs.hh
index 2e930e0..3cedeb8 100644
--- a/src/PLASMA/TemporalNetwork/TemporalNetworkDefs.hh
+++ b/src/PLASMA/TemporalNetwork/TemporalNetworkDefs.hh
@@ -4,6 +4,7 @@
 #include "Error.hh"
 #include "Id.hh"
 #include <boost/smart_ptr/shared_ptr.hpp>
+#include <set>
 
 /*!< Type definitions to map for ht ones we were using in Europa */
 namespace EUROPA {
@@ -26,6 +27,13 @@ class Tnode;
 typedef Tnode Timepoint;
 typedef boost::shared_ptr<Tnode> TimepointId;
 
+/*!< Orders timepoints by entity key, rather than by address, so that they are always processed in the same order */
+struct TimepointComparator {
+  bool operator()(const Timepoint* t1, const Timepoint* t2) const;
+};
+typedef std::set<Timepoint*, TimepointComparator> TimepointSet;
+
+
 class Tspec;
 typedef Tspec TemporalConstraint;
 //typedef Tspec* TemporalConstraintId;
diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 008ec0f..9c66b24 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -1008,7 +1008,12 @@ Void TemporalNetwork::cleanupTEQ(Timepoint& tpt) {
     return m_id;
   }
 
-  const std::set<Timepoint*>& TemporalNetwork::getUpdatedTimepoints() const {
+  bool TimepointComparator::operator()(const Timepoint* t1, const Timepoint* t2) const {
+    // Dnode::getKey is the key in Dijkstra's algorithm
+    return t1->Entity::getKey() < t2->Entity::getKey();
+  }
+
+  const TimepointSet& TemporalNetwork::getUpdatedTimepoints() const {
     return m_updatedTimepoints;
   }
 
diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
index aa0bebf..edc81a3 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
@@ -315,7 +315,7 @@ namespace EUROPA {
      * @brief Returns the set of updated timepoints.
      * @return the set of updated timepoints.
      */
-     const std::set<Timepoint*>& getUpdatedTimepoints() const;
+     const TimepointSet& getUpdatedTimepoints() const;
 
     /**
      * @brief Identify if timepoint is connected to the origin of the STN through edges in the network
@@ -478,7 +478,7 @@ namespace EUROPA {
     /**
      * @brief Stores the changes made to nodes during propogation for more efficent incremental update
      */
-    std::set<Timepoint*> m_updatedTimepoints;
+    TimepointSet m_updatedTimepoints;
   };
 
 
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index cf3a891..b808a30 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -301,7 +301,7 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
 
   void TemporalPropagator::handleViolations()
   {
-      const std::set<Timepoint*>& updatedTimepoints = m_tnet->getUpdatedTimepoints();
+      const TimepointSet& updatedTimepoints = m_tnet->getUpdatedTimepoints();
       checkError(!updatedTimepoints.empty(), "updated timepoints are expected if tnet is not consistent");
       std::map<Timepoint*, ConstrainedVariableId>::const_iterator it =
           m_timepointToVar.find(*(updatedTimepoints.begin()));
@@ -310,7 +310,7 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
 
       // Report the conflict on an active variable. The domain of an inactive one, as for a merged token, is not considered
       // so the conflict would go unnoticed.
-      for(std::set<Timepoint*>::const_iterator tpIt = updatedTimepoints.begin(); tpIt != updatedTimepoints.end() && !var->isActive(); ++tpIt) {
+      for(TimepointSet::const_iterator tpIt = updatedTimepoints.begin(); tpIt != updatedTimepoints.end() && !var->isActive(); ++tpIt) {
         it = m_timepointToVar.find(*tpIt);
         if(it != m_timepointToVar.end() && it->second->isActive())
           var = it->second;
@@ -503,7 +503,7 @@ void TemporalPropagator::processConstraintDeletions() {
 
 void TemporalPropagator::processVariableDeletions() {
   debugMsg("TemporalPropagator:updateTnet", "Processing variables for deletion... ");
-  for(std::set<Timepoint*>::const_iterator it = m_variablesForDeletion.begin();
+  for(TimepointSet::const_iterator it = m_variablesForDeletion.begin();
       it != m_variablesForDeletion.end(); ++it) {
     Timepoint* tp = *it;
     TemporalConstraint* baseDomainConstraint = tp->getBaseDomainConstraint();
@@ -595,8 +595,8 @@ void TemporalPropagator::updateCnet() {
   debugMsg("TemporalPropagator:updateCnet", "In updateCnet");
 
   std::vector<TokenId> updatedTokens; // Used to push update to duration
-  const std::set<Timepoint*> updatedTimepoints = m_tnet->getUpdatedTimepoints();
-  for(std::set<Timepoint*>::const_iterator it = updatedTimepoints.begin();
+  const TimepointSet updatedTimepoints = m_tnet->getUpdatedTimepoints();
+  for(TimepointSet::const_iterator it = updatedTimepoints.begin();
       it != updatedTimepoints.end(); ++it){
     Timepoint* const tp = *it;
     check_error(tp);
@@ -1063,7 +1063,7 @@ bool TemporalPropagator::isValidForPropagation() const {
 
   // For all buffered constraints for deletion, none should have any dangling external entities. This is because
   // we will have already deleted the TempVar for which this timepoint shadows it.
-  for(std::set<Timepoint*>::const_iterator it = m_variablesForDeletion.begin();
+  for(TimepointSet::const_iterator it = m_variablesForDeletion.begin();
       it != m_variablesForDeletion.end(); ++it){
     Timepoint* timepoint = *it;
     if(m_timepointToVar.find(timepoint) != m_timepointToVar.end()) {
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
index 19dd72e..3410b95 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
@@ -218,10 +218,10 @@ namespace EUROPA {
     typedef std::set<ConstraintId, EntityComparator<EntityId> > ConstraintsSet;
     ConstraintsSet m_changedConstraints; /*!< Constraint Agenda */
 
-    typedef  std::set<TemporalConstraint*> TemporalConstraintsSet;
+    typedef  std::set<TemporalConstraint*, EntityComparator<TemporalConstraint*> > TemporalConstraintsSet;
     TemporalConstraintsSet m_constraintsForDeletion; /*!< Buffer deletions till you have to propagate. */
 
-    std::set<Timepoint*> m_variablesForDeletion; /*!< Buffer timepoints for deletion till we propagate. */
+    TimepointSet m_variablesForDeletion; /*!< Buffer timepoints for deletion till we propagate. */
     std::set<TemporalNetworkListenerId> m_listeners;
     std::map<ConstrainedVariableId, Timepoint*> m_varToTimepoint;
     std::map<Timepoint*, ConstrainedVariableId> m_timepointToVar;
-- 
2.43.0


From 17882dcc9d85cfc0dbe42d2dbaea3e9690103237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 41/64] fix: migrate the constraints of a merged token in key
 order rather than by address

---
 src/PLASMA/PlanDatabase/base/MergeMemento.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/MergeMemento.cc b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
index 9ac23b2..9cae175 100644
--- a/src/PLASMA/PlanDatabase/base/MergeMemento.cc
+++ b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
@@ -24,7 +24,7 @@ namespace EUROPA{
     check_error(inactiveVariables.size() == activeVariables.size());
 
     std::map<eint, ConstrainedVariableId> varMap;
-    std::set<ConstraintId> deactivatedConstraints;
+    ConstraintSet deactivatedConstraints; // Avoid memory dependent order
 
     //Exclude this for the state variable, which will necessarily conflict with the target active token
     for(unsigned long i=1; i<inactiveVariables.size(); i++){
@@ -49,7 +49,7 @@ namespace EUROPA{
     }
 
     // Iterate over all constraints and deactivate them, as well as create and store new ones where necessary
-    for(std::set<ConstraintId>::const_iterator it = deactivatedConstraints.begin(); it != deactivatedConstraints.end(); ++it){
+    for(ConstraintSet::const_iterator it = deactivatedConstraints.begin(); it != deactivatedConstraints.end(); ++it){
       ConstraintId constraint = *it;
       // Standard constraints will not be migrated as they will be built in to the target already
       if(!m_inactiveToken->isStandardConstraint(constraint))
-- 
2.43.0


From 8e7826f8561f31e4c83c6829f38e4304d02fa18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 42/64] fix: publish the removal of a token from an object only
 if it was there

---
 src/PLASMA/PlanDatabase/base/Object.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 1ca55bc..270bf93 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -194,7 +194,7 @@ const std::string& Object::getName() const {
     check_error(isValid());
     check_error(!Entity::isPurging());
 
-    m_tokens.erase(token);
+    const bool present = m_tokens.erase(token) > 0;
 
     // It is no longer explicitly placed here
     m_explicitConstraints.erase(token->getKey());
@@ -246,7 +246,9 @@ const std::string& Object::getName() const {
       cleanup(constraints);
     }
 
-    m_planDatabase->notifyRemoved(m_id, token);
+    // Also called when a token which is not on this object is deleted
+    if(present)
+      m_planDatabase->notifyRemoved(m_id, token);
   }
 
   const TokenSet& Object::tokens() const {
-- 
2.43.0


From 4becc62c6386f0df1aa88f71765b84f086b1d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 43/64] fix: publish that orderings are freed when one of their
 tokens is removed

---
 src/PLASMA/PlanDatabase/base/Object.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 270bf93..2b3788c 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -219,8 +219,12 @@ const std::string& Object::getName() const {
       // If the constraint is a precedence constraint, the additional cleanup required
       std::map<eint, std::pair<eint, eint> >::iterator pos =
           m_keyPairsByConstraintKey.find(constraint->getKey());
-      if(pos != m_keyPairsByConstraintKey.end())
+      if(pos != m_keyPairsByConstraintKey.end()) {
+	const TokenId predecessor = constraint->getScope()[0]->parent();
+	const TokenId successor = constraint->getScope()[1]->parent();
 	removePrecedenceConstraint(constraint);
+	m_planDatabase->notifyFreed(m_id, predecessor, successor);
+      }
       else
 	constraints.insert(constraint);
     }
-- 
2.43.0


From fc1d28841fdf3cdb997c62f2c3fd0411dbc94bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 44/64] fix: tell search listeners when an undecided decision
 point is dropped

---
 src/PLASMA/Solvers/base/Solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 37de623..0e1fb79 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -434,6 +434,7 @@ const std::string& Solver::getName() const { return m_name;}
           m_activeDecision->undo();
         }
 
+        publish(notifyDeleted,m_activeDecision);
         delete static_cast<DecisionPoint*>(m_activeDecision);
         m_activeDecision = DecisionPointId::noId();
       }
@@ -479,6 +480,7 @@ const std::string& Solver::getName() const { return m_name;}
           m_activeDecision->undo();
         }
 
+        publish(notifyDeleted,m_activeDecision);
         delete static_cast<DecisionPoint*>(m_activeDecision);
         m_activeDecision = DecisionPointId::noId();
         stepCount--;
-- 
2.43.0


From fc8bd99684988c0802d2234110b17df8d3b15e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 45/64] fix: take the lock of the label table when reading its
 size

---
 src/PLASMA/Utils/base/LabelStr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/Utils/base/LabelStr.cc b/src/PLASMA/Utils/base/LabelStr.cc
index 07ccfe4..146f5aa 100644
--- a/src/PLASMA/Utils/base/LabelStr.cc
+++ b/src/PLASMA/Utils/base/LabelStr.cc
@@ -100,6 +100,7 @@ LabelStr::LabelStr(edouble key)
   }
 
   unsigned long LabelStr::getSize() {
+    MutexGrabber mg(LabelStrMutex());
     check_error(keysFromString().size() == stringFromKeys().size());
     return keysFromString().size();
   }
-- 
2.43.0


From 1bd7a89b021186b1ba71eced94ea0992af64777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 46/64] fix: entity lookups skip entities another thread is
 still building or destroying

---
 src/PLASMA/Utils/base/Entity.cc |  6 ++++--
 src/PLASMA/Utils/base/Id.hh     | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Utils/base/Entity.cc b/src/PLASMA/Utils/base/Entity.cc
index 0d387dd..b461471 100644
--- a/src/PLASMA/Utils/base/Entity.cc
+++ b/src/PLASMA/Utils/base/Entity.cc
@@ -27,14 +27,16 @@ class EntityInternals {
     EntityId entity;
     std::map<eint, unsigned long int>::const_iterator it = m_entitiesByKey.find(key);
     if(it != m_entitiesByKey.end())
-      entity = static_cast<EntityId>(it->second);
+      entity = EntityId::find(it->second);
     return entity;
   }
   void getEntities(std::set<EntityId>& resultSet) const {
     for(std::map<eint, unsigned long int>::const_iterator it = m_entitiesByKey.begin();
 	it != m_entitiesByKey.end();
 	++it){
-      resultSet.insert(static_cast<EntityId>(it->second));
+      EntityId entity = EntityId::find(it->second);
+      if(!entity.isNoId())
+        resultSet.insert(entity);
     }
 
   }
diff --git a/src/PLASMA/Utils/base/Id.hh b/src/PLASMA/Utils/base/Id.hh
index 50e8301..2463719 100644
--- a/src/PLASMA/Utils/base/Id.hh
+++ b/src/PLASMA/Utils/base/Id.hh
@@ -298,6 +298,21 @@ inline Id(const Id<X>& org) : m_ptr(NULL)
       return(s_noId);
     }
 
+    /**
+     * @brief The Id of the instance at an address, or noId if there is none: an instance which another
+     * thread is still constructing, or already destroying, has no Id.
+     */
+    static inline const Id find(const unsigned long int val) {
+      Id id;
+#ifndef EUROPA_FAST
+      id.m_key = IdTable::getKey(val);
+      if (id.m_key == 0)
+        return id;
+#endif
+      id.m_ptr = reinterpret_cast<T*>(val);
+      return id;
+    }
+
     /**
      * @brief Handy method to directly test for noId without requiring comparison with another object.
      */
-- 
2.43.0


From b2fc90c4118ef946c7e57f3a31b761bd3e7690ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 47/64] fix: do not delete a top-level expression twice when
 its evaluation throws

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 860fb3f..9308a75 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -103,10 +103,11 @@ nddl
 		  {
 		      if (child != NULL) { 
                   boost::scoped_ptr<Expr> c(child);
+                  // The scoped_ptr owns it now, also if the evaluation throws
+                  CTX->SymbolTable->popFromCleanupStack();
 		          debugMsg("NddlInterpreter:nddl","Evaluating:" << child->toString());
                   evalExpr(CTX,child);
 		          debugMsg("NddlInterpreter:nddl","Done evaluating:" << child->toString());
-                  CTX->SymbolTable->popFromCleanupStack();
                   checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                              CTX->SymbolTable->cleanupStackSize());
 		          // TODO!!: systematically deal with memory mgmt for all Exprs.
-- 
2.43.0


From 552be499556477782744ce56ede1d0622b0a25c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 48/64] fix: refuse objects of closed types and duplicate names
 before building them

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index 56c1c39..92ddebd 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -1078,6 +1078,14 @@ PSList<PSVariable*>  PlanDatabase::getAllGlobalVariables() const {
       debugMsg("PlanDatabase:createObject", "objectType " << objectType << " objectName " << objectName);
 
       ObjectFactoryId factory = getSchema()->getObjectFactory(objectType, arguments);
+
+      // Refuse before anything is built: an object which cannot be added later on has no owner.
+      check_error(!isClosed(objectType),
+                  "Cannot add object " + objectName +
+                  " if type " + objectType + " is already closed.");
+      check_error(m_objectsByName.find(objectName) == m_objectsByName.end(),
+                  "Object with the name " + objectName + " already added.");
+
       ObjectId object = factory->createInstance(getId(), objectType, objectName, arguments);
       check_error(object.isValid());
 
-- 
2.43.0


From bc9b91f324328a474e9e53efa64ce98f4ce85909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 49/64] fix: a constraint which throws does not leave
 propagation in progress for ever

---
 .../ConstraintEngine/base/ConstraintEngine.cc  | 18 ++++++++++++++++++
 .../ConstraintEngine/component/Propagators.cc  |  8 +++++++-
 src/PLASMA/Resource/base/ProfilePropagator.cc  |  8 +++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 8851530..c8044bf 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -664,6 +664,20 @@ void ConstraintEngine::add(const PropagatorId propagator){
     getViolationMgr().clearEmptyVariables();
   }
 
+  namespace {
+  /** Restores a flag on the way out of a scope, also when an exception passes through. */
+  class FlagRestorer {
+  public:
+    FlagRestorer(bool& flag) : m_flag(flag), m_value(flag) {}
+    ~FlagRestorer() {m_flag = m_value;}
+  private:
+    FlagRestorer(const FlagRestorer&);
+    FlagRestorer& operator=(const FlagRestorer&);
+    bool& m_flag;
+    const bool m_value;
+  };
+  }
+
   bool ConstraintEngine::doPropagate()
   {
     check_error(!Entity::isPurging(), 
@@ -695,6 +709,10 @@ void ConstraintEngine::add(const PropagatorId propagator){
 
     bool continueProp = true;
 
+    // A constraint which throws must not leave the engine propagating for ever
+    FlagRestorer propInProgress(m_propInProgress);
+    FlagRestorer autoPropagate(m_autoPropagate);
+
     while(continueProp) {
       incrementCycle();
       debugMsg("ConstraintEngine:propagate", "Starting cycle " << m_cycleCount);
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 7d12785..3e02688 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -73,7 +73,13 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
 
       if(constraint->isActive()){
 	m_activeConstraint = constraint->getKey();
-	Propagator::execute(constraint);
+	try {
+	  Propagator::execute(constraint);
+	}
+	catch(...) {
+	  m_activeConstraint = 0; // Or this propagator could never execute again
+	  throw;
+	}
       }
     }
 
diff --git a/src/PLASMA/Resource/base/ProfilePropagator.cc b/src/PLASMA/Resource/base/ProfilePropagator.cc
index ba9eb22..ec0c71f 100644
--- a/src/PLASMA/Resource/base/ProfilePropagator.cc
+++ b/src/PLASMA/Resource/base/ProfilePropagator.cc
@@ -59,7 +59,13 @@ void ProfilePropagator::execute() {
     m_agenda.erase(constraint);
     if(constraint->isActive()) {
       m_activeConstraint = constraint->getKey();
-      execute(constraint);
+      try {
+        execute(constraint);
+      }
+      catch(...) {
+        m_activeConstraint = 0; // Or this propagator could never execute again
+        throw;
+      }
     }
   }
 
-- 
2.43.0


From 2d7a7d7c398ff177cb6602f3c9ad15fe2d2f7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:07 +0000
Subject: [PATCH 50/64] fix: close a script's included files before reporting
 its syntax errors

---
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index a2ec9b1..f9b16c9 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -192,6 +192,8 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
   CallFree<pANTLR3_COMMON_TOKEN_STREAM> freeTstream(tstream);
   pNDDL3Parser parser = NDDL3ParserNew(tstream);
   CallFree<pNDDL3Parser> freeParser(parser);
+  // Included files are opened by the lexer, so they have to be closed after a syntax error, too
+  CleanUpInputStreams cleanInputStreams(m_inputstreams);
 
   // Build he AST
   NDDL3Parser_nddl_return result = parser->nddl(parser);
@@ -233,7 +235,6 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
   NddlSymbolTable symbolTable(m_engine);
   treeParser->SymbolTable = &symbolTable;
   CleanUpSymbolTable cleanUpSymbolTable(treeParser, &symbolTable);
-  CleanUpInputStreams cleanInputStreams(m_inputstreams);
   try {
     treeParser->nddl(treeParser);
     // TODO: report treeParser antlr errors the same way we do it for tree builder lexer and parser
-- 
2.43.0


From 9e7049031086edb715757571d1f19b79e3f74b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:52 +0000
Subject: [PATCH 51/64] fix: temporal distances to a time no temporal
 constraint refers to

getTemporalDistanceDomains and getTemporalDistanceSigns dereferenced the
timepoint of variables which have none.
---
 .../component/TemporalPropagator.cc           | 49 ++++++++++++++-----
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index b808a30..637096a 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1135,15 +1135,23 @@ bool TemporalPropagator::isValidForPropagation() const {
     std::vector<Timepoint*> tends;
     std::vector<Time> lbs;
     std::vector<Time> ubs;
-    for (unsigned i=0; i<seconds.size(); i++) {
+    // A variable which no temporal constraint refers to has no timepoint.
+    for (unsigned i=0; tstart && i<seconds.size(); i++) {
       Timepoint* tend = getTimepoint(seconds[i]);
-      tends.push_back(tend);
+      if (tend)
+        tends.push_back(tend);
     }
-    m_tnet->calcDistanceBounds(*tstart, tends, lbs, ubs);
-    checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
+    if (tstart)
+      m_tnet->calcDistanceBounds(*tstart, tends, lbs, ubs);
+    checkError((lbs.size() == tends.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
-    for (unsigned i=0; i<seconds.size(); i++) {
-      domains.push_back(IntervalIntDomain(lbs[i],ubs[i]));
+    for (unsigned i=0, j=0; i<seconds.size(); i++) {
+      if (tstart && getTimepoint(seconds[i])) {
+        domains.push_back(IntervalIntDomain(lbs[j],ubs[j]));
+        j++;
+      }
+      else
+        domains.push_back(getTemporalDistanceDomain(first, seconds[i], true));
     }
     return;
   }
@@ -1159,13 +1167,32 @@ bool TemporalPropagator::isValidForPropagation() const {
     // follow first.
     Timepoint* tstart = getTimepoint(first);
     std::vector<Timepoint*> tends;
-    for (unsigned i=0; i<seconds.size(); i++) {
+    std::vector<Time> tendLbs;
+    std::vector<Time> tendUbs;
+    // A variable which no temporal constraint refers to has no timepoint.
+    for (unsigned i=0; tstart && i<seconds.size(); i++) {
       Timepoint* tend = getTimepoint(seconds[i]);
-      tends.push_back(tend);
+      if (tend)
+        tends.push_back(tend);
+    }
+    if (tstart)
+      m_tnet->calcDistanceSigns(*tstart, tends, tendLbs, tendUbs);
+    checkError((tendLbs.size() == tends.size()) && (tendLbs.size() == tendUbs.size()),
+               "size mismatch in TemporalPropagator getTemporalDistanceSigns");
+    lbs.clear();
+    ubs.clear();
+    for (unsigned i=0, j=0; i<seconds.size(); i++) {
+      if (tstart && getTimepoint(seconds[i])) {
+        lbs.push_back(tendLbs[j]);
+        ubs.push_back(tendUbs[j]);
+        j++;
+      }
+      else {
+        const IntervalIntDomain distance = getTemporalDistanceDomain(first, seconds[i], true);
+        lbs.push_back(cast_basis(distance.getLowerBound()));
+        ubs.push_back(cast_basis(distance.getUpperBound()));
+      }
     }
-    m_tnet->calcDistanceSigns(*tstart, tends, lbs, ubs);
-    checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
-               "size mismatch in TemporalPropagator getTemporalDistanceDomains");
     return;
   }
 
-- 
2.43.0


From d2b309caca0c616d79e9113b95020fe445e557ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:52 +0000
Subject: [PATCH 52/64] fix: a temporal conflict is reported again until it is
 withdrawn

Once the variable emptied for it had been relaxed, the next propagation
found nothing to update and accepted inconsistent times.
---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 637096a..7d31d2f 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -370,7 +370,9 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
                             m_changedVariables.empty()
                             && !m_tnet->updateRequired());
 
-    return (!fullyPropagated);
+    // A conflict in the network stays until it has been withdrawn. It has to be reported again if the variable which was
+    // emptied for it has been relaxed, even if nothing else has changed.
+    return (!fullyPropagated || (!m_tnet->propagate() && !getConstraintEngine()->getAllowViolations()));
   }
 
   void TemporalPropagator::addTimepoint(const ConstrainedVariableId var) {
-- 
2.43.0


From 6f7a7cad8b985526705befeaf71a171899ecaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:52 +0000
Subject: [PATCH 53/64] fix: bounds of a relaxed time are applied again

A time relaxed without a change of the temporal network kept its base domain.
---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 7d31d2f..ab27ddc 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -845,6 +845,10 @@ void TemporalPropagator::updateTimepoint(const ConstrainedVariableId var) {
     tp->setBaseDomainConstraint(newConstraint);
   }
 
+  // If the variable was relaxed and the network did not change, its bounds still have to be applied again.
+  if(mapToInternalInfinity(lb) < tp->getLowerBound() || mapToInternalInfinity(ub) > tp->getUpperBound())
+    m_tnet->handleNodeUpdate(*tp);
+
   checkError(!var->lastDomain().areBoundsFinite() || m_tnet->hasEdgeToOrigin(*tp),
              "Counter:" << sl_counter << ". It should have an edge to the origin, but it doesn't!" <<
              var->toString() << " and timepoint " <<  tp);
-- 
2.43.0


From 11a0d93f88afc5e73bff35acc1891d2dcc218ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 54/64] fix: transactions which left a flawed instant need no
 ordering there

---
 src/PLASMA/Resource/base/Resource.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..883827a 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -436,6 +436,22 @@ void Resource::resetViolations(InstantId ) {
     std::vector<TransactionId> transactions;
     m_profile->getTransactionsToOrder(inst, transactions);
 
+    //if we've already recorded a flaw for this instant, some transactions may have left it
+    if(m_flawedInstants.find(inst->getTime()) != m_flawedInstants.end()) {
+      std::set<TokenId> tokens, flawlessTokens;
+      for(std::vector<TransactionId>::const_iterator it = transactions.begin();
+          it != transactions.end(); ++it)
+        tokens.insert(m_transactionsToTokens[*it]);
+      for(ResourceFlaws::iterator tokIt = m_flawedTokens.begin(); tokIt != m_flawedTokens.end(); ++tokIt) {
+        if(tokens.find(tokIt->first) == tokens.end() && tokIt->second.erase(inst) > 0 && tokIt->second.empty())
+          flawlessTokens.insert(tokIt->first);
+      }
+      for(std::set<TokenId>::const_iterator it = flawlessTokens.begin(); it != flawlessTokens.end(); ++it) {
+        m_flawedTokens.erase(*it);
+        notifyOrderingNoLongerRequired(*it);
+      }
+    }
+
     //even if we've already recorded a flaw for this instant, there may be new transactions
     for(std::vector<TransactionId>::const_iterator it = transactions.begin();
         it != transactions.end(); ++it) {
-- 
2.43.0


From e0f0980b8c12a44eda209d6d98358f28ec1e9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 55/64] fix: instants of a transaction whose time is relaxed

Instants which only held its bounds were dropped and instants outside its new
bounds kept it, with a dangling pointer once it was removed.
---
 src/PLASMA/Resource/base/Profile.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index cca2d16..5280be7 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -206,8 +206,6 @@ void Profile::transactionTimeChanged(const TransactionId e,
   checkError(e.isValid(), "Invalid transaction.");
   checkError(m_transactions.find(e) != m_transactions.end(), "Unknown transaction " << e->time()->toString() << " " << e->quantity()->toString());
 
-  eint startTime = static_cast<eint>(e->time()->lastDomain().getLowerBound());
-  eint endTime = static_cast<eint>(e->time()->lastDomain().getUpperBound());
   switch(change) {
     case DomainListener::UPPER_BOUND_DECREASED:
     case DomainListener::LOWER_BOUND_INCREASED:
@@ -270,17 +268,21 @@ void Profile::transactionTimeChanged(const TransactionId e,
       debugMsg("Profile:handleTimeChanged",
                "Handling relaxation of transaction " << e << " at time " <<
                e->time()->toString() << " with quantity " << e->quantity()->toString());
-      ProfileIterator it(m_id, startTime, endTime);
       addInstantsForBounds(e);
+      //the time may have moved to values it did not have before, e.g. if it had been emptied by specifying another one
+      ProfileIterator it(m_id);
       std::vector<eint> emptyInstants;
       while(!it.done()) {
         InstantId inst = it.getInstant();
-        if(!containsChange(inst))
-          emptyInstants.push_back(inst->getTime());
+        if(!e->time()->lastDomain().isMember(inst->getTime()))
+          inst->removeTransaction(e);
         else if(inst->getTransactions().find(e) == inst->getTransactions().end())
           inst->addTransaction(e);
         else
           inst->updateTransaction(e);
+        //only now that the transaction is in it, since its bounds may be the only ones left here
+        if(!containsChange(inst))
+          emptyInstants.push_back(inst->getTime());
         it.next();
       }
       for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
-- 
2.43.0


From 6e84ba9bd2d27c8b89325baf6152b204e09db97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 56/64] fix: flow profiles recompute all levels which follow a
 change

Orderings and active transactions of the last recomputation were kept, the
time before a change and instants still to be recomputed were lost, and so
was everything after the latest time of the changed transaction.
---
 src/PLASMA/Resource/component/FlowProfile.cc | 220 ++++---------------
 src/PLASMA/Resource/component/FlowProfile.hh |   8 +
 2 files changed, 47 insertions(+), 181 deletions(-)

diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index 29f4bd4..a2eeec6 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -153,11 +153,37 @@ bool FlowProfile::getEarliestUpperLevelInstant(const TransactionId t, InstantId&
 }
 
 
+void FlowProfile::resetGraphs() {
+  // Nothing may be left over from the last time levels were computed: it may have
+  // ended elsewhere, and distances change without this profile being told.
+  m_orderings.clear();
+  m_orderedAt.clear();
+  for(std::set<TransactionId>::const_iterator it = m_transactions.begin();
+      it != m_transactions.end(); ++it) {
+    m_lowerLevelGraph->removeTransaction(*it);
+    m_upperLevelGraph->removeTransaction(*it);
+  }
+  m_lowerLevelGraph->reset();
+  m_upperLevelGraph->reset();
+}
+
+// A change affects all levels which follow it, and adds to what is still to be recomputed.
+void FlowProfile::recomputeFrom(const eint time) {
+  eint startRecalculation = time;
+  if(m_recomputeInterval.isValid()) {
+    startRecalculation = std::min(m_recomputeInterval->getStartTime(), startRecalculation);
+    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  }
+  m_recomputeInterval =
+      (new ProfileIterator(getId(), startRecalculation, PLUS_INFINITY))->getId();
+}
+
 void FlowProfile::initRecompute(InstantId inst) {
   check_error(inst.isValid());
   
   debugMsg("FlowProfile:initRecompute","Instant (" << inst->getId() << ") at time "
            << inst->getTime() );
+  resetGraphs();
   m_lowerClosedLevel = getInitCapacityLb();
   m_upperClosedLevel = getInitCapacityUb();
   
@@ -183,11 +209,7 @@ void FlowProfile::initRecompute(InstantId inst) {
 
     	debugMsg("FlowProfile:initRecompute","");
 
-    	if( m_recalculateLowerLevel )
-    		m_lowerLevelGraph->reset();
-
-    	if( m_recalculateUpperLevel )
-    		m_upperLevelGraph->reset();
+    	resetGraphs();
 
     	// initial level
     	m_lowerClosedLevel = getInitCapacityLb();
@@ -463,32 +485,11 @@ void FlowProfile::handleTransactionAdded(const TransactionId t) {
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  // startRecalculation = MINUS_INFINITY;
-  endRecalculation = PLUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(static_cast<eint>(t->time()->lastDomain().getLowerBound()));
 
   m_previousTimeBounds[ t ] =
       std::make_pair(static_cast<eint>(t->time()->lastDomain().getLowerBound()),
                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-
-  debugMsg("FlowProfile:handleTransactionAdded","Set interval to [" << startRecalculation << "," << endRecalculation << "]");
 }
 
 void FlowProfile::enableTransaction( const TransactionId t, const InstantId inst )
@@ -513,25 +514,7 @@ void FlowProfile::handleTransactionRemoved( const TransactionId t ) {
   m_lowerLevelContribution.erase( t );
   m_upperLevelContribution.erase( t );
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  endRecalculation = PLUS_INFINITY;
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(static_cast<eint>(t->time()->lastDomain().getLowerBound()));
 
   m_previousTimeBounds.erase( t );
 }
@@ -543,64 +526,11 @@ void FlowProfile::handleTransactionTimeChanged(const TransactionId t,
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  switch( type) {
-    case DomainListener::UPPER_BOUND_DECREASED:
-    case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON:
-    case DomainListener::LOWER_BOUND_INCREASED:
-    case DomainListener::BOUNDS_RESTRICTED:
-      {
-        TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
-
-        // we should have the previous value!
-        check_error( ite != m_previousTimeBounds.end() );
-
-        eint previousStart =  (*ite).second.first;
-        eint previousEnd =  (*ite).second.second;
-
-        if( ProfileIteratorId::noId() != m_recomputeInterval )
-        {
-          startRecalculation = std::min( m_recomputeInterval->getStartTime(), previousStart );
-          endRecalculation = std::max( m_recomputeInterval->getEndTime(), previousEnd );
-        }
-        else
-        {
-          startRecalculation = previousStart;
-          endRecalculation = previousEnd;
-        }
-      }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED:
-      {
-        if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-          startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                        static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-          endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-        }
-        else {
-          startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-          endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-        }
-      }
-      break;
-    case DomainListener::REFTIME_CHANGED:
-    case DomainListener::VALUE_REMOVED:
-    case DomainListener::CLOSED:
-    case DomainListener::OPENED:
-    case DomainListener::EMPTIED:
-    default:
-      break;
-  };
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  // the levels depend on the time before as well as on the time after the change
+  IntIntPair& bounds = m_previousTimeBounds[t];
+  bounds.first = std::min(bounds.first, static_cast<eint>(t->time()->lastDomain().getLowerBound()));
+  bounds.second = std::max(bounds.second, static_cast<eint>(t->time()->lastDomain().getUpperBound()));
+  recomputeFrom(bounds.first);
 
   debugMsg("FlowProfile:handleTransactionTimeChanged","TransactionId (" << t->getId() << ") change " << type );
 }
@@ -661,26 +591,7 @@ void FlowProfile::handleTransactionQuantityChanged(const TransactionId t,
       break;
   };
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                  static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-    endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-    endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-  }
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(static_cast<eint>(t->time()->lastDomain().getLowerBound()));
 
   debugMsg("FlowProfile:handleTransactionQuantityChanged","TransactionId (" << t->getId() << ") change " << type << " to " << t->quantity()->toString() );
 }
@@ -696,32 +607,8 @@ void FlowProfile::handleTemporalConstraintAdded(const TransactionId predecessor,
 
       m_orderings.clear();
 
-      eint startRecalculation = PLUS_INFINITY;
-      eint endRecalculation = MINUS_INFINITY;
-
-      if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-        startRecalculation =
-            std::min( m_recomputeInterval->getStartTime(),
-                      std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                               static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-        endRecalculation =
-            std::max(m_recomputeInterval->getEndTime(),
-                     std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                              static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-      }
-      else {
-        startRecalculation =
-            std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-        endRecalculation =
-            std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-      }
-
-      if(m_recomputeInterval.isValid())
-        delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-      m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+      recomputeFrom(std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
+                             static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
 
       m_recalculateLowerLevel = true;
       m_recalculateUpperLevel = true;
@@ -742,37 +629,8 @@ void FlowProfile::handleTemporalConstraintRemoved(const TransactionId predecesso
   m_orderings.clear();
   m_orderedAt.clear();
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-    eint start = m_recomputeInterval->getStartTime();
-    eint end = m_recomputeInterval->getEndTime();
-
-    startRecalculation = 
-        std::min(start, 
-                 std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-    endRecalculation = 
-        std::max(end,
-                 std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-  }
-  else {
-    startRecalculation = 
-        std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-    endRecalculation = 
-        std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-  }
-
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = 
-      (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
+                         static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
 
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
diff --git a/src/PLASMA/Resource/component/FlowProfile.hh b/src/PLASMA/Resource/component/FlowProfile.hh
index d5eef4b..508d92b 100644
--- a/src/PLASMA/Resource/component/FlowProfile.hh
+++ b/src/PLASMA/Resource/component/FlowProfile.hh
@@ -148,6 +148,14 @@ private:
                                      const DomainListener::ChangeType& type );
   void handleTransactionQuantityChanged( const TransactionId t,
                                          const DomainListener::ChangeType& type );
+  /**
+   * @brief Forget all that was known about the transactions when levels were last computed.
+   */
+  void resetGraphs();
+  /**
+   * @brief Have all levels from the given time on recomputed.
+   */
+  void recomputeFrom(const eint time);
   void initRecompute(InstantId inst);
   void initRecompute();
   Order getOrdering( const TransactionId t1, const TransactionId t2 );
-- 
2.43.0


From be9ae731331b139d795ce723afaf422cadcbdd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:22 +0000
Subject: [PATCH 57/64] fix: what a violated constraint inferred is relaxed
 with the variable it emptied

It stayed behind in the other variables of the constraint, which kept values
the remaining constraints allow from them, and other constraints were reported
as violated because of it.
---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index c8044bf..90fe2e8 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -148,8 +148,13 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
     ConstraintId c = v->getCurrentPropagatingConstraint();
 
     // if c is noId, this was caused directly by an specify, just relax the var and the next time around we'll catch the constraint
-    if (c != ConstraintId::noId())
+    if (c != ConstraintId::noId()) {
       c->notifyViolated();
+      // What it has inferred for its other variables is relaxed with v: other constraints must not be found violated because of it
+      const std::vector<ConstrainedVariableId>& scope = c->getScope();
+      for (std::vector<ConstrainedVariableId>::const_iterator it = scope.begin(); it != scope.end(); ++it)
+        addEmptyVariable(*it);
+    }
 
     return true;
   }
-- 
2.43.0


From 75f9ffacebe4ea06b3c74692f26ae98be0b68bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:22 +0000
Subject: [PATCH 58/64] fix: removing a constraint reconsiders what was
 violated because of it

Violated constraints were only reconsidered if removing the other constraint
changed the domain of a shared variable, and the removal of a violated
constraint relaxed nothing.
---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 90fe2e8..8e8a0fb 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -516,8 +516,9 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     constraint->getPropagator()->removeConstraint(constraint);
 
-    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active
-    if(constraint->isActive()){
+    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active,
+    // or only inactive because it is violated: what it had inferred by then has to be withdrawn.
+    if(constraint->isActive() || getViolationMgr().isViolated(constraint)){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
@@ -530,6 +531,11 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
     }
     getViolationMgr().handleRemoved(constraint);
 
+    // Others may be violated because of this constraint, even if there was nothing of it to relax
+    const std::vector<ConstrainedVariableId>& remaining = constraint->getScope();
+    for(std::vector<ConstrainedVariableId>::const_iterator it = remaining.begin(); it != remaining.end(); ++it)
+    	getViolationMgr().handleRelax(*it);
+
     publish(notifyRemoved(constraint));
     debugMsg("ConstraintEngine:remove:Constraint",
 	     constraint->getName() << "(" << constraint->getKey() <<  ")");
-- 
2.43.0


From 6bfefa7c2d4c9ac6f622d3dbed6f1c5bb9e8b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:00 +0000
Subject: [PATCH 59/64] fix: the transaction log records that a token cannot be
 rejected

Replayed without it the token can be rejected.
---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index ab7998e..3b69ebc 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -5,6 +5,7 @@
 #include "Object.hh"
 #include "UnifyMemento.hh"
 #include "Token.hh"
+#include "TokenVariable.hh"
 #include "DbClientTransactionLog.hh"
 
 namespace EUROPA {
@@ -118,6 +119,9 @@ void DbClientTransactionLog::notifyObjectCreated(const ObjectId object,
   void DbClientTransactionLog::notifyTokenCreated(const TokenId token){
     TiXmlElement * element = (token->isFact() ? allocateXmlElement("fact") :
                               allocateXmlElement("goal"));
+    // Unless told otherwise the player makes goals which can be rejected
+    if (!token->isFact() && !token->getState()->baseDomain().isMember(Token::REJECTED))
+      element->SetAttribute("mandatory", "true");
     TiXmlElement * instance = allocateXmlElement("predicateinstance");
     instance->SetAttribute("name", m_tokensCreated++);
     instance->SetAttribute("type", token->getPredicateName());
-- 
2.43.0


From c23c24dc5e3831f847e3c8cbca9b5677de1815a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:00 +0000
Subject: [PATCH 60/64] fix: the transaction log records the specified value

The current domain need not be that value, and is empty after a conflict.
---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index 3b69ebc..db528e9 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -234,10 +234,9 @@ void DbClientTransactionLog::notifyConstraintDeleted(const ConstraintId constrai
 
 	void DbClientTransactionLog::notifyVariableSpecified(const ConstrainedVariableId variable){
 		if(!variable->isInternal()) {
-			checkError(variable->lastDomain().isSingleton(), variable->toString() << " is not a singleton.");
 			TiXmlElement * element = allocateXmlElement("specify");
 			element->LinkEndChild(variableAsXml(variable));
-			element->LinkEndChild(domainValueAsXml(&variable->lastDomain(), variable->lastDomain().getSingletonValue()));
+			element->LinkEndChild(domainValueAsXml(&variable->baseDomain(), variable->getSpecifiedValue()));
 			pushTransaction(element);
 		}
 	}
-- 
2.43.0


From 36b082f35b03fe349e8b7b66e24404896a0ec5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:00 +0000
Subject: [PATCH 61/64] fix: numbers in the transaction log read back as the
 same numbers

An infinite bound was written as a number beyond int, which atoi cut to 1;
floats lost all but six digits.
---
 src/PLASMA/ConstraintEngine/component/DataTypes.cc     |  2 +-
 .../PlanDatabase/component/DbClientTransactionLog.cc   | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/DataTypes.cc b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
index 8ce007d..274cac5 100644
--- a/src/PLASMA/ConstraintEngine/component/DataTypes.cc
+++ b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
@@ -108,7 +108,7 @@ edouble IntDT::createValue(const std::string& value) const
   if (value == "+inf" || value == "inf") {
     return PLUS_INFINITY;
   }
-  return atoi(value.c_str());
+  return strtol(value.c_str(), NULL, 10);
 }
 
 BoolDT::BoolDT()
diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index db528e9..bc5cef7 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -281,11 +281,21 @@ void DbClientTransactionLog::notifyConstraintDeleted(const ConstraintId constrai
     else
       if (domain->isNumeric()) {
         // CMG: Do not use snprintf. Not supported on DEC
+        if (value >= PLUS_INFINITY)
+          return "+inf";
+        if (value <= MINUS_INFINITY)
+          return "-inf";
         std::stringstream ss;
         if (isInt(domain->getTypeName())) {
           ss << cast_int(value);
         } else {
           ss << value;
+          // enough digits to read back the same value
+          if (atof(ss.str().c_str()) != cast_double(value)) {
+            ss.str("");
+            ss.precision(17);
+            ss << value;
+          }
         }
         return ss.str();
       } else if (LabelStr::isString(domain->getUpperBound())) {
-- 
2.43.0


From 0c176fa3b8198bcb2d3a471e191100f95826f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:00 +0000
Subject: [PATCH 62/64] fix: the player can delete a token as the log records
 it

---
 .../PlanDatabase/component/DbClientTransactionPlayer.cc  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index f854afe..fb192f2 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -562,12 +562,15 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
 
     TokenId tok = TokenId::noId();
 
-    TiXmlElement* child = element.FirstChildElement("predicateinstance");
+    // the deletion itself, or the inverse of a creation
+    const TiXmlElement* child = &element;
+    if(strcmp(element.Value(), "deletetoken") != 0)
+      child = element.FirstChildElement("predicateinstance");
     check_error(child != NULL);
 
     const char* name = child->Attribute("name");
-    check_error(name != NULL);
-    std::map<std::string, TokenId>::iterator tokIt = m_tokens.find(name);
+    check_error(name != NULL || child == &element);
+    std::map<std::string, TokenId>::iterator tokIt = (name != NULL ? m_tokens.find(name) : m_tokens.end());
     if(tokIt != m_tokens.end()) {
       tok = tokIt->second;
       m_tokens.erase(tokIt);
-- 
2.43.0


From a10708cc79e5aa169a6d231874fd2b8780629b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:01 +0000
Subject: [PATCH 63/64] fix: a log entry cut off in the middle is not played

It was played as far as it had been written; cut off after its first
character it aborted the process.
---
 src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc | 2 ++
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp                      | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index fb192f2..fe68e48 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -124,6 +124,8 @@ CESchemaId DbClientTransactionPlayer::getCESchema() const {
 
       TiXmlElement tx("");
       is >> tx;
+      if (!is.good()) // the log was cut off inside this entry, which must not be played in part
+        break;
       processTransaction(tx);
       txCounter++;
     }
diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 8d6df65..8ead404 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -730,7 +730,8 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
         // Read the name.
         const char* pErr = p;
 
-    p = ReadName( p, &value );
+        if ( p )
+                p = ReadName( p, &value );
         if ( !p || !*p )
         {
           if ( document )       document->SetError( TIXML_ERROR_FAILED_TO_READ_ELEMENT_NAME, pErr, data );
-- 
2.43.0


From 9616ff6b6c3b7aa224036633b9ea257599b6a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:01 +0000
Subject: [PATCH 64/64] fix: constraints of rules and predicates are not logged
 as client operations

Replaying the log posted them twice, or before their rule fired.
---
 src/PLASMA/NDDL/component/Interpreter.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index a8dcda3..d840ed4 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -79,11 +79,15 @@ void makeConstraint(EvalContext& context,
                     const std::string& violationExpl)
 {
   PlanDatabase* pdb = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));
-  ConstraintId c = pdb->getClient()->createConstraint(name.c_str(), vars, violationExpl);
-  debugMsg("Interpreter","Added Constraint : " << c->toString());
-
   InterpretedRuleInstance* rule =
       reinterpret_cast<InterpretedRuleInstance*>(context.getElement("RuleInstance"));
+  // What a rule or a predicate posts follows from the model: it is no operation of the client, which
+  // a transaction log would have to repeat
+  ConstraintId c = (rule != NULL || context.getElement("Token") != NULL ?
+                    pdb->getConstraintEngine()->createConstraint(name, vars, violationExpl) :
+                    pdb->getClient()->createConstraint(name.c_str(), vars, violationExpl));
+  debugMsg("Interpreter","Added Constraint : " << c->toString());
+
   if (rule != NULL) {
     rule->addConstraint(c);
     debugMsg("Interpreter:InterpretedRule","Added Constraint : " << c->toString());
-- 
2.43.0

