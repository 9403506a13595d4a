#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))
S='src/PLASMA/'
prop('C01','Propagation never loses a solution and never accepts a non-solution',
 'Whatever variables, domains and library constraints a client posts, and in whatever order the pending constraints are executed, every assignment that satisfies all posted constraints inside the base and specified domains stays inside the propagated domains. Propagation always terminates, reports inconsistency only when no such assignment exists, and when it ends consistent with every variable bound, the bound values satisfy every posted constraint.',
 ['schedules','inputs','histories'],
 'for every set of closed variables, every set of library constraints over them, every interleaving of posting, specifying, restricting, retracting and propagating, and every order in which the agenda may be executed',
 'The unit tests post one or two constraints of a kind on hand-picked domains and always execute the agenda in key order; losing a solution needs a particular overlap of domains, several constraints sharing variables, and a particular wake-up order.',
 [S+'ConstraintEngine/base/ConstraintEngine.cc',S+'ConstraintEngine/base/Constraint.cc',S+'ConstraintEngine/base/Domain.cc',S+'ConstraintEngine/component/Constraints.cc',S+'ConstraintEngine/component/Domains.cc',S+'ConstraintEngine/component/Propagators.cc'],
 [('propagate loop over propagators until quiescent','ConstraintEngine::propagate'),('agenda and change notifications decide what runs again','DefaultPropagator / Constraint::canIgnore'),('per-constraint filtering','Constraints.cc handleExecute')],
 [('agenda','constraints that still have to run','DefaultPropagator'),('provenInconsistent','an emptied domain has been found','ConstraintEngine')],
 ['lastDomain of every variable','constraintConsistent / propagate result'])
prop('C02','Propagated consequences depend only on what is posted, not on how it was reached',
 'After any history of creating and deleting variables and constraints, temporarily switching constraints off and on again, specifying, restricting and resetting variables, and passing through inconsistent states, the verdict and the propagated domains equal those of a fresh engine in which only the surviving variables, restrictions, specifications and constraints are posted. In particular retracting whatever caused an inconsistency restores consistency, and the result does not depend on the order in which the agenda is executed or on when propagation is run.',
 ['histories','schedules'],
 'for every history of edits and retractions over a constraint network, every placement of propagation points within it and every agenda order',
 'Tests undo single edits on fixed networks; stale consequences need a particular chain of relaxation, deactivation and re-propagation, often through an inconsistent state or while propagation is pending.',
 [S+'ConstraintEngine/base/ConstraintEngine.cc',S+'ConstraintEngine/base/ConstrainedVariable.cc',S+'ConstraintEngine/base/Constraint.cc',S+'ConstraintEngine/component/Propagators.cc',S+'ConstraintEngine/component/EquivalenceClassCollection.cc'],
 [('relaxation resets the connected variables and re-queues their constraints','ConstraintEngine::handleRelax / addToRelaxed'),('removal of a constraint relaxes its scope','ConstraintEngine::remove / Constraint deactivate'),('specified and base values survive relaxation','ConstrainedVariable::relax / reset')],
 [('cycle counters','stamps used to decide what must be re-evaluated','ConstraintEngine'),('deactivation counts','nested deactivation of variables and constraints','ConstrainedVariable, Constraint')],
 ['lastDomain of every variable','constraintConsistent'])
prop('C03','The temporal network is exact after any history of additions and removals',
 'After any sequence of adding and removing timepoints, temporal constraints and bounds changes, the network is inconsistent exactly when the distance constraints that remain have no solution, and when consistent every timepoint bound and every distance it reports equals the tightest value those constraints imply. Removing the offending constraints always restores consistency and the exact bounds.',
 ['histories','inputs','schedules'],
 'for every sequence of timepoint and distance-constraint insertions, tightenings, relaxations and deletions, with queries and propagation at any point between them',
 'Tests drive a handful of fixed networks; incremental shortest paths go wrong only for particular shapes (zero cycles, parallel constraints, deletion of a constraint that a cached potential or a propagation path depends on).',
 [S+'TemporalNetwork/base/TemporalNetwork.cc',S+'TemporalNetwork/base/DistanceGraph.cc',S+'TemporalNetwork/base/queues.cc'],
 [('incremental Bellman-Ford potentials and Dijkstra propagation','DistanceGraph / TemporalNetwork::incPropagate'),('full propagation after relaxation','TemporalNetwork::fullPropagate')],
 [('potentials','distances that make reduced costs non-negative','Dnode'),('edge specs','all parallel constraints on one directed edge','DistanceGraph')],
 ['getTimepointBounds','calcDistanceBounds','propagate / consistency result'])
prop('C04','Plan time variables and temporal advice agree with the temporal constraints',
 'For every history of creating, constraining, specifying, restricting, resetting, merging and deleting plan tokens and time variables, after propagation the start, end and duration bounds equal the tightest bounds implied by the temporal constraints in force, and the plan is temporally inconsistent exactly when those constraints are unsatisfiable. Advice on whether one token can precede another, fit between two others or be concurrent with another is negative only if it is really impossible, and the reported distance bounds between two times are the implied ones.',
 ['histories','schedules','inputs'],
 'for every history of edits to time variables and temporal constraints, with propagation run at any point or deferred',
 'Tests check a few fixed token layouts; the mapping between variables and timepoints is lazily synchronised and breaks only for particular sequences of deactivation, specification, reset and deletion between two propagations.',
 [S+'TemporalNetwork/component/TemporalPropagator.cc',S+'TemporalNetwork/component/STNTemporalAdvisor.cc',S+'TemporalNetwork/base/TemporalNetwork.cc',S+'PlanDatabase/component/IntervalToken.cc'],
 [('agendas of changed variables and constraints are flushed into the network before propagation','TemporalPropagator::execute'),('bounds copied back to variables','TemporalPropagator::updateTimepoints'),('queries on the propagated network','STNTemporalAdvisor')],
 [('timepoint wrappers','link between a variable and its timepoint','TimepointWrapper')],
 ['lastDomain of start/end/duration','TemporalAdvisor queries'])
prop('C05','Token decisions are reversible and leave no trace',
 'In any plan history, activating, merging, rejecting or cancelling a token moves it between its states only as the operation promises, every merged token is backed by one active compatible token which has received all of its restrictions, and cancelling brings the token back to inactive. Undoing any sequence of decisions, in any order the interface permits, restores the state of every token, the domains of every variable, the set of constraints and the set of subgoals that existed before.',
 ['histories','schedules'],
 'for every sequence of activate, merge, reject, cancel, constrain, specify, reset and delete operations interleaved by several clients on one plan database, with propagation at any point',
 'Tests exercise single merge/split or cancel sequences on two or three tokens; leaks and lost restrictions need overlapping merges, constraints added while merged and cancellations out of order.',
 [S+'PlanDatabase/base/Token.cc',S+'PlanDatabase/base/MergeMemento.cc',S+'PlanDatabase/base/UnifyMemento.cc',S+'PlanDatabase/base/PlanDatabase.cc'],
 [('merging migrates constraints and remembers how to undo it','MergeMemento'),('cancel releases supported tokens and subgoals','Token::cancel / split')],
 [('token state','inactive, active, merged, rejected','Token'),('supported tokens','tokens merged onto an active token','Token')],
 ['token states','variable domains','constraint set','subgoals'])
prop('C06','Model rules are in force exactly while their conditions hold',
 'At every propagated point of every history, each active token has exactly the subgoals, local variables and constraints that the rules of its type prescribe for the guard conditions that currently hold: none is missing, duplicated or left behind. When a guard is withdrawn or the token is deactivated, everything the rule introduced (recursively) disappears, and it reappears once the condition holds again.',
 ['histories','schedules'],
 'for every model with nested, overlapping, negated and multi-variable guards, every sequence of token decisions and guard-variable changes, and every propagation order',
 'Tests fire and retract one rule at a time; double firing or stale consequences need particular interleavings of guard changes, merges and deferred propagation.',
 [S+'RulesEngine/base/RuleInstance.cc',S+'RulesEngine/base/RulesEngine.cc',S+'RulesEngine/base/RuleVariableListener.cc',S+'NDDL/component/NddlInterpreter.cc',S+'PlanDatabase/base/PDBInterpreter.cc'],
 [('listeners on guards schedule execution or undoing','RuleVariableListener / RulesEngine::doRules'),('undo removes variables, constraints and slaves','RuleInstance::undo')],
 [('executed flag','whether the consequences are posted','RuleInstance'),('pending rules','rules scheduled to run or be undone','RulesEngine')],
 ['slaves of a token','constraints and local variables attached to it'])
prop('C07','A timeline is always one total order that matches its precedence constraints',
 'After any sequence of ordering, un-ordering, cancelling, rejecting, merging and deleting tokens of a timeline, the ordered tokens form one sequence without duplicates in which each token is constrained to end before its successor starts, and exactly the active tokens of the timeline that are not in the sequence are reported as still to be ordered. Ordering choices offered for a token are all of the positions that are temporally possible and only positions in the sequence, and removing a token re-links its neighbours.',
 ['histories','inputs'],
 'for every sequence of ordering decisions and retractions in any order over any number of tokens and timelines',
 'Tests cover a few insertion orders on one timeline and remove in stack order; the bookkeeping of implicit versus explicit constraints fails only for particular combinations of neighbours being freed or deleted.',
 [S+'PlanDatabase/component/Timeline.cc',S+'PlanDatabase/base/Object.cc',S+'PlanDatabase/base/ObjectTokenRelation.cc',S+'PlanDatabase/base/PlanDatabase.cc'],
 [('token sequence and index kept in step','Timeline::constrain / free / remove'),('explicit versus implied precedence constraints','Object::constrain / free / clean')],
 [('token sequence','ordered tokens','Timeline'),('tokens to order','flaws reported to solvers','PlanDatabase')],
 ['token sequence','tokens to order','ordering choices','precedence constraints'])
prop('C08','Resource usage envelopes and violations are right after any history',
 'For every resource and every history of adding, moving, constraining and removing the activities that use it, the computed envelope bounds at every instant contain every level that some schedule of those activities consistent with their temporal constraints can reach, and equal the levels of the actual schedule once all times and amounts are fixed. A violation or flaw is reported wherever a fixed schedule breaks a limit and never where no schedule can, and the result equals that of recomputing from scratch.',
 ['histories','schedules','inputs'],
 'for every set of consumptions, productions and uses with flexible times and amounts, every profile algorithm the configuration offers, and every order of insertion, change and removal',
 'Tests compare a few fixed profiles; the incremental recomputation window and the maximum-flow bookkeeping fail only for particular overlaps, simultaneous events and removal orders.',
 [S+'Resource/base/Profile.cc',S+'Resource/base/Resource.cc',S+'Resource/component/TimetableProfile.cc',S+'Resource/component/FlowProfile.cc',S+'Resource/component/IncrementalFlowProfile.cc',S+'Resource/component/GroundedProfile.cc',S+'Resource/component/Reusable.cc',S+'Resource/component/GenericFVDetector.cc'],
 [('transactions grouped into instants, recomputed over an interval','Profile::handleRecompute'),('level bounds per algorithm','TimetableProfile, FlowProfile, IncrementalFlowProfile, GroundedProfile'),('limits checked per instant','FVDetector')],
 [('instants','times at which transactions may start or end','Profile'),('recompute interval','part of the profile to rebuild','Profile')],
 ['level bounds per instant','violations and flaws per instant','engine consistency'])
prop('C09','A plan the solver returns is a real solution and exhaustion means there is none',
 'Whenever the solver reports success, no decision it is responsible for is left open, the plan is consistent and every constraint of the model and problem is satisfied by it. When it reports that the search is exhausted, the problem has no solution within the decisions it is responsible for, because no decision is given up while one of its possible choices is untried; and stopping it on a step or depth limit, resuming it, or driving it step by step gives the same answer as one uninterrupted run.',
 ['programs','schedules','histories'],
 'for every problem and solver configuration, and every way of interrupting, limiting, resuming or single-stepping the search',
 'Tests compare a few sample problems against recorded plans; missing a solution needs a particular dead end after which a remaining choice is skipped or a stale consequence survives backtracking.',
 [S+'Solvers/base/Solver.cc',S+'Solvers/base/FlawManager.cc',S+'Solvers/component/OpenConditionDecisionPoint.cc',S+'Solvers/component/UnboundVariableDecisionPoint.cc',S+'Solvers/component/ThreatDecisionPoint.cc',S+'Solvers/component/ValueSource.cc'],
 [('depth-first search with chronological backtracking','Solver::doStep / backtrack'),('choices enumerated per decision','DecisionPoint hasNext / execute / undo')],
 [('decision stack','decisions in force','Solver')],
 ['solve result, exhausted and timed-out flags','the plan'])
prop('C10','Backing out of search restores the plan exactly',
 'Whatever steps a solver has taken, including failed ones, resetting it, jumping back any number of decisions or backtracking restores the plan to what it was before those decisions: the same tokens and states, the same variable domains, the same constraints and the same open decisions. Solving again afterwards gives the same outcome as solving for the first time.',
 ['histories','programs','schedules'],
 'for every problem, every prefix of search at which the solver is reset or jumps back, and every repetition of solve and reset',
 'Tests reset once after a complete solve of a small problem; residue appears only after specific decision kinds are undone in a specific state.',
 [S+'Solvers/base/Solver.cc',S+'Solvers/base/SolverDecisionPoint.cc',S+'Solvers/component/OpenConditionDecisionPoint.cc',S+'Solvers/component/ThreatDecisionPoint.cc',S+'Solvers/component/UnboundVariableDecisionPoint.cc',S+'PlanDatabase/base/Token.cc'],
 [('each decision undoes its own effect','DecisionPoint::undo'),('reset and backjump pop the stack','Solver::reset / backjump')],
 [('decision stack','decisions in force','Solver')],
 ['full plan dump before and after','solver outcome'])
prop('C11','The open decisions a solver sees are exactly the current flaws',
 'At every propagated point of every history of edits made by the solver or behind its back by other clients, the open decisions reported are exactly the unsupported tokens, unordered tokens and unbound variables in the plan that the configuration does not exclude, each reported once with the handler that the configuration selects for its current state. A solver attached from the beginning and one attached afresh to the same plan report the same.',
 ['histories','configurations','schedules'],
 'for every history of plan edits, every set of filter and handler rules with guards, and every point at which the solver is attached',
 'Tests check flaw lists in a few fixed states; the incremental caches go stale only after particular sequences of merging, cancelling, opening and closing, deletion or guard changes.',
 [S+'Solvers/base/FlawManager.cc',S+'Solvers/base/FlawHandler.cc',S+'Solvers/base/MatchingEngine.cc',S+'Solvers/component/OpenConditionManager.cc',S+'Solvers/component/ThreatManager.cc',S+'Solvers/component/UnboundVariableManager.cc',S+'Solvers/component/Filters.cc'],
 [('flaw sets updated from notifications','OpenConditionManager, UnboundVariableManager, ThreatManager'),('filter and handler matches cached per entity','FlawManager')],
 [('flaw candidates','tokens and variables that may be flaws','flaw managers')],
 ['iterator over open decisions','handler selected for a flaw'])
prop('C12','Replaying a transaction log after a crash rebuilds the plan as of that point',
 'If a client with transaction logging on is stopped at any point, replaying what reached the log into a fresh engine with the same model gives a plan equivalent to the one at the last completely logged operation: the same objects, tokens and states, constraints, variable domains and consistency. A log cut off in the middle of an entry yields the plan of the complete entries before it, and never a different plan.',
 ['crash_points','histories','fault_sequences'],
 'for every sequence of client operations on the plan database, every point at which logging is cut off (between or inside entries), and every chunking of the log stream',
 'Tests replay a few complete logs; an operation that is not logged, logged wrongly or in the wrong order shows only if it is used in a particular state and the log is replayed.',
 [S+'PlanDatabase/component/DbClientTransactionLog.cc',S+'PlanDatabase/component/DbClientTransactionPlayer.cc',S+'PlanDatabase/base/DbClient.cc'],
 [('every client operation is published to listeners','DbClient'),('entries written as XML and played back','DbClientTransactionLog, DbClientTransactionPlayer')],
 [('buffered transactions','entries not yet flushed','DbClientTransactionLog'),('token paths','names of tokens in the log','DbClient')],
 ['dump of the replayed plan'])
prop('C13','Rewinding a transaction log undoes exactly the logged operations',
 'After any sequence of logged client operations, rewinding the log (completely or back to any breakpoint) returns the plan to the state it had at that point, and playing the same log forward again leads to the same plan as before.',
 ['histories','crash_points'],
 'for every sequence of reversible client operations and every breakpoint to which it is rewound',
 'Tests rewind a few short logs of one or two operation kinds; inverse operations that look backwards in the log depend on the whole history.',
 [S+'PlanDatabase/component/DbClientTransactionPlayer.cc',S+'PlanDatabase/component/DbClientTransactionLog.cc'],
 [('inverse operations','DbClientTransactionPlayer::processTransactionInverse')],
 [('buffered transactions','entries to be undone','DbClientTransactionLog')],
 ['plan dump after rewind'])
prop('C14','Engines can fail, stop and restart at any point without harming each other',
 'An engine can be created, loaded with a model, driven, interrupted by an error in a script or operation, and shut down at any point without crashing, and after a shutdown no entity it created remains. Several engines alive in one process, used in any interleaving, each behave exactly as they would alone.',
 ['histories','schedules','crash_points'],
 'for every interleaving of operations on several engines, every point at which a script fails or an engine is shut down and started again',
 'Tests run one engine at a time from start to end; leaks and cross-talk through process-wide tables need interleaved engines or a shutdown in an unusual state.',
 [S+'System/base/EuropaEngine.cc',S+'System/base/PSEngineImpl.cc',S+'Utils/base/Engine.cc',S+'Utils/base/Entity.cc',S+'Utils/base/IdTable.cc',S+'NDDL/component/NddlInterpreter.cc',S+'PlanDatabase/base/PlanDatabase.cc'],
 [('modules initialised and released in order','EngineBase'),('entities registered process-wide','Entity, IdTable')],
 [('entity table','all live entities','Entity')],
 ['live entities after shutdown','behaviour compared with a lone engine'])
prop('C15','Listeners are told of every change exactly once and in order',
 'A listener attached to the constraint engine or plan database can rebuild, from the notifications alone, exactly the current variables, constraints, tokens with their states, objects, ordering relations and consistency at every point of every history: each addition, removal, activation, change and decision is reported exactly once, after an entity is announced and never after its removal. Attaching or detaching a listener has no effect on the plan.',
 ['histories','schedules'],
 'for every history of client and solver operations, and every moment of attaching and detaching listeners',
 'Tests count a few notifications in fixed scenarios; a missing or duplicated notification on a rare path (merge undo, cascade deletion, discard during propagation) is invisible to them.',
 [S+'ConstraintEngine/base/ConstraintEngine.cc',S+'PlanDatabase/base/PlanDatabase.cc',S+'PlanDatabase/base/Token.cc',S+'RulesEngine/base/RulesEngine.cc',S+'Solvers/base/Solver.cc'],
 [('publish macros','ConstraintEngine, PlanDatabase, RulesEngine, Solver')],
 [('listener sets','who is told','ConstraintEngine, PlanDatabase')],
 ['notification stream against the real state'])
prop('C16','With violations allowed, reported violations are real conflicts and recoverable',
 'When the engine is told to continue through conflicts, for every history the total violation is zero exactly when the posted constraints are found consistent, each reported violation is a constraint that is posted and takes part in a conflict, and no variable that is part of no conflict loses values that a consistent solution needs. Retracting the conflicting constraints or values removes the reported violations and restores the same domains as if the conflict had never been posted.',
 ['histories','schedules'],
 'for every history of edits with violations allowed, including switching the mode and several simultaneous conflicts',
 'Tests post one conflict and remove it; the relaxation of violated constraints and the retained agenda behave differently for overlapping conflicts and for repairs in another order.',
 [S+'ConstraintEngine/base/ConstraintEngine.cc',S+'ConstraintEngine/base/Constraint.cc',S+'ConstraintEngine/component/Propagators.cc'],
 [('violation manager relaxes and deactivates violated constraints','ViolationMgrImpl'),('agenda is kept when propagation can continue','DefaultPropagator::execute')],
 [('violated constraints','constraints currently reported','ViolationMgrImpl'),('empty variables','variables whose domain was emptied','ViolationMgrImpl')],
 ['getViolation','getAllViolations','domains after repair'])
prop('C17','The same program gives the same plan whatever the memory layout',
 'Interpreting the same scripts, applying the same operations and solving with the same configuration gives the same result every time: the same domains, decisions, search steps and plan, independent of where objects happen to be placed in memory and of what other engines ran in the process before.',
 ['schedules','configurations','programs'],
 'for every program and every placement of heap objects',
 'Tests run each program once per build in one memory layout; a decision that follows the address order of a container differs only under another layout.',
 [S+'ConstraintEngine/base/ConstraintEngine.cc',S+'Solvers/base/FlawManager.cc',S+'Solvers/component/UnboundVariableManager.cc',S+'PlanDatabase/base/PlanDatabase.cc',S+'Utils/base/Entity.hh',S+'TemporalNetwork/base/TemporalNetwork.cc'],
 [('containers of entities ordered by key','EntityComparator')],
 [],
 ['plan dump','sequence of decisions'])
prop('C18','Process-wide tables stay correct under concurrent callers',
 'When several threads intern strings, create, look up and destroy entities and validate references at the same time, two equal strings always get the same key and two different strings different keys, every key maps back to its string, every live entity is found under exactly its own unique key and none is found after its destruction. No interleaving deadlocks, crashes or corrupts a table.',
 ['schedules','histories'],
 'for every interleaving of calls from several threads at the level of the synchronisation points and memory-visible steps of the tables',
 'The tests that start threads observe whatever interleaving the operating system happens to choose and check only a few outcomes.',
 [S+'Utils/base/LabelStr.cc',S+'Utils/base/Entity.cc',S+'Utils/base/IdTable.cc',S+'Utils/base/Mutex.cc'],
 [('one lock per table held for the whole operation','LabelStr, Entity, IdTable')],
 [('string-to-key and key-to-string maps','interned strings','LabelStr'),('entities by key','live entities','Entity'),('pointer to id entries','valid references','IdTable')],
 ['return values of every call'])
prop('C19','Domain values form a lattice of sets under the domain operations',
 'For all domains of the same type, intersection, difference, equality, subset and membership tests, insertion and removal give the result of the corresponding operation on the sets of values the domains stand for.',
 ['inputs'],'for all pairs of domains','Tests try a few pairs per type.',
 [S+'ConstraintEngine/base/Domain.cc',S+'ConstraintEngine/component/Domains.cc'],
 [('operations on enumerated and interval domains','Domain, EnumeratedDomain, IntervalDomain')])
prop('C20','XML documents survive a round trip',
 'Parsing what the XML library has written yields the same document, for every document it can represent.',
 ['inputs'],'for all documents','Tests parse a few documents.',
 [S+'TinyXml/base/tinyxml.cpp',S+'TinyXml/base/tinyxmlparser.cpp'],
 [('printing and parsing','TiXmlDocument')])
prop('C21','Ill-formed model text is rejected and well-formed text accepted',
 'Every NDDL or ANML text that breaks a syntax or typing rule of the language is rejected with an error that names the problem, and every text that follows the rules is accepted with the meaning the language defines.',
 ['programs'],'for all program texts','Tests hold a list of a few hundred samples.',
 [S+'NDDL/base/antlr/NDDL3.g',S+'NDDL/base/antlr/NDDL3Tree.g',S+'ANML/component/AnmlInterpreter.cc',S+'ConstraintEngine/base/ConstraintTypeChecking.cc'],
 [('grammar and type checks','NDDL3.g, NDDL3Tree.g')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
