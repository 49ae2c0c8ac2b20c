"""properties beyond the domains (see gen_properties.py)"""


def add(P, CE):
    C = [CE + 'component/Constraints.cc', CE + 'component/Constraints.hh']
    P('P05', 'Library constraints never prune a combination that satisfies them',
      'When a library constraint executes on the current domains of its variables, every combination of values from those domains that satisfies the relation the constraint stands for is still available afterwards, no domain gains a value, and the constraint reports inconsistency only if no combination satisfies it. Real values closer together than the numeric resolution count as equal. This holds for every mix of integer, real, boolean and enumerated arguments that the constraint accepts.',
      ['inputs'], 'all domains (intervals of integers, reals or booleans, finite or infinite, and enumerations) of all variables in the scope of the constraint',
      'a constraint removes values by reasoning on bounds; whether it removes too much depends on the bounds, signs, infinities and types of all its arguments together',
      C, [('propagation of sums, products and comparisons', 'Constraints.cc handleExecute of each constraint'), ('removal', 'NotEqualConstraint::checkAndRemove')],
      ['current domains after Constraint::execute / ConstraintEngine::propagate'])
    P('P06', 'Library constraints reject fully assigned values that violate them',
      'When a library constraint has executed and every variable in its scope is left with exactly one value, those values satisfy the relation the constraint stands for; otherwise the constraint has emptied a domain. Single values that satisfy the relation are not rejected. Real values closer together than the numeric resolution count as equal. No constraint treats an unsatisfied assignment as satisfied whatever the types of its arguments and the order in which they became single.',
      ['inputs'], 'all single values, of every accepted mix of types, of all variables in the scope of the constraint and all orders of fixing them',
      'a plan is accepted when propagation stops with all variables fixed; a constraint that fails to reject is visible only for particular values and orders',
      C, [('check of single values', 'Constraints.cc handleExecute of each constraint')],
      ['consistency after propagation of singletons'])
    B = [CE + 'base/ConstraintEngine.cc', CE + 'base/Constraint.cc', CE + 'component/Propagators.cc', CE + 'base/ConstrainedVariable.cc']
    P('P07', 'Propagation reaches the fixed point of the network whatever the edit history',
      'After any sequence of creating and deleting constraints, specifying, resetting, restricting the base domain of variables and deactivating and reactivating constraints, with propagation at any points in between, propagating leaves every variable with the domain that a network built from scratch in the same final state has, and reports the same consistency. Every active constraint that was added, activated or has a variable changed by something else stays pending until it is executed. Propagation reports success only if no domain is empty and no constraint is pending, and failure only otherwise. When violations are allowed, a constraint that fully fixed variables violate is reported as violated, the total violation counts the violated constraints, and no domain stays empty.',
      ['inputs', 'history'], 'all histories of edits and propagation over networks of library constraints',
      'which constraint is forgotten or executed on stale domains depends on the order of edits, relaxations and propagation over a long history',
      B, [('agenda', 'DefaultPropagator, EqualityConstraintPropagator'), ('relaxation', 'ConstraintEngine::handleRelax'), ('verdict', 'ConstraintEngine::doPropagate'), ('violations', 'ViolationMgrImpl')],
      ['current domains, consistency and violations after ConstraintEngine::propagate'])
    P('P08', 'Variables keep specified value, current and base domain in step over their life',
      'Specifying a variable records the value and leaves it as the only possible value, or none if it was excluded; resetting withdraws the specification and brings the base domain back, subject to the constraints; relaxing keeps a specified value. Inserting or removing a member changes exactly that member of the base domain and follows in the current domain; closing and opening change only the closure. Restricting the base domain removes exactly the values outside the restriction. The current domain never has a value that the base domain lacks, and a variable counts as specified exactly while a value given by a client or fixed by its base domain is in force.',
      ['inputs', 'history'], 'all domains, values and histories of specify, reset, restrict, insert, remove, open and close',
      'an error shows only when a base domain, a specification and propagated restrictions interact over several steps',
      [CE + 'base/ConstrainedVariable.cc', CE + 'component/Variable.hh'], [('specification', 'ConstrainedVariable::internalSpecify/reset/relax'), ('dynamic domains', 'ConstrainedVariable::insert/remove/open/close')],
      ['ConstrainedVariable::isSpecified, lastDomain, baseDomain'])
    TB = 'src/PLASMA/TemporalNetwork/base/'
    D = [TB + 'DistanceGraph.cc', TB + 'DistanceGraph.hh']
    P('P09', 'Distance graph: exact shortest distances, and negative cycles detected',
      'In a distance graph the length of the edge between two nodes is the smallest of the lengths specified for it and not yet withdrawn, and the edge is gone when none is left. A single-source propagation leaves at every node it reaches the length of a shortest path from the source (up to the target or the bound the caller gave), and never a distance for which there is no path. A propagation of all edges reports failure exactly when the graph has a cycle of negative length; otherwise it leaves potentials that satisfy every edge, which later propagations rely on.',
      ['inputs', 'history'], 'all graphs, edge lengths within the limits, sources, targets and bounds, and all histories of adding and removing edges and nodes',
      'label-correcting search with a bucket queue, lazily re-initialised generation marks and reused potentials is right only if all of its invariants hold together; small graphs exercise few orders',
      D, [('search', 'DistanceGraph::dijkstra, boundedDijkstra, bellmanFord, incBellmanFord'), ('queue and marks', 'BucketQueue, Dnode::mark'), ('edges', 'DistanceGraph::addEdgeSpec, removeEdgeSpec')],
      ['DistanceGraph::getDistance after dijkstra', 'result of bellmanFord and potentials', 'DistanceGraph::findEdge and lengths'])
    P('P10', 'Temporal network: bounds are the tightest implied, inconsistency detected',
      'For any history of adding, narrowing and removing temporal constraints and timepoints, the network answers every query as if it had been propagated from scratch: it is inconsistent exactly when its constraints have no solution, and if it is consistent the upper and lower bound reported for a timepoint are exactly the greatest and least distance from the origin in any solution, and the distance bounds between two timepoints are exactly the greatest and least difference in any solution.',
      ['inputs', 'history'], 'all histories of timepoints and temporal constraints with bounds within the limits or infinite, and queries in between',
      'bounds are maintained incrementally while constraints tighten and recomputed after deletions; a bound that is stale or too tight depends on the history',
      [TB + 'TemporalNetwork.cc', TB + 'TemporalNetwork.hh'] + D, [('incremental propagation', 'TemporalNetwork::incPropagate, incDijkstraForward, incDijkstraBackward, startNode'), ('full propagation', 'TemporalNetwork::fullPropagate'), ('queries', 'TemporalNetwork::propagate, getTimepointBounds, calcDistanceBounds')],
      ['TemporalNetwork::propagate result', 'getTimepointBounds', 'calcDistanceBounds'])
    RB = 'src/PLASMA/Resource/'
    P('P11', 'Resource profiles: levels, violations and flaws match the transactions',
      'For any history of adding, removing, moving and changing transactions of a resource and of changing its limits and capacity, once the profile is recomputed every instant at which a transaction may start or end carries the level and cumulative bounds that its transactions imply: quantities that must have happened by then count with certainty, those that may have happened count as possible. An instant is reported as violated exactly if a limit in force at its time is broken even by the most favourable level (for an open world resource, also counting the production and consumption still allowed beyond what must have happened) or by a total or rate that cannot be avoided, and as flawed exactly if a level, total or rate the resource must guard against breaks one; reports that no longer apply are withdrawn. With violations not allowed, the first violated instant makes the profile inconsistent.',
      ['inputs', 'history'], 'all sets of transactions with time and quantity bounds, limits and capacities over time, and all histories of changing them',
      'levels are updated incrementally over intervals of instants; a stale or doubly counted transaction depends on overlaps, infinite bounds and the order of changes',
      [RB + 'base/Profile.cc', RB + 'base/Instant.cc', RB + 'base/Resource.cc', RB + 'component/TimetableProfile.cc', RB + 'component/GenericFVDetector.cc', RB + 'component/OpenWorldFVDetector.cc', RB + 'component/ClosedWorldFVDetector.cc'],
      [('levels', 'TimetableProfile::initRecompute, recomputeLevels, Profile::handleRecompute'), ('transactions of an instant', 'Instant::update, Profile::addInstant, addInstantsForBounds'), ('violations and flaws', 'GenericFVDetector::detect and the level bounds of the open and closed world detectors'), ('changed limits', 'Resource::detectFV, ExplicitProfile::getValue')],
      ['levels per instant from Profile::recompute', 'violations and flaws per instant', 'consistency after propagation'])
    PB = 'src/PLASMA/PlanDatabase/base/'
    P('P12', 'Tokens: state changes and merging keep the plan consistent and can be undone',
      'A token is inactive until it is activated, merged with a compatible active token or rejected, and cancelling it makes it inactive again (splitting first whatever was merged with it, and dropping its slaves unless something else holds them). A token is among the merged tokens of an active token exactly while its state is MERGED and that token is its active token. While tokens are merged, the variables of the active token have exactly the values they would have in a network in which each merged variable and its counterpart are one variable, with all base domains, specified values and constraints of the merged tokens; whatever is specified, reset, merged, split, cancelled or deleted, in any order, the effect of what is gone is gone and the rest remains.',
      ['inputs', 'history'], 'all histories of creating, activating, merging, rejecting, cancelling and deleting tokens and specifying, resetting and constraining their variables',
      'merging moves constraints and folds domains between tokens and splitting has to undo it in any order; what is left over or lost depends on the history',
      [PB + 'Token.cc', PB + 'TokenVariable.hh', PB + 'UnifyMemento.cc', PB + 'StackMemento.cc', PB + 'MergeMemento.cc'],
      [('states and links', 'Token::activate, doMerge, split, reject, reinstate, cancel, deactivate, removeMaster'), ('merged domains', 'TokenVariable::computeBaseDomain, handleBase, handleSpecified, handleReset, relax, setSpecified, resetSpecified'), ('merged constraints', 'MergeMemento and StackMemento')],
      ['Token::isActive, isMerged, isRejected, isInactive, getActiveToken, getMergedTokens', 'lastDomain of token variables', 'consistency after propagation'])
    SB, SC = 'src/PLASMA/Solvers/base/', 'src/PLASMA/Solvers/component/'
    P('P13', 'Search tries every alternative once and takes back exactly what it decided',
      'A solver makes one decision at a time and keeps the executed ones in the order in which they were made. On a conflict it retracts the latest decision and tries its next alternative, or goes further back if none is left; no decision is given up while an untried alternative is left, and none is retracted before the later ones are. The alternatives of a decision are the remaining members of the domain of a variable, the compatible tokens to merge with and the open states of a token, or the orderings of a token in conflict; each is tried exactly once. So solving, going back and solving again enumerates exactly the solutions, and the search reports exhaustion only if no further one exists, unless a conflict was there before it decided anything. Retracting and resetting decisions leaves no trace of them in the plan. It reports that there is no flaw only if it found none, having considered again the variables and tokens that became undecided, or whose token was activated, since it looked last, and running out only if a given limit of steps or of depth, counted from where that run started, is reached.',
      ['inputs', 'history'], 'all plans and flaws, all sequences of solve, step, backjump, reset and clear, and all limits',
      'tests run a few problems with a known plan; a lost or repeated alternative, or an effect left behind by retraction, shows only on particular trees of conflicts',
      [SB + 'Solver.cc', SB + 'SolverDecisionPoint.cc', SC + 'UnboundVariableDecisionPoint.cc', SC + 'OpenConditionDecisionPoint.cc', SC + 'ThreatDecisionPoint.cc'],
      [('steps and backtracking', 'Solver::solve, doStep, step, backtrack, backjump, reset, clear, allocateNewDecisionPoint'), ('decisions', 'DecisionPoint::execute, undo, cut'), ('alternatives', 'MinValue, MaxValue, UnboundVariableDecisionPoint, OpenConditionDecisionPoint, ThreatDecisionPoint')],
      ['Solver::solve, isExhausted, isTimedOut, noMoreFlaws, getDepth, getStepCount, getDecisionStack', 'domains of variables before and after'])
    RU = 'src/PLASMA/RulesEngine/base/'
    P('P14', 'Rules: a rule is in force exactly while its token is active and its guards hold',
      'For every token and every model rule that applies to it there is one rule instance while the token is active, and none otherwise; a nested rule has one exactly while the rule around it is in force. Whenever the network has been propagated and is consistent, a rule instance is in force exactly if its guards hold: without guards always; with a guard domain if the guard has one value and that is a member (for a negated rule: not a member, or if the guard has no value in common with it any more) and all further guards are decided (specified or with a single base value); otherwise if all guards are decided. While a rule is in force its slaves, constraints and local variables exist, once each, and after its guards stop holding or its token is cancelled none of them is left. A change of a guard is never ignored, and a rule instance that is deleted is not executed or undone any more.',
      ['inputs', 'history'], 'all rules with nested and negated guards, and all histories of activating and cancelling tokens and specifying, resetting and constraining guard variables',
      'rules are scheduled during propagation and executed or undone after it, each of which changes variables that guard other rules; tests follow a few rules through one history',
      [RU + 'RuleInstance.cc', RU + 'RulesEngine.cc', RU + 'RuleVariableListener.cc', 'src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc'],
      [('guards', 'RuleInstance::test, willNotFire'), ('schedule', 'RulesEngine::scheduleForExecution, scheduleForUndoing, unschedule, doRules, RuleInstance::prepare'), ('watching the guards', 'RuleVariableListener::canIgnore, handleExecute, testIsRedundant'), ('effects', 'RuleInstance::execute, undo')],
      ['RuleInstance::isExecuted, getSlaves', 'Token::slaves', 'RulesEngine::getRuleInstances'])
