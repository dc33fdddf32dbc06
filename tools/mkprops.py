#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "POMDP belief tracking follows Bayes' rule",
  "For every POMDP, belief and action: the outcome probabilities are the exact probabilities of each observation and sum to one, the expected reward is the belief-weighted immediate reward, and for every observation of non-zero probability the next belief is the normalised Bayes posterior. An observation that cannot occur is given probability zero.",
  ["inputs"], "every belief over a model and every model parameter value, action and observation",
  "The tests only solve four fixed models and compare final bounds; a wrong posterior on beliefs those runs do not visit is invisible.",
  ["src/pomdpCore/Pomdp.cc", "src/common/sla.h"],
  [("observation probabilities and belief update", "src/pomdpCore/Pomdp.cc getOutcomeProbVector/getNextState"), ("expected reward", "src/pomdpCore/Pomdp.cc getReward")])

p("P02", "Solver bounds always bracket the optimal value (POMDP)",
  "Whatever the POMDP, the initial bounds and every later state of the solver's lower and upper bound bracket the optimal value: at every belief, lower bound <= optimal discounted value <= upper bound, and the lower bound never exceeds the upper bound. This holds after any sequence of bound updates.",
  ["inputs", "histories"], "all reward values within the stated range, all beliefs queried, all sequences of node updates up to the stated length",
  "Tests compare two final numbers at the initial belief for fixed models; an unsound bound at another belief, or only for some rewards, passes.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/pomdpBounds/BlindLBInitializer.cc", "src/pomdpBounds/FastInfUBInitializer.cc", "src/pomdpBounds/FullObsUBInitializer.cc"],
  [("lower-bound backup", "src/pomdpBounds/MaxPlanesLowerBound.cc update"), ("upper-bound backup", "src/pomdpBounds/SawtoothUpperBound.cc update"), ("initialisers", "src/pomdpBounds/*Initializer.cc")])

p("P03", "Initial POMDP bounds are valid before any search",
  "For every POMDP model the initial lower bound at any belief is achievable by some blind policy-style plan and the initial upper bounds (fully observable and fast informed) are not below the optimal value; the fast informed bound is never looser than the fully observable one beyond the convergence tolerance.",
  ["inputs"], "all rewards in range on the stated models, all beliefs",
  "Tests never inspect initial bounds; only models whose initial bounds happen to be fine are run.",
  ["src/pomdpBounds/BlindLBInitializer.cc", "src/pomdpBounds/FullObsUBInitializer.cc", "src/pomdpBounds/FastInfUBInitializer.cc"],
  [("blind policy value", "BlindLBInitializer.cc initBlindWorstCase/initBlind"), ("MDP and FIB upper bounds", "FullObsUBInitializer.cc, FastInfUBInitializer.cc")])

p("P04", "Bound updates are monotone: a bound never gets looser",
  "At any state or belief, the lower bound the solver reports never decreases and the upper bound never increases as it performs further updates, prunes its representation or caches values.",
  ["inputs", "histories"], "all sequences of updates up to the stated length, all rewards in range, all query beliefs",
  "Tests only see the last bound values of a run.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/bounds/PointLowerBound.cc", "src/bounds/PointUpperBound.cc"],
  [("add/replace plane and prune", "MaxPlanesLowerBound.cc addLBPlane/prunePlanes"), ("add point and prune", "SawtoothUpperBound.cc addPoint/prune")])

p("P05", "POMDP backups equal the one-step Bellman lookahead",
  "After a lower-bound update at a belief, the lower bound there is at least the best one-step lookahead value (expected reward plus discounted expected successor lower bound), and after an upper-bound update at a belief the upper bound there is at most the best one-step lookahead over successor upper bounds. The reported action values equal that lookahead for each action.",
  ["inputs", "histories"], "all rewards and plane/point values in range, all beliefs of the stated graphs",
  "A backup that is merely too weak, or picks a wrong action in rare ties or sign patterns, still converges on the test models.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/bounds/BoundPairCore.cc"],
  [("plane backup", "MaxPlanesLowerBound.cc getNewLBPlaneQ"), ("sawtooth Q backup", "SawtoothUpperBound.cc update"), ("Q values", "BoundPairCore.cc getQValue")])

p("P06", "Max-planes pruning and acceleration options never change the bound",
  "Dominance pruning, support lists, per-node caches and extra pruning of the lower bound are pure optimisations: with any of them switched on or off, the lower bound value reported for any belief that the search has reached is the same, and a removed plane was never the unique best one at any belief where it applies.",
  ["inputs", "configurations", "histories"], "all plane values in range, all on/off combinations, all update sequences up to the stated length",
  "Tests run only the default option set and would not see a plane lost by pruning unless it dominates at the initial belief.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc"],
  [("dominance pruning", "MaxPlanesLowerBound.cc prunePlanes/dominates"), ("support list and cache", "MaxPlanesLowerBound.cc getBestLBPlane*")])

p("P07", "Upper bound is the sawtooth interpolation; pruning keeps its values",
  "The upper bound at a belief equals the smallest of the corner-point plane and the sawtooth projections of the stored belief points (with support lists on: of those points that cover the belief's first non-zero state), so it never exceeds the value stored at a point; pruning changes the bound at no belief beyond the pruning tolerance, and support lists never make it lower than it is without them.",
  ["inputs", "configurations", "histories"], "all point values in range, all query beliefs on the stated simplex, on/off of the support list",
  "Tests check only the converged value at the initial belief.",
  ["src/pomdpBounds/SawtoothUpperBound.cc"],
  [("sawtooth projection", "SawtoothUpperBound.cc getBVValue/getValue"), ("prune", "SawtoothUpperBound.cc prune/dominates")])

p("P08", "Point bounds on MDPs perform exact monotone Bellman updates",
  "For MDPs solved with point bounds, updating a state makes its lower and upper values the one-step Bellman lookahead over successor values (never looser than before), with and without caching of action values, and the chosen action's value is the best one.",
  ["inputs", "histories"], "all rewards, initial bounds and sequences of updates up to the stated length on the stated MDPs",
  "The test MDP is tiny and converges from any order of updates.",
  ["src/bounds/PointLowerBound.cc", "src/bounds/PointUpperBound.cc", "src/bounds/BoundPair.cc"],
  [("point update", "PointLowerBound.cc/PointUpperBound.cc update"), ("dual point update", "BoundPair.cc updateDualPointBounds")])

p("P09", "Every distinct state has exactly one search node, expanded to the model",
  "Looking a state up in the search graph always returns the same node for the same state and different nodes for different states, and an expanded node lists for every action its immediate reward and exactly the model's successors with their non-zero probabilities. Terminal states have value zero in both bounds and are never expanded into further states.",
  ["inputs", "histories"], "all states with coordinates in the stated range, all orders of lookup and expansion on the stated models",
  "Tests never look at the node table; duplicated or merged nodes mostly just shift the bounds.",
  ["src/bounds/BoundPairCore.cc", "src/bounds/BoundPair.cc", "src/common/MatrixUtils.h", "src/bounds/MDPCache.h"],
  [("node lookup", "BoundPairCore.cc getNode"), ("node expansion", "BoundPairCore.cc expand"), ("hash key", "MatrixUtils.h hashable")])

p("P10", "Every search strategy keeps valid bounds on every trial",
  "Running any of the search strategies (RTDP, LRTDP, HDP, HSVI, FRTDP) for any number of trials on an MDP keeps every visited state's lower and upper bound bracketing that state's optimal value, and never makes a state's interval wider.",
  ["inputs", "histories", "schedules"], "all rewards in range and all random outcome choices for the stated trial counts",
  "Tests run a few strategies with one random seed on one or two models and check only the root.",
  ["src/search/RTDP.cc", "src/search/LRTDP.cc", "src/search/HDP.cc", "src/search/HSVI.cc", "src/search/FRTDP.cc", "src/search/RTDPCore.cc"],
  [("trial loops", "src/search/*.cc doTrial/trialRecurse"), ("planning loop", "src/search/RTDPCore.cc planFixedTime")])

p("P11", "A search that reports convergence really is within the requested precision",
  "When any search strategy reports that it is finished (rather than having exhausted its backup or time budget), the value of the greedy policy and the reported bounds at the initial state are within the requested regret/residual of the optimal value, and states it labels solved really satisfy the residual criterion together with everything reachable under the greedy policy. A search whose start state is labelled solved, or whose interval there is within the limit, says so at its next trial.",
  ["inputs", "histories", "schedules"], "all rewards in range and all random outcomes on the stated MDPs",
  "Tests only check that a run's printed bounds are near known values for one seed.",
  ["src/search/LRTDP.cc", "src/search/HDP.cc", "src/search/FRTDP.cc", "src/search/HSVI.cc", "src/main/TestDriver.cc"],
  [("solved labelling", "LRTDP.cc checkSolved"), ("component labelling", "HDP.cc trialRecurse"), ("termination", "HSVI.cc/FRTDP.cc doTrial")])

p("P12", "Saving a policy and loading it back preserves it",
  "Writing the solver's lower-bound policy to a file and reading that file back gives a policy with the same value and the same best action at every belief (to the precision printed), including plane masks; alpha-vector files are read as exactly the vectors they list.",
  ["inputs", "histories"], "all plane values in range, all beliefs, policies from every update sequence up to the stated length",
  "One test reads one fixed policy back; values lost only for some planes, masks or counts are not seen.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/bounds/BoundPair.cc"],
  [("write", "MaxPlanesLowerBound.cc writeToFile"), ("read", "MaxPlanesLowerBound.cc readFromFile/readFromCassandraAlphaFile")])

p("P13", "The executed action is the greedy one for the current bounds",
  "At any state the action chosen for execution maximises the one-step lookahead under the bound the policy is based on, an executing policy loaded from a file does the same with the loaded planes at the belief it tracks, and the tracked belief after each (action, observation) is the model's successor.",
  ["inputs", "histories"], "all bound values and rewards in range, all action/observation sequences of the stated length",
  "Tests evaluate average reward by simulation, too noisy to notice a slightly wrong action.",
  ["src/bounds/BoundPairCore.cc", "src/exec/BoundPairExec.cc", "src/exec/MDPExec.cc"],
  [("choose action", "BoundPair*.cc chooseAction"), ("execution", "src/exec/BoundPairExec.cc chooseAction/advanceToNextState")])

p("P14", "Policy evaluation reports the true discounted return of each trial",
  "In every simulated trial the policy's own actions are performed, the reported return is the sum of discounted rewards along the trajectory actually sampled, and the trial ends exactly at a terminal state or at the step limit. With the evaluation cache the same holds, except that what follows a step counts by the ratio of the step's probability to its share of the batch's samples, if all outcomes of that state and action were sampled in the batch. Batch averages and the success rate are those of the trials.",
  ["inputs", "histories", "schedules"], "all rewards in range and all random outcomes for the stated horizon",
  "Only the mean of many random trials is compared, loosely.",
  ["src/exec/PolicyEvaluator.cc", "src/common/MDPSim.cc"],
  [("trial loop", "PolicyEvaluator.cc doTrial*/getRewardSamples"), ("simulator", "MDPSim.cc performAction")])

p("P15", "Outcomes are sampled according to the model's probabilities",
  "For every random number drawn, the sampled outcome is the one whose cumulative-probability interval contains it; an outcome of probability zero is never sampled, and each outcome's set of random numbers has measure equal to its probability.",
  ["inputs", "schedules"], "every value of the random source including both ends, all distributions within the stated sizes",
  "A random test can neither hit interval ends nor see a small bias.",
  ["src/common/MatrixUtils.h", "src/search/RTDPCore.cc", "src/bounds/BoundPairCore.cc", "src/common/MDPSim.cc"],
  [("distribution sampling", "MatrixUtils.h chooseFromDistribution"), ("search sampling", "search getSimulatedOutcome")])

p("P16", "Both model parsers load the same model as the file says",
  "For any model file in the restricted syntax both the fast and the full parser accept, they produce identical discount, sizes, initial state, transition, observation and reward values, equal to the values written in the file.",
  ["inputs"], "all probability, reward, discount and start values in the stated layouts",
  "Tests parse a handful of files with fixed numbers and only look at solver output.",
  ["src/parsers/FastParser.cc", "src/parsers/CassandraParser.cc", "src/parsers/CassandraModel.cc"],
  [("fast parser", "FastParser.cc"), ("full parser", "CassandraParser.cc, pomdp_spec.y")])

p("P17", "Ill-formed models are rejected",
  "By both model parsers, a model whose transition or observation probabilities for some state/action, or whose starting belief, do not sum to one (beyond the parser's tolerance, 1e-5 for the full and 1e-10 for the fast one) or are outside [0,1], whose discount is outside [0,1], which lacks a required statement, is of the wrong type (MDP for POMDP), or whose entries are too few, too many or refer to undefined names or indexes out of range, is rejected with an error (non-zero exit) and never solved.",
  ["inputs"], "all probability values outside the tolerance, in the stated layouts",
  "Tests contain only valid models.",
  ["src/parsers/pomdp_spec.y", "src/parsers/FastParser.cc", "src/parsers/CassandraModel.cc"],
  [("probability check", "pomdp_spec.y checkProbs; FastParser.cc"), ("start belief check", "pomdp_spec.y endStartStates")])

p("P18", "Full model syntax: wildcards, matrices and later-overrides-earlier",
  "In the full model syntax every statement form (single entry, row, full matrix, wildcard, uniform, identity, reset, named states) sets exactly the entries it denotes, a later statement overrides an earlier one for the entries both set, and costs are loaded as negated rewards; the expected reward of a state-action pair is the probability-weighted average of its rewards.",
  ["inputs", "programs"], "all numeric values, all sequences of statements up to the stated length over the stated sizes",
  "Tests use a few statement forms and hardly any overriding.",
  ["src/parsers/pomdp_spec.y", "src/parsers/imm-reward.c", "src/parsers/decision-tree.c", "src/parsers/sparse-matrix.c", "src/parsers/mdp.c"],
  [("statement semantics", "pomdp_spec.y enterMatrix etc."), ("reward tree", "decision-tree.c dtAdd/dtGet; imm-reward.c"), ("expectation", "mdp.c computeRewards")])

p("P19", "Sparse linear algebra agrees with its dense definition",
  "Every vector and matrix operation the solver uses (dot products, products with a matrix or its transpose, sums, element-wise products, maxima, masked variants, format conversions, dominance tests) returns, for every input, what the mathematical definition on dense data gives, independent of the sparsity pattern.",
  ["inputs"], "all entry values in range and all sparsity patterns within the stated sizes",
  "The unit test for linear algebra is not part of the suite; fixed models exercise few patterns.",
  ["src/common/sla.h", "src/common/sla_mask.h", "src/common/MatrixUtils.h"],
  [("vector/matrix kernels", "sla.h"), ("masked kernels", "sla_mask.h")])

p("P20", "Racetrack dynamics follow the published rules",
  "For every track, position, velocity and acceleration: outcome probabilities are non-negative and sum to one, the normal and error moves have the configured probabilities, a straight move that first touches a finish cell finishes, one that first touches a wall resets to start, any other lands at position plus new velocity; each move costs one and the terminal state is free and absorbing.",
  ["inputs", "configurations"], "all tracks within the stated grid size, all positions/velocities in range, all error probabilities",
  "One small track is solved in one test.",
  ["src/mdps/RaceTrack.cc"],
  [("outcomes", "RaceTrack.cc getOutcomeProbVector/getNextState"), ("line tracing", "RaceTrack.cc lineType")])

p("P21", "MDP adapters present exactly the underlying model",
  "A generic MDP loaded from a file, the caching wrapper and custom MDPs present the same initial state, terminal states, rewards, outcome probabilities and successors as the model they are built from, and their initial bounds bracket the optimal value.",
  ["inputs", "histories"], "all rewards and probabilities in range, all query sequences up to the stated length",
  "One MDP file and one custom problem are run, checking only the root bounds.",
  ["src/mdps/GenericDiscreteMDP.cc", "src/mdps/CacheMDP.cc", "src/mdps/CustomMDP.cc"],
  [("generic MDP", "GenericDiscreteMDP.cc"), ("cached MDP", "CacheMDP.cc"), ("custom MDP", "CustomMDP.cc")])

p("P22", "Configuration values are layered, typed and written back faithfully",
  "A value set later (command line over file over defaults) is the one read back, abbreviations expand to their full option, unknown options, malformed numbers and values outside the documented choices are rejected, every documented choice is accepted, and a configuration written out and read again gives the same value for every option.",
  ["inputs", "configurations", "histories"], "all numeric values in range and all orders of the stated settings",
  "Tests use a few options with fixed values.",
  ["src/common/zmdpConfig.cc", "src/main/solverUtils.cc"],
  [("config store", "zmdpConfig.cc")])

p("P23", "Time arithmetic is exact and normalised",
  "Adding and subtracting times and converting to and from seconds is exact to the microsecond, and every result is normalised (microseconds in [0, 1e6)); elapsed-time comparisons therefore order events correctly.",
  ["inputs"], "all times in the stated range, bit-precise",
  "No test touches time arithmetic; carries happen at single microsecond values.",
  ["src/common/zmdpCommonTime.cc"],
  [("timeval operators", "zmdpCommonTime.cc")])

p("P24", "Summary statistics and confidence intervals are what they claim",
  "The reported mean, standard deviation and quantiles of a sample are those of the sample by definition, the bootstrap confidence interval stays within the sample's range with its lower end not above its upper end, and only samples of the given set are ever used.",
  ["inputs", "schedules"], "all sample values in range and all random draws within the stated sizes",
  "Tests never look at statistics except through one loose regression on the mean.",
  ["src/common/MatrixUtils.h", "src/exec/PolicyEvaluator.cc"],
  [("statistics", "MatrixUtils.h calc_*")])

p("P25", "A logged run replays to the same sequence of states",
  "States recorded in a run log are numbered once each in order of first appearance; writing the log and reading it back gives the same numbering and states, and a scripted replay updates exactly the logged states in the logged order.",
  ["inputs", "histories"], "all state values in range and all log sequences up to the stated length",
  "No test replays a log.",
  ["src/search/StateLog.cc", "src/search/ScriptedUpdater.cc"],
  [("log", "StateLog.cc"), ("replay", "ScriptedUpdater.cc")])

p("P26", "Terminal states are detected exactly",
  "A state of a POMDP or MDP model is treated as terminal exactly when every action leaves it in place with certainty and gives zero reward; a belief is terminal exactly when all its probability is on terminal states.",
  ["inputs"], "all rewards and transition probabilities in range on the stated models, all beliefs",
  "Only one test model has a terminal state.",
  ["src/parsers/CassandraModel.cc", "src/pomdpCore/Pomdp.cc", "src/mdps/GenericDiscreteMDP.cc"],
  [("terminal state detection", "CassandraModel.cc checkForTerminalStates"), ("terminal beliefs", "Pomdp.cc getIsTerminalState")])

p("P27", "Relaxation-based upper bound for MDPs is valid",
  "The heuristic upper bound obtained by best-outcome relaxation for MDPs is never below the optimal value at any reachable state, is never looser than the trivial upper bound it starts from, and computing it finishes, with and without discounting.",
  ["inputs"], "all error probabilities on all racetracks of the stated sizes",
  "Used on a single racetrack in the tests, where only the root result is compared.",
  ["src/bounds/RelaxUBInitializer.cc"],
  [("relaxation", "RelaxUBInitializer.cc")])

p("P28", "Names in model files map one-to-one to indexes",
  "Each state, action and observation name listed in a model gets its position in the list as its index, lookups of a listed name return that index whatever other names (of any kind) are listed, names not listed are reported as unknown, and duplicates are rejected.",
  ["inputs", "histories"], "all names of the stated lengths over the name alphabet, all insertion orders up to the stated count",
  "Tests use a few fixed names; hash collisions never occur there.",
  ["src/parsers/parse_hash.c"],
  [("name table", "parse_hash.c H_enter/H_lookup")])

p("P29", "Runs stop when, and only when, their limits say so, and report what happened",
  "zmdp solve and zmdp benchmark end after the first trial at which the wallclock limit is over, the backup limit is reached, the regret bound (or, in benchmark, a target for the lower or upper bound) is met or the search is finished, and not before; limits that are not positive mean none. The bounds, counts and evaluation lines they print or log are those of the run, evaluations take place at the stated times and after the last trial, the reason given for the end is a true one, no evaluation trial is longer than its step limit, a policy is written exactly when one was asked for and can be written, and initial bounds are valid with every admissible horizon hint.",
  ["inputs", "configurations", "schedules"], "all time limits, precisions, bound targets and evaluation times in range on a virtual clock, every search strategy, stated models",
  "Tests run each search once with one set of limits and look at the final bounds only.",
  ["src/main/zmdp.cc", "src/main/TestDriver.cc", "src/search/RTDPCore.cc", "src/exec/PolicyEvaluator.cc", "src/pomdpCore/Pomdp.cc"],
  [("solve loop", "zmdp.cc doSolve"), ("benchmark loop", "TestDriver.cc batchTestIncremental"), ("trial limits", "RTDPCore.cc planFixedTime"), ("evaluation limits", "PolicyEvaluator.cc getRewardSamples"), ("horizon hint", "Pomdp.cc, GenericDiscreteMDP.cc, BlindLBInitializer.cc, FastInfUBInitializer.cc")])

p("P35", "An interrupted run ends after its trial, with its policy and logs",
  "When zmdp solve receives an interrupt (SIGINT) at any moment of a run, no further trial begins: the trial under way is completed, the run ends as if a limit had been reached, the final bounds, counts and log entries are those of the trials made, the policy is written if one was asked for, and the reason printed is the interrupt unless another limit was reached at that trial. A second interrupt, or one after the last trial, changes nothing.",
  ["histories", "schedules", "configurations"], "any of the first 4 trials, before, at the end or twice, with any limits in range, every search strategy, stated models",
  "No test interrupts a run.",
  ["src/main/zmdp.cc", "src/search/RTDPCore.cc"],
  [("signal handler", "zmdp.cc sigIntHandler / doSolve")])

p("P36", "What zmdp benchmark logs about a run is so, and logging does not change it",
  "Every line of the storage log gives, for its evaluation, the numbers of planes, belief points and tabulated states the bounds hold, their entries and the sum of those; the bounds log's numbers of states touched and expanded are those of the search graph; the evaluation line's mean is the mean return of the policy that the bounds at that time define. Evaluations, policies, storage, backup and Q value logs leave the search as it would have been without them: the same bounds, backups, nodes and planes after every trial, for searches that draw no random numbers.",
  ["inputs", "histories", "configurations"], "all time limits and precisions in range on a virtual clock, one symbolic reward, every search strategy, stated models",
  "No test reads these logs or compares a run with and without them.",
  ["src/main/TestDriver.cc", "src/search/RTDPCore.cc", "src/bounds/MDPCache.cc", "src/bounds/PointLowerBound.cc", "src/bounds/PointUpperBound.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/exec/PolicyEvaluator.cc"],
  [("benchmark loop", "TestDriver.cc batchTestIncremental"), ("storage", "getStorage methods, MDPCache.cc getNodeCacheStorage"), ("bounds log", "RTDPCore.cc planFixedTime")])

p("P33", "zmdp evaluate runs the given policy in the given model and reports it",
  "zmdp evaluate loads the policy file (either format), lets it act by its own model (the planner model if one is given, else the simulator's) on the belief it tracks from the observations drawn, and simulates every action in the simulator model, whose beliefs, observations and rewards count. The reported mean is that of the trials' discounted returns, the interval is the 2.5% and 97.5% quantile of their resampled means, the score log lists the trials' returns (batch averages with the cache), and the trace log the first so many trials as asked for, step by step. A planner model with other numbers of actions or observations, an unknown policy type, a life survey policy without its map, and missing or unreadable files are refused with an error and no report.",
  ["inputs", "histories", "configurations"], "any random numbers for the stated number of steps, any value of one reward, stated models and policies",
  "One test evaluates one policy with one model and compares the mean loosely.",
  ["src/main/zmdp.cc", "src/exec/PolicyEvaluator.cc", "src/exec/BoundPairExec.cc", "src/common/MDPSim.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/common/MatrixUtils.h"],
  [("front end", "zmdp.cc doEvaluate"), ("trials", "PolicyEvaluator.cc"), ("executed policy", "BoundPairExec.cc")])
p("P34", "The LifeSurvey tools report what their inputs say",
  "dumpMap lists every cell of the map that is not an obstacle once, with its coordinates and region, and nothing else. genTargetLocations gives a cell a target exactly when its random number is below its region's prior (times one plus the region's noise, uniform within the noise factor), and its count, map and list of targets agree. calcLSTrialStats replays a trace of actions from the start cell: moves onto obstacles or off the map are illegal, cost 100 on top of the move and leave the position; moves cost 1, sampling moves 5, looks 5; entering a region earns 5 / 20 / 50 in increments for visited / target visited / target sampled; and it reports looks, actions, good and all samples, illegal actions and the sum of rewards discounted by 0.999 per action. All refuse missing or malformed files and wrong arguments with a nonzero exit code.",
  ["inputs", "histories"], "any priors and random numbers on the stated maps, every action sequence up to the stated length",
  "None of the tests touches these programs.",
  ["src/pomdpModels/lifeSurvey/dumpMap.cc", "src/pomdpModels/lifeSurvey/genTargetLocations.cc", "src/pomdpModels/lifeSurvey/calcLSTrialStats.cc", "src/pomdpModels/lifeSurvey/LSModelFile.cc", "src/pomdpModels/lifeSurvey/LifeSurvey.cc"],
  [("map dump", "dumpMap.cc main"), ("targets", "genTargetLocations.cc main"), ("statistics", "calcLSTrialStats.cc doit"), ("target lists", "LifeSurvey.cc readTargetList, getInTargetList")])
p("P31", "The LifeSurvey family follows its rules",
  "The LifeSurvey code reads a model file as its text says (hex map whose bottom row is unshifted and every other row shifted, regions, obstacles, exits, priors, costs, reading distributions), rejects files in error with a nonzero exit code, and a file written from it reads back the same. In every reachable state every action has the transition and observation probabilities and the reward of the rules: moving costs the base cost, a sampling move five times that, looking the lookahead cost; illegal moves and second looks cost 100 and change nothing; entering a region earns 5 / 20 / 50 for having visited it / visited life / sampled life, counting increments only; an exit ends the survey; life ahead is carried over where cells coincide and otherwise drawn from the region's prior or the list of known targets. The POMDP file gen_LifeSurvey writes, with numbers or full names, loads as exactly that model with only the terminal state terminal. Action, observation and state indexes and names are one-to-one. The path-and-react policy plans a legal path to an exit that maximises the expected number of regions with life seen, looks first in every cell, samples exactly when there is a positive reading in a region not sampled yet, and otherwise moves legally by its stated preferences.",
  ["inputs", "histories"], "all priors, costs and reading probabilities in range on the stated maps; all small map texts; all readings on the way",
  "None of the tests touches this code.",
  ["src/pomdpModels/lifeSurvey/LSModelFile.cc", "src/pomdpModels/lifeSurvey/LifeSurvey.cc", "src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc", "src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc"],
  [("map file", "LSModelFile.cc readFromFile, writeToFile"), ("rules", "LifeSurvey.cc getOutcomes, getObservations, getInitialStateDistribution"), ("written POMDP", "LifeSurvey.cc writeToFile"), ("policy", "LSPathAndReactExec.cc")])
p("P30", "The RockExplore model follows its rules",
  "For every grid, rock placement, start, prior and reward table: each action in each state has the result of the rules (moving inside the grid costs the move cost; leaving to the east ends with the exit reward; other moves off the map and sampling an empty cell cost the illegal cost and change nothing; sampling a rock pays the good or bad reward and leaves the rock bad; checking a rock costs the check cost, changes nothing and reads the rock right with certainty on its cell and with 0.95 elsewhere; the terminal state stays, without reward). The states are exactly the terminal state (number 0) and those that can be reached, each with one number and name. The initial belief, the predicted observations and expected reward and the updated belief are those of Bayes' rule, and the per-rock probabilities and the belief built from them are inverse to each other. Outcomes are sampled with their probabilities, never an impossible one, for every random number. The written POMDP file loads back as the same model.",
  ["inputs", "histories"], "all beliefs, priors, rewards and random numbers on the stated grids",
  "None of the tests touches this code.",
  ["src/pomdpModels/RockExplore/RockExplore.cc", "src/pomdpModels/RockExplore/REBasicPomdp.cc"],
  [("rules", "RockExplore.cc getActionResult, getObsProb"), ("beliefs", "REBasicPomdp.cc getBeliefResult, getUpdatedBelief; RockExplore.cc getBelief, getRockProbs"), ("sampling", "REBasicPomdp.cc chooseStochasticOutcome"), ("written POMDP", "REBasicPomdp.cc writeCassandraModel")])
p("P32", "RockExplore's policies and simulator do what they say",
  "State and belief values, Q values and value-iteration sweeps of RockExplore are those of the Bellman equation, value iteration stops only when the values change by less than the given residual. The QMDP policy takes an action with the largest Q value of the belief, voting one with the most probability of states that prefer it, the most-likely-state policy the best action of a most likely state, the dual-mode policy the action with the least expected entropy while the normalised entropy of the belief exceeds 0.1 and the QMDP action otherwise, and the stored policy the best one-step lookahead on its planes; the policies keep the Bayes belief over any actions and observations. A simulated run moves, observes and updates the belief by the model, adds up discounted rewards, ends in the terminal state, and in evaluations after at most 100 steps; the evaluation reports mean and 95% confidence interval of 100 runs; reports and the policy table name each result with its policy, state and action.",
  ["inputs", "histories"], "all values, beliefs, rewards and random numbers within the stated bounds",
  "None of the tests touches this code.",
  ["src/pomdpModels/RockExplore/RockExplorePolicy.cc", "src/pomdpModels/RockExplore/zmdpRockExplore.cc"],
  [("values and policies", "RockExplorePolicy.cc"), ("simulator, evaluation, reports", "zmdpRockExplore.cc RockExploreSim, evaluatePolicy, doDisplayMDPPolicy")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
