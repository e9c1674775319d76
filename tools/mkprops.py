#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,otext,why,files,mech,state,obs,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=[f.strip() for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x.strip(),meaning="",where="") for x in state.split(",")],observe_at=[x.strip() for x in obs.split(";")],hook_needed=None)))

S="src/"
p("P01","The reported lower and upper bounds always contain the optimal value",
  "At every moment of a run, for every state or belief the planner has visited (the initial one included), the lower bound is at most, and the upper bound at least, the optimal expected discounted reward from there. This holds for the initial bounds and after every update, for every search strategy, every value representation and every option combination, and for both MDPs and POMDPs. States in which nothing can ever be earned again have optimal value zero.",
  ["inputs","programs","configurations"],"every finite model, every search strategy, every combination of bound representations and options, every point of the run",
  "The suite compares final numbers of a few example models within a tolerance; an unsound bound at an intermediate step, in a rarely used representation, or on a model with an unusual structure is never looked at.",
  [S+"bounds",S+"pomdpBounds",S+"search"],
  [("blind-policy initial lower bound","src/pomdpBounds/BlindLBInitializer.cc"),("fast informed / fully observable initial upper bound","src/pomdpBounds/FastInfUBInitializer.cc, FullObsUBInitializer.cc, src/bounds/RelaxUBInitializer.cc"),("bound updates","src/bounds/BoundPair.cc, src/pomdpBounds/MaxPlanesLowerBound.cc, SawtoothUpperBound.cc, src/bounds/Point*Bound.cc")],
  "per-node lower/upper bound, set of lower-bound planes, upper-bound points","BoundPair::getNode/update return; bounds printed by 'zmdp solve'")
p("P02","Bounds only tighten as planning proceeds",
  "During a run the lower bound of any visited state or belief never decreases and its upper bound never increases (beyond rounding), so the interval that is reported for the initial state only narrows. Backing up one state never loosens the bound of another.",
  ["histories","inputs","configurations"],"every sequence of backups any strategy performs, on every model",
  "Tests look at the last bounds only; a temporary loosening (after pruning, replacing a plane, or revisiting a state) is invisible in the final value.",
  [S+"bounds",S+"pomdpBounds",S+"search/LRTDP.cc"],
  [("dominated-plane test before replacing the plane of a node","MaxPlanesLowerBound::setPlaneForNode"),("pruning forwards users of the victim to its dominator","deleteAndForward"),("lookups with the new point's support","SawtoothUpperBound::addPoint")],
  "per-node bounds across the run","BoundPair::update return; bounds log")
p("P03","Every backup is the exact one-step lookahead over the true successors",
  "When the planner backs up a state or belief, its new bounds are the best over all actions of the immediate reward plus the discounted, probability-weighted bounds of exactly those successors the model gives that action (every possible outcome, none invented, each with its true probability), combined with the previous bound. A new lower-bound plane is the action's reward plus the discounted projection of the best known plane for each outcome, and the upper bound's greedy action is one that attains the maximum. Each distinct state or belief is represented exactly once, and the counts of states touched, states expanded and backups made are those of what happened.",
  ["histories","inputs","configurations"],"every backup of every run: all models, strategies, representations and options",
  "A wrong successor probability, a dropped outcome or a stale cached value only shifts a bound slightly on the sampled models and remains within the tests' tolerance.",
  [S+"bounds/BoundPair.cc",S+"pomdpBounds",S+"mdps/GenericDiscreteMDP.cc",S+"pomdpCore/Pomdp.cc"],
  [("expansion of a node","BoundPair::expand"),("plane backup","MaxPlanesLowerBound::getNewLBPlaneQ"),("cached upper-bound update","SawtoothUpperBound::getNewUBValueUseCache"),("dual point update","BoundPair::updateDualPointBounds")],
  "node graph, Q values, planes, points, counters","BoundPair::expand/update return")
p("P04","Convergence is claimed only when reached, and is eventually reached",
  "A run reports that it reached its target only if, at that moment, the initial state's upper and lower bound really are within the requested precision (for strategies keeping only an upper bound: only if that bound has converged to the requested residual on every state the greedy policy can reach). On a finite model whose reachable beliefs are finitely many, the two interval-based strategies do reach any positive target after finitely many trials, and never stop making progress before that.",
  ["histories","inputs","configurations"],"every model, every target precision, every strategy",
  "Tests stop at fixed precisions on known models and only compare the final number; a premature or never-issued convergence claim on other models is not seen, and termination is a liveness fact.",
  [S+"search"],[("root gap test at the end of a trial","FRTDP::doTrial, HSVI::doTrial"),("labelling","LRTDP::checkSolved, HDP::trialRecurse"),("trial loop","RTDPCore::planFixedTime")],
  "root bounds, solved labels, done flag","Solver::planFixedTime return; final lines of 'zmdp solve'")
p("P05","Search trials follow the rules of the selected strategy",
  "Each trial starts at the initial state and walks along actions that are greedy for the upper bound, backing up every state on the way down and again in reverse order on the way up where the strategy says so. The strategy selected decides where a trial goes next and when it ends: the outcome with the largest probability-weighted excess uncertainty until the depth-scaled uncertainty is within target (HSVI), the outcome of highest priority until the excess is gone or the adaptive depth limit is passed (FRTDP), a random possible outcome until a terminal state (RTDP) or a solved state (LRTDP), depth-first over all possible outcomes of greedy actions (HDP).",
  ["histories","schedules","inputs"],"every trial of every run, for each strategy, on all models and random seeds",
  "A strategy that wanders off its rule usually still converges to the same number, only slower, so comparing final values cannot notice.",
  [S+"search"],[("priority propagation","FRTDP::update/getMaxPrioOutcome"),("weighted excess uncertainty","HSVI::trialRecurse"),("sampling","BoundPairCore::getSimulatedOutcome"),("greedy action","BoundPairCore::getMaxUBAction")],
  "visit sequence, depth limit, priorities","order of BoundPair::update calls")
p("P06","LRTDP marks a state solved only when its greedy closure has converged",
  "When labelled search marks states as solved, every state reachable from them by greedy actions through unsolved states has a Bellman residual no larger than the target precision and is marked with them; if any such residual is larger nothing is marked. Once marked, a state stays solved, terminal states count as solved from the start, and the run claims completion exactly when the initial state is solved.",
  ["histories","inputs"],"every labelling step of every run on every model, including cyclic ones",
  "Premature labelling ends the run earlier with nearly the same value on easy models; only checking the closure at each labelling step reveals it.",
  [S+"search/LRTDP.cc"],[("depth-first residual check and labelling","LRTDP::checkSolved"),("residual","LRTDP::cacheQ/residual")],
  "solved flag per state, residuals, greedy actions","return of LRTDP trial; LRTDP::getIsSolved")
p("P07","HDP labels exactly the converged strongly connected components",
  "The depth-first strategy marks the states of a strongly connected component of the greedy graph solved only when none of the states reachable from it through greedy actions has a residual above the target precision; a component containing or reaching such a state stays unmarked. The run claims completion only when the initial state is already solved.",
  ["histories","inputs"],"every trial on every model, in particular greedy graphs with nested and cross-linked cycles",
  "Index bookkeeping errors only matter on particular cycle shapes that the handful of example models do not contain.",
  [S+"search/HDP.cc"],[("Tarjan-style index/low-link recursion","HDP::trialRecurse")],
  "solved flag, discovery index, low link, stack","return of an HDP trial; HDP::getIsSolved")
p("P08","A written policy is complete and achieves the lower bound reported for it",
  "The policy file written when planning ends defines a value at the initial belief that equals the reported lower bound, names a valid action everywhere, and following it (each step taking the action with the best lower-bound lookahead, or the action attached to the best plane) earns in expectation at least that value. Every plane in the file is a guaranteed lower bound on what can be earned, restricted to the beliefs it is declared for, and every belief that execution can meet has at least one applicable plane.",
  ["inputs","histories","configurations"],"every model, every stopping moment, every representation and pruning option",
  "Tests evaluate by sampling with wide confidence intervals on a couple of models; they cannot see a single overestimating or missing plane.",
  [S+"bounds/BoundPair.cc",S+"pomdpBounds/MaxPlanesLowerBound.cc",S+"exec/BoundPairExec.cc",S+"main/zmdp.cc"],
  [("policy output with optional pruning","BoundPair::writePolicy, MaxPlanesLowerBound::writeToFile"),("execution","BoundPairExec::chooseAction")],
  "planes: alpha entries, action, mask","out.policy; executed action sequence")
p("P09","Policies survive a write and read back unchanged, in every supported format",
  "Reading back a policy file written by the planner yields the same set of planes: the same actions, the same values up to the printed precision, and the same domain of applicability, so that it gives the same value and the same choices at every belief. A policy in the plain alpha-vector format is read as exactly the vectors the file contains, each with its action, whatever the file's trailing white space.",
  ["inputs","histories"],"every set of planes the planner can produce and every well-formed alpha file",
  "One example file is read in the tests, and only the sampled reward is compared.",
  [S+"pomdpBounds/MaxPlanesLowerBound.cc",S+"exec/BoundPairExec.cc"],
  [("native format writer/reader","writeToFile/readFromFile"),("alpha-vector reader","readFromCassandraAlphaFile")],
  "planes","planes after reading; simulated choices of 'zmdp evaluate'")
p("P10","Pruning, masking, caching and support indexing never change an answer",
  "Removing dominated planes or points never lowers the best lower bound nor raises the best upper bound at any visited belief below or above what was already established for it. The indexed and cached lookups return the same value as a full scan over the planes or points that the selected options make eligible for the belief, whichever combination of the optimisation options is switched on.",
  ["histories","configurations","inputs"],"every history of additions and prunings, every combination of the optimisation options",
  "Pruning starts only after many planes, and tests use one default combination; a wrongly pruned plane is usually compensated later.",
  [S+"pomdpBounds/MaxPlanesLowerBound.cc",S+"pomdpBounds/SawtoothUpperBound.cc"],
  [("pruning","prunePlanes, SawtoothUpperBound::prune"),("support lists","supportList"),("cache of best plane per node","getBestLBPlaneWithCache")],
  "planes, points, per-node cached plane","getValueAt after every update")
p("P11","A model file means what its format says, whichever parser reads it",
  "The transition, observation and reward tables, the discount, the initial distribution and the sizes the planner works with are exactly those the model file describes: wildcards apply to every element, rows and matrices fill in order, names and numbers are interchangeable, the last statement about an entry wins, uniform, identity and start in its various forms are expanded, and rewards are averaged over outcomes. The fast parser and the full parser agree on every file both accept.",
  ["inputs","programs"],"every well-formed model file in either syntax",
  "The suite parses a few files; the grammar's combinations of wildcards, overrides and short forms are unbounded.",
  [S+"parsers",S+"pomdpCore/Pomdp.cc",S+"mdps/GenericDiscreteMDP.cc"],
  [("statement processing","pomdp_spec.y, mdp.c, imm-reward.c, decision-tree.c"),("conversion","CassandraParser.cc"),("fast parser","FastParser.cc")],
  "T, O, R tables, discount, start distribution","CassandraModel members after parsing; bounds and simulated outcomes")
p("P12","Malformed models, policies and options are refused, not silently accepted",
  "A model whose probabilities do not sum to one, that misses a mandatory declaration, uses an unknown or out-of-range name, or is syntactically broken is rejected with a message and a failing exit status, without planning on it. The same goes for unknown options or values, missing files, and policies that do not fit the model; a well-formed input is never rejected.",
  ["inputs"],"every malformed or well-formed file and command line",
  "Each way of being malformed is its own case; tests contain almost none.",
  [S+"parsers",S+"main/zmdp.cc",S+"main/solverUtils.cc",S+"exec/BoundPairExec.cc"],
  [("probability check","checkProbs, FastParser row sums"),("option check","zmdpConfig::noNewFieldsAllowed, enum lookups")],
  "exit status, messages, output files","process exit of the command-line program")
p("P13","Belief tracking and outcome probabilities follow Bayes' rule",
  "For every belief, action and observation, the probability the planner assigns to the observation is the one the model implies, these probabilities sum to one, and the belief that follows is the normalised Bayesian posterior with zero entries exactly where the posterior is zero. The expected reward of an action is the belief-weighted reward, and a belief or state is terminal exactly when all its probability lies on states that absorb with zero reward.",
  ["inputs","histories"],"every model, belief, action and observation, along arbitrarily long action-observation histories",
  "Only a few trajectories on example models are exercised, and averaged outcomes hide a biased posterior.",
  [S+"pomdpCore/Pomdp.cc",S+"parsers/CassandraModel.cc",S+"common/sla.h"],
  [("belief update","Pomdp::getNextBelief, getObsProbVector"),("terminal states","CassandraModel::checkForTerminalStates, Pomdp::getIsTerminalState")],
  "belief vector","MDP interface; beliefs in simulation logs")
p("P14","Evaluation simulates the model faithfully and reports exactly what it earned",
  "Evaluating a policy runs exactly the requested number of trials, each from the initial belief. Every step executes the action that one-step lookahead on the policy's planes chooses at the belief the planner's model gives for the history so far, and draws an outcome that is possible in the simulated model, with the model's probability; a trial ends exactly when a terminal state or the step limit is reached. A trial's score is the discounted sum of the expected rewards along it, batch values are the means of their trials (with the evaluation cache, branches all of whose outcomes were drawn in the batch count with the model's probabilities instead of the drawn frequencies), the reported mean is the mean of the batch values and the limits are its 95% bootstrap confidence limits. The simulation log shows the requested number of trials as they happened, and models of different shape for planner and simulator are refused.",
  ["histories","schedules","configurations"],"every policy, model, step limit, number of trials and random seed, with and without caching",
  "Sampling noise hides bookkeeping errors: the suite accepts a broad band around one average.",
  [S+"exec/PolicyEvaluator.cc",S+"common/MDPSim.cc",S+"exec/BoundPairExec.cc"],
  [("simulation loop","PolicyEvaluator, MDPSim::performAction"),("statistics","calc_avg, calc_bootstrap_mean_quantile")],
  "simulated state, observation, reward sum, trial count","simulation trace log, scores log, reported mean and quantiles")
p("P15","Options resolve by precedence: command line over file over defaults",
  "The value in force for each option is the one from the command line if given there, else from the configuration file if given there, else the built-in default; the last occurrence on the command line wins, and aliases, built in or defined in the configuration file, mean exactly the words they stand for, also when defined by other aliases. A generated default configuration file, read back unmodified, changes nothing.",
  ["configurations","inputs"],"every assignment of options to the three sources and every order of arguments",
  "The number of combinations of sources is exponential; tests use a handful of flags.",
  [S+"main/zmdp.cc",S+"common/zmdpConfig.cc",S+"main/zmdp.config"],
  [("overriding","ZMDPConfig::readFromString/readFromFile/setString"),("argument loop","zmdp.cc main")],
  "the effective option map","debug print of the configuration; behaviour of the run")
p("P16","A solve run always ends in order with a valid result and the true reason",
  "Whatever ends a run (target reached, time limit, backup limit, or an interrupt at any moment of planning), the program finishes the current trial, reports bounds that are the final ones, names the reason that really applied, writes the complete policy and logs, and exits successfully. No backup is made after the run was told to stop beyond finishing the trial in progress, and a limit that was not hit never ends the run.",
  ["fault_sequences","schedules","configurations"],"every moment at which an interrupt or limit can take effect, on every model and strategy",
  "Tests never interrupt a run, and limits are used at one setting only.",
  [S+"main/zmdp.cc",S+"search/RTDPCore.cc"],
  [("solve loop and signal handler","doSolve, sigIntHandler"),("backup limit","RTDPCore::planFixedTime")],
  "run phase, interrupt flag, backup count, output files","stdout, out.policy, exit status")
p("P17","Backup logs describe the run and replaying them reproduces its bounds",
  "With backup logging on, a run leaves a state index that names each state or belief it backed up exactly once, in the order of first backup (with Q values requested, every visited one), a backup log that lists every backup of the run once and in order, and the bounds (and Q values, if requested) the planner holds for each indexed state at the end. The scripted strategy run on these files backs up the same states in the same order and then stops; with the same bound representations it arrives at the same bounds (at least as tight ones for LRTDP and HDP, whose residual checks do not keep the upper bounds they compute). An edited index or log is replayed as written if it is well formed, and refused otherwise.",
  ["histories","inputs"],"every run of every strategy on every model",
  "The log is a by-product no test reads.",
  [S+"search/StateLog.cc",S+"search/ScriptedUpdater.cc",S+"search/RTDPCore.cc"],
  [("state index and logging","StateIndex, RTDPCore::trackBackup/maybeLogBackups"),("replay","ScriptedUpdater::doTrial")],
  "state index, backup sequence, end bounds","log files of a run; bounds of the replay")
p("P18","The race-track model implements the race-track rules",
  "From every car state and acceleration command, the possible next states and their probabilities, the costs, and termination are those of the race-track rules. With probability 1-e the command applies; otherwise the acceleration is zero (slip) or, where errors are wind, the command plus one of the eight other unit gusts, each equally likely. The car then moves in a straight line from cell centre to cell centre; the first finish or wall cell whose inside the line crosses (outside the map counts as wall) decides: finish ends the race, a wall sends the car back to the initial state, from which every start cell is equally likely with zero speed. Every move costs 1, except the finished state and, undiscounted, the initial one. Each car state is one state of the model, however it is reached, and every reachable cell is on the track.",
  ["inputs","histories"],"every track map, every reachable state and every command",
  "Tests run one bundled track and compare one optimal value.",
  [S+"mdps/RaceTrack.cc",S+"mdps/CacheMDP.cc"],
  [("outcome computation","RaceTrack::getOutcomeProbVector / getNextState"),("line walk","TrackMap::lineType"),("state table","CacheMDP::getNodeX, hashable")],
  "position, velocity, finished/crashed","MDP interface on explored states")
p("P19","Benchmark progress logs are faithful and a crash never loses the last policy",
  "The progress files of a benchmark run contain, in time order, bounds and counters that equal the planner's at that moment: elapsed time and counts never decrease, lower bounds never fall, upper bounds never rise, the lower one never exceeds the upper one, and every evaluation line summarises its own trials. While a new policy file is being written, an intact earlier version remains available under its backup name, so a crash at any point leaves at least one complete policy.",
  ["crash_points","histories","configurations"],"every benchmark run and every point at which it can be killed",
  "Tests read no progress files and never kill a run.",
  [S+"main/TestDriver.cc",S+"search/RTDPCore.cc"],
  [("epoch loop","TestDriver::batchTestIncremental"),("policy backup","mv/rm of the .bak file"),("bounds log line","RTDPCore / TestDriver")],
  "log lines, policy file and its backup","files written by 'zmdp benchmark'")
p("P20","The action chosen at any belief is greedy for the bound in use",
  "Asked for an action at any state or belief, visited before or not, the planner returns one whose one-step lookahead under the current lower bound (or upper bound, when configured so) is best, and asking changes neither the bounds nor the visited set. The value interval reported for a state or an action at any belief is the one these bounds and the model define.",
  ["inputs","histories","configurations"],"every belief, every moment of the run, all representations and options",
  "Tests never query the planner off the beliefs it visited.",
  [S+"bounds/BoundPair.cc",S+"search/RTDPCore.cc",S+"exec/BoundPairExec.cc"],
  [("lookahead","BoundPair::chooseAction/getQValue/getValueAt")],
  "bounds, node table","chooseAction/getValueAt/getQValue return values")
p("P21","The life-survey generator writes the model its survey map depicts",
  "The POMDP generated from a life-survey map is the survey the map depicts, from the start on: hexes adjacent in the picture are the ones a move reaches, moves into obstacles, sharp turns and a second look in one hex are penalized and change nothing, each move costs its price and earns the difference to the best level reached in the region of the hex entered, life ahead is drawn from the region's prior (or is where the target list says), what was seen ahead stays true after a move, looking ahead gives each neighbour's reading independently with the stated frequencies, and the run ends at the eastern end of a row. The numeric and the verbose file are the same model; the map dump and the target tool show the same map; a map that is not well-formed is refused with a message and a failing exit status.",
  ["inputs"],"every survey map, target list, reachable state and action",
  "No test runs the generator; example maps all have an odd number of rows and well-formed preambles, and a generated file has thousands of lines nobody reads.",
  [S+"pomdpModels/lifeSurvey"],
  [("map file reading and hex geometry","LSModelFile::readFromFile, LSGrid"),("outcomes, rewards and observations","LSModel::getOutcomes / getObservations"),("state table and output","LSStateTable, LSModel::writeToFile")],
  "robot position, direction, look used, life ahead, region levels","files written by gen_LifeSurvey and dumpMap, output of genTargetLocations")
p("P22","The path-and-react policy follows a best path and samples the life it has read",
  "For a life survey, the path-and-react policy plans a path of legal moves from the start to the eastern edge with the largest expected number of regions in which life is met among the hexes directly ahead of the path, and reports that number; when no path exists it plans none. It then looks exactly once in every hex, takes a sample exactly when it moves on a hex that was read with the highest confidence and whose region is not yet sampled to the highest level where such a hex lies ahead, otherwise moves legally towards the hex nearest the planned path (preferring north-east, then south-east, then east), believes life only where read and keeps its beliefs about regions as the survey's rules say, until the run ends or its steps are used up; it gives up only where no legal move is left. The blind policy always takes the same move.",
  ["inputs"],"every survey map and sequence of observations",
  "No test runs the policy; its plan is the result of a pruned search whose answer on the one example map nobody can check by hand.",
  [S+"pomdpModels/lifeSurvey",S+"main"],
  [("path search and pruning","LSPathAndReactExec::getBestExtension, dominates, getValueIsDominated"),("reaction","LSPathAndReactExec::chooseAction, advanceToNextState, getDistanceToNearestPathCell")],
  "planned path, believed survey state","output of zmdp evaluate --policyType lspath|lsblind and its simulation log")
p("P23","Sparse vectors, matrices and masks mean what they stand for",
  "Every operation of the vector and matrix library (building from entries in any order and with repetitions, copying between dense and sparse, columns, products of matrices of any shape with vectors, element-wise products and maxima, sums, differences, scaling, norms, inner products, dominance, masks, reading and writing) gives the result the same operation has on ordinary vectors and matrices, whatever pattern of zeros is stored; sparse results keep their entries in order, in range and once each, copies and products store no zeros, and no operation touches memory that is not its own.",
  ["inputs","history"],"every sequence of well-typed operations on vectors and matrices of any sizes and sparsity",
  "Every belief and value of the planner goes through this code; the two programs that exercise it print results for a person to look at and are not among the tests.",
  [S+"common"],
  [("merging of sparse vectors","sla::add, subtract, emult, inner_prod, dominates"),("products","sla::mult"),("formats","kmatrix::canonicalize, cmatrix::canonicalize, copy"),("masks","sla_mask.h")],
  "registers holding vectors and matrices","values and stored places of each result")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
