------------------------------- MODULE Config --------------------------------
(* How zmdp's settings come about: defaults embedded in the program, then a    *)
(* configuration file, then the command line with its aliases; then what is    *)
(* inferred from them and which combinations are refused. A state machine that *)
(* consumes the program's arguments and the file line by line.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Dashes(w) == IF Len(w) >= 2 /\ SubSeq(w, 1, 2) = "--" THEN 2 ELSE IF Len(w) >= 1 /\ Ch(w, 1) = "-" THEN 1 ELSE 0
After(w, n) == SubSeq(w, n + 1, Len(w))
EndsWith(w, x) == Len(w) >= Len(x) /\ SubSeq(w, Len(w) - Len(x) + 1, Len(w)) = x
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in Digit
Unsigned(s) == IF Len(s) >= 1 /\ Ch(s, 1) \in {"-", "+"} THEN After(s, 1) ELSE s
IsInt(s) == LET u == Unsigned(s) IN Len(u) > 0 /\ AllDigits(u)
IsMantissa(s) == LET d == {i \in 1..Len(s) : Ch(s, i) = "."} IN
                 /\ Cardinality(d) <= 1 /\ \E i \in 1..Len(s) : Ch(s, i) \in Digit
                 /\ \A i \in (1..Len(s)) \ d : Ch(s, i) \in Digit
IsNum(s) == LET u == Unsigned(s)
                e == {i \in 1..Len(u) : Ch(u, i) \in {"e", "E"}}
            IN IF e = {} THEN IsMantissa(u)
               ELSE Cardinality(e) = 1 /\ LET k == CHOOSE i \in e : TRUE IN IsMantissa(SubSeq(u, 1, k - 1)) /\ IsInt(After(u, k))
\* a number below or equal to zero; only asked of numbers
NonZero(s) == LET u == Unsigned(s) IN \E i \in 1..Len(u) : Ch(u, i) \in Digit \ {"0"} /\ \A j \in 1..i : Ch(u, j) \notin {"e", "E"}
Positive(s) == NonZero(s) /\ Ch(s, 1) # "-"

-----------------------------------------------------------------------------
(* the documented defaults                                                     *)
DefaultCfg ==
  [command |-> "none", simulatorModel |-> "none", searchStrategy |-> "frtdp", modelType |-> "-",
   lowerBoundRepresentation |-> "-", upperBoundRepresentation |-> "-", maintainLowerBound |-> "-", maintainUpperBound |-> "1",
   policyOutputFile |-> "-", useFastModelParser |-> "0", terminateRegretBound |-> "1e-3", terminateLowerBoundValue |-> "-999",
   terminateUpperBoundValue |-> "-999", terminateWallclockSeconds |-> "-1", terminateNumBackups |-> "-1", debugLevel |-> "0",
   maxHorizon |-> "-1", useWeakUpperBoundHeuristic |-> "0", runTimeActionSelection |-> "-", evaluationTrialsPerEpoch |-> "1000",
   evaluationMaxStepsPerTrial |-> "251", evaluationFirstEpochWallclockSeconds |-> "1.0", evaluationEpochsPerMagnitude |-> "10",
   useEvaluationCache |-> "1", evaluationOutputFile |-> "inc.plot", boundsOutputFile |-> "bounds.plot",
   simulationTraceOutputFile |-> "sim.plot", simulationTracesToLogPerEpoch |-> "1", scoresOutputFile |-> "scores.plot",
   useTimeWithoutHeuristic |-> "1", useMaxPlanesMasking |-> "1", useMaxPlanesSupportList |-> "1", useMaxPlanesCache |-> "1",
   useMaxPlanesExtraPruning |-> "1", useSawtoothSupportList |-> "1", useLogBackups |-> "0", stateIndexOutputFile |-> "stateIndex.log",
   backupsOutputFile |-> "backups.log", backupScriptInputDir |-> "none", boundValuesOutputFile |-> "boundValues.log",
   qValuesOutputFile |-> "none", customMDPNumStates |-> "5", storageOutputFile |-> "none", policyInputFile |-> "out.policy",
   policyType |-> "maxPlanes", plannerModel |-> "-", customModel |-> "none"]
DefaultAliases ==
  ("eval" :> <<"evaluate">>) @@ ("bench" :> <<"benchmark">>) @@ ("-d" :> <<"--debugLevel", "1">>) @@ ("-f" :> <<"--useFastModelParser", "1">>) @@
  ("-i" :> <<"--evaluationTrialsPerEpoch">>) @@ ("-l" :> <<"--lowerBoundRepresentation">>) @@ ("-o" :> <<"--policyOutputFile">>) @@
  ("-p" :> <<"--terminateRegretBound">>) @@ ("-s" :> <<"--searchStrategy">>) @@ ("-t" :> <<"--terminateWallclockSeconds">>) @@
  ("-u" :> <<"--upperBoundRepresentation">>)

-----------------------------------------------------------------------------
(* the machine. ph: "args" -> ["file" ->] "expand" -> "opts" -> "command" ->   *)
(* "infer" -> "ok" | "refused" | "help" | "version" | "generate"               *)
Start0 == [ph |-> "args", pc |-> 1, cfg |-> DefaultCfg, al |-> DefaultAliases, conf |-> "", words |-> <<>>,
           pass |-> 0, past |-> FALSE, rest |-> <<>>, out |-> "", eff |-> <<>>]
Final(st) == st.ph \in {"ok", "refused", "help", "version", "generate"}
Refuse(st) == [st EXCEPT !.ph = "refused"]
Set(st, f, v) == IF f \in DOMAIN st.cfg THEN [st EXCEPT !.cfg[f] = v] ELSE Refuse(st)

\* argument elements, each a sequence of words (an element may contain blanks)
ArgStep(st, args) ==
  IF st.pc > Len(args) THEN [st EXCEPT !.ph = IF st.conf = "" THEN "expand" ELSE "file", !.pc = 1]
  ELSE LET a == args[st.pc]
           w == IF Len(a) = 1 THEN a[1] ELSE ""
           more == st.pc < Len(args)
       IN CASE w \in {"-h", "--help"} -> [st EXCEPT !.ph = "help"]
            [] w = "--version" -> [st EXCEPT !.ph = "version"]
            [] w \in {"-c", "--config"} -> IF more THEN [st EXCEPT !.conf = args[st.pc + 1][1], !.pc = @ + 2] ELSE Refuse(st)
            [] w = "--genConfig" -> IF more THEN [st EXCEPT !.ph = "generate", !.out = args[st.pc + 1][1]] ELSE Refuse(st)
            [] OTHER -> [st EXCEPT !.words = @ \o a, !.pc = @ + 1]

\* configuration file: a sequence of lines, each a sequence of words
FileStep(st, files) ==
  IF st.conf \notin DOMAIN files THEN Refuse(st)
  ELSE LET L == files[st.conf] IN
       IF st.pc > Len(L) THEN [st EXCEPT !.ph = "expand", !.pc = 1]
       ELSE LET x == L[st.pc]
                s2 == [st EXCEPT !.pc = @ + 1]
            IN IF x = <<>> THEN s2
               ELSE IF Ch(x[1], 1) = "#" THEN s2
               ELSE IF x[1] = "alias" THEN IF Len(x) < 3 THEN Refuse(st)
                                           ELSE [s2 EXCEPT !.al = (x[2] :> SubSeq(x, 3, Len(x))) @@ @]
               ELSE IF Len(x) < 2 THEN Refuse(st) ELSE Set(s2, x[1], x[2])

RECURSIVE Expand1(_, _)
Expand1(ws, al) == IF ws = <<>> THEN <<>> ELSE (IF ws[1] \in DOMAIN al THEN al[ws[1]] ELSE <<ws[1]>>) \o Expand1(Tail(ws), al)
\* aliases may be defined by other aliases
\* (pc counts the rounds); one that leads back to itself has no meaning
ExpandStep(st) == IF \A i \in DOMAIN st.words : st.words[i] \notin DOMAIN st.al THEN [st EXCEPT !.ph = "opts", !.pc = 1]
                  ELSE IF st.pc > Cardinality(DOMAIN st.al) THEN Refuse(st)
                  ELSE [st EXCEPT !.words = Expand1(@, st.al), !.pc = @ + 1]
OptStep(st) ==
  IF st.pc > Len(st.words) THEN [st EXCEPT !.ph = "command"]
  ELSE LET w == st.words[st.pc] IN
       IF st.past \/ Dashes(w) < 2 THEN [st EXCEPT !.rest = Append(@, w), !.pc = @ + 1]
       ELSE IF w = "--" THEN [st EXCEPT !.past = TRUE, !.pc = @ + 1]
       ELSE IF st.pc = Len(st.words) THEN Refuse(st)
       ELSE Set([st EXCEPT !.pc = @ + 2], After(w, 2), st.words[st.pc + 1])
CommandStep(st) ==
  IF Len(st.rest) > 2 THEN Refuse(st)
  ELSE LET c1 == IF Len(st.rest) >= 1 THEN [st.cfg EXCEPT !.command = st.rest[1]] ELSE st.cfg
           c2 == IF Len(st.rest) >= 2 THEN [c1 EXCEPT !.simulatorModel = st.rest[2]] ELSE c1
       IN IF c2.command \notin {"solve", "benchmark", "evaluate"} \/ c2.simulatorModel = "none" THEN Refuse(st)
          ELSE [st EXCEPT !.ph = "infer",
                  !.cfg = IF c2.policyOutputFile # "-" THEN c2
                          ELSE [c2 EXCEPT !.policyOutputFile = IF c2.command = "solve" THEN "out.policy" ELSE "none"]]

-----------------------------------------------------------------------------
(* what the settings mean                                                      *)
Ints == {"debugLevel", "maxHorizon", "evaluationTrialsPerEpoch", "evaluationMaxStepsPerTrial"}
Bools == {"maintainUpperBound", "useFastModelParser", "useWeakUpperBoundHeuristic"}
Nums == {"terminateRegretBound", "terminateWallclockSeconds", "evaluationFirstEpochWallclockSeconds", "evaluationEpochsPerMagnitude"}
LateInts == {"terminateNumBackups", "simulationTracesToLogPerEpoch", "customMDPNumStates", "useTimeWithoutHeuristic", "useLogBackups",
             "useEvaluationCache", "useMaxPlanesMasking", "useMaxPlanesSupportList", "useMaxPlanesCache", "useMaxPlanesExtraPruning", "useSawtoothSupportList"}
LateNums == {"terminateLowerBoundValue", "terminateUpperBoundValue"}
Enum == [searchStrategy |-> {"frtdp", "hsvi", "rtdp", "lrtdp", "hdp", "script"},
         modelType |-> {"-", "pomdp", "mdp", "racetrack", "custom"},
         lowerBoundRepresentation |-> {"-", "point", "maxPlanes", "convex"},
         upperBoundRepresentation |-> {"-", "point", "sawtooth"},
         maintainLowerBound |-> {"-", "0", "1"},
         runTimeActionSelection |-> {"-", "lower", "upper"}]
WellTyped(c) == /\ \A f \in Ints \cup Bools : IsInt(c[f])
                /\ \A f \in Nums : IsNum(c[f])
                /\ \A f \in DOMAIN Enum : c[f] \in Enum[f]
\* a value of the wrong type in a field that this run may or may not look at
Doubtful(c) == (\E f \in LateInts : ~IsInt(c[f])) \/ (\E f \in LateNums : ~IsNum(c[f]))
True(s) == NonZero(s)
ModelKind(c) == IF c.modelType # "-" THEN c.modelType
                ELSE IF EndsWith(c.simulatorModel, ".pomdp") THEN "pomdp"
                ELSE IF EndsWith(c.simulatorModel, ".mdp") THEN "mdp"
                ELSE IF EndsWith(c.simulatorModel, ".racetrack") THEN "racetrack"
                ELSE IF c.simulatorModel = "custom" THEN "custom" ELSE "?"
Lb(c) == LET r == c.lowerBoundRepresentation IN
         IF r \in {"maxPlanes", "convex"} THEN "maxPlanes" ELSE IF r = "point" THEN r ELSE IF ModelKind(c) = "pomdp" THEN "maxPlanes" ELSE "point"
Ub(c) == LET r == c.upperBoundRepresentation IN IF r # "-" THEN r ELSE IF ModelKind(c) = "pomdp" THEN "sawtooth" ELSE "point"
NeedsLower(c) == c.searchStrategy \in {"frtdp", "hsvi"}
NeedsUpper(c) == c.searchStrategy # "script"
MaintainLower(c) == IF c.maintainLowerBound = "-" THEN NeedsLower(c) ELSE c.maintainLowerBound = "1"
MaintainUpper(c) == True(c.maintainUpperBound)
UpperActions(c) == IF c.runTimeActionSelection = "-" THEN ~MaintainLower(c) ELSE c.runTimeActionSelection = "upper"
\* which inferences are announced at debug level 1, as field -> value
Announced(c) ==
  [modelType |-> IF c.modelType = "-" THEN ModelKind(c) ELSE "",
   lowerBoundRepresentation |-> IF c.lowerBoundRepresentation = "-" THEN Lb(c) ELSE "",
   upperBoundRepresentation |-> IF c.upperBoundRepresentation = "-" THEN Ub(c) ELSE "",
   maintainLowerBound |-> IF c.command # "evaluate" /\ c.maintainLowerBound = "-" THEN (IF MaintainLower(c) THEN "1" ELSE "0") ELSE "",
   useUpperBoundRunTimeActionSelection |-> IF c.command # "evaluate" /\ c.runTimeActionSelection = "-" THEN (IF UpperActions(c) THEN "1" ELSE "0") ELSE ""]
\* models: name -> [kind, nodisc] of the readable model files
Consistent(c, models) ==
  LET k == ModelKind(c) IN
  /\ k # "?"
  /\ Lb(c) = "maxPlanes" => k = "pomdp"
  /\ Ub(c) = "sawtooth" => k = "pomdp"
  /\ c.command = "evaluate" \/
     /\ k = "custom" \/ (c.simulatorModel \in DOMAIN models /\ models[c.simulatorModel].kind = k)
     /\ ~(k \in {"pomdp", "mdp"} /\ models[c.simulatorModel].nodisc /\ (IsInt(c.maxHorizon) /\ c.maxHorizon = "-1"))
     /\ NeedsLower(c) => c.maintainLowerBound # "0"
     /\ NeedsUpper(c) => MaintainUpper(c)
     /\ MaintainLower(c) \/ MaintainUpper(c)
     /\ c.runTimeActionSelection = "lower" => MaintainLower(c)
     /\ c.runTimeActionSelection = "upper" => MaintainUpper(c)
     /\ c.searchStrategy # "script"   \* no script directory is ever given here
\* policies: name -> [type, kind] of the readable policy files
Evaluable(c, models, policies) ==
  LET planner == IF c.plannerModel = "-" THEN c.simulatorModel ELSE c.plannerModel
      pomdp(m) == m \in DOMAIN models /\ models[m].kind = "pomdp"
  IN /\ c.policyType \in {"maxPlanes", "cassandraAlpha"}
     /\ pomdp(planner) /\ pomdp(c.simulatorModel)
     /\ c.policyInputFile \in DOMAIN policies /\ policies[c.policyInputFile] = c.policyType
WritesPolicy(c) == c.policyOutputFile # "none" /\ MaintainLower(c) /\ Lb(c) = "maxPlanes"
Outputs(c) ==
  (IF c.command # "evaluate" /\ WritesPolicy(c) THEN {c.policyOutputFile} ELSE {}) \cup
  (IF c.command = "benchmark" THEN {c.evaluationOutputFile, c.boundsOutputFile, c.simulationTraceOutputFile, c.scoresOutputFile} ELSE {}) \cup
  (IF c.command = "benchmark" /\ c.storageOutputFile # "none" THEN {c.storageOutputFile} ELSE {}) \cup
  (IF c.command = "evaluate" THEN {c.simulationTraceOutputFile, c.scoresOutputFile} ELSE {}) \cup
  (IF c.command # "evaluate" /\ (True(c.useLogBackups) \/ c.qValuesOutputFile # "none") THEN {c.stateIndexOutputFile} ELSE {}) \cup
  (IF c.command # "evaluate" /\ True(c.useLogBackups) THEN {c.backupsOutputFile, c.boundValuesOutputFile} ELSE {}) \cup
  (IF c.command # "evaluate" /\ c.qValuesOutputFile # "none" THEN {c.qValuesOutputFile} ELSE {})
InferStep(st, models, policies) ==
  IF ~WellTyped(st.cfg) THEN Refuse(st)
  ELSE IF ~Consistent(st.cfg, models) THEN Refuse(st)
  ELSE IF st.cfg.command = "evaluate" /\ ~Evaluable(st.cfg, models, policies) THEN Refuse(st)
  ELSE [st EXCEPT !.ph = "ok"]
Step(st, P) ==
  CASE st.ph = "args" -> ArgStep(st, P.args)
    [] st.ph = "file" -> FileStep(st, P.files)
    [] st.ph = "expand" -> ExpandStep(st)
    [] st.ph = "opts" -> OptStep(st)
    [] st.ph = "command" -> CommandStep(st)
    [] st.ph = "infer" -> InferStep(st, P.models, P.policies)
=============================================================================
