----------------------------- MODULE ConfigTrace -----------------------------
(* Invocations of the real command line program against Config.tla: each run   *)
(* gives the arguments, the configuration files and the model and policy files *)
(* present; the settings the program prints, what it infers, what it writes    *)
(* and how it exits must be the machine's.                                     *)
EXTENDS Config, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, st, viol
vars == <<l, pl, st, viol>>
E == Trace[l]
M == Trace[pl]
Ob2(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Range(s) == {s[i] : i \in DOMAIN s}
Init == l = 1 /\ pl = 0 /\ st = [ph |-> "ok"] /\ viol = {}
Problem == /\ E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ st' = Start0 /\ UNCHANGED viol
Consume == /\ E.e # "Problem" /\ ~Final(st) /\ st' = Step(st, M) /\ UNCHANGED <<l, pl, viol>>
\* only the settings reached "infer" are printed
Loud == IsInt(st.cfg.debugLevel) /\ Positive(st.cfg.debugLevel)
Reached == st.ph = "ok" \/ (st.ph = "refused" /\ E.params # <<>>)
SameParams == \A f \in DOMAIN st.cfg : f \in DOMAIN E.params /\ E.params[f] = st.cfg[f]
SameAliases == DOMAIN E.al = DOMAIN st.al /\ \A f \in DOMAIN st.al : E.al[f] = st.al[f]
\* rtdp has no stopping rule of its own (runs are cut off after eight seconds)
Endless == /\ st.cfg.command # "evaluate" /\ st.cfg.searchStrategy = "rtdp"
           /\ (Positive(st.cfg.terminateWallclockSeconds) => M.val[st.cfg.terminateWallclockSeconds].n >= 5) /\ (IsInt(st.cfg.terminateNumBackups) => Ch(st.cfg.terminateNumBackups, 1) = "-")
\* (lines of a thousand characters and more may be refused, but not misread)
Refusal == /\ E.timeout = 0 /\ E.sig = 0 /\ E.rc # 0
Ran ==
  /\ Final(st) /\ E.e = "Ran" /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
  /\ viol' = viol \cup Tag(
       CASE st.ph = "help" -> Ob2("P15", "asking for help does anything but print it", E.timeout = 0 /\ E.sig = 0 /\ E.out + E.err > 0 /\ E.files = <<>>)
         [] st.ph = "version" -> Ob2("P15", "asking for the version does anything but print it", E.timeout = 0 /\ E.rc = 0 /\ E.out > 0 /\ E.files = <<>>)
         [] st.ph = "generate" -> Ob2("P15", "the default configuration is not written", E.rc = 0 /\ E.files = <<st.out>>) \cup
                                  Ob2("P15", "the written configuration is not the defaults",
                                      (\A f \in DOMAIN DefaultCfg : f \in DOMAIN E.gen /\ E.gen[f] = DefaultCfg[f]) /\ DOMAIN E.gen = DOMAIN DefaultCfg)
         [] st.ph = "refused" ->
              Ob2("P12", "invalid options were accepted", Refusal) \cup
              Ob2("P12", "invalid options were refused without a message", E.err > 0 \/ E.sig # 0 \/ E.out > 0) \cup
              Ob2("P12", "a refused run wrote a policy", st.cfg.policyOutputFile \in {"-", "none"} \/ ~(st.cfg.policyOutputFile \in Range(E.files)))
         [] st.ph = "ok" /\ ~(E.timeout = 0 /\ E.sig = 0 /\ E.rc = 0) /\ ~(Doubtful(st.cfg) /\ Refusal) /\ ~(E.timeout = 1 /\ Endless) /\ ~(M.long = 1 /\ Refusal) ->
              Ob2("P12", "valid options were refused", FALSE) \cup Ob2("P15", "valid options were refused", FALSE)
         [] st.ph = "ok" /\ E.timeout = 0 /\ E.rc = 0 ->
              Ob2("P15", "the files written are not those the options name", Range(E.files) = Outputs(st.cfg)) \cup
              Ob2("P15", "the settings in force are not printed", Loud => E.params # <<>>) \cup
              Ob2("P15", "settings are printed that were not asked for", ~Loud => E.params = <<>>) \cup
              (IF E.params = <<>> THEN {} ELSE
                 Ob2("P15", "an option has another value than precedence gives it", SameParams) \cup
                 Ob2("P15", "an alias stands for something else", SameAliases) \cup
                 Ob2("P15", "an unset option is inferred differently", \A f \in DOMAIN Announced(st.cfg) : E.inf[f] = Announced(st.cfg)[f]))
         [] OTHER -> {})
\* the objects the planner was built from (same arguments, no configuration file)
SolverClass == [frtdp |-> "FRTDP", hsvi |-> "HSVI", rtdp |-> "RTDP", lrtdp |-> "LRTDP", hdp |-> "HDP", script |-> "ScriptedUpdater"]
Built ==
  /\ Final(st) /\ E.e = "Built" /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
  /\ LET c == st.cfg IN viol' = viol \cup Tag(IF st.ph # "ok" THEN {} ELSE
       Ob2("P15", "the planner was built with another strategy", E.solver = SolverClass[c.searchStrategy]) \cup
       Ob2("P15", "the planner was built with another lower bound",
           E.lb = IF ~MaintainLower(c) THEN "none" ELSE IF Lb(c) = "maxPlanes" THEN "MaxPlanesLowerBound" ELSE "PointLowerBound") \cup
       Ob2("P15", "the planner was built with another upper bound",
           E.ub = IF ~MaintainUpper(c) THEN "none" ELSE IF Ub(c) = "sawtooth" THEN "SawtoothUpperBound" ELSE "PointUpperBound") \cup
       Ob2("P15", "the planner maintains other bounds than asked", (E.ml = 1) = MaintainLower(c) /\ (E.mu = 1) = MaintainUpper(c)) \cup
       Ob2("P15", "actions are selected by the other bound", (E.ua = 1) = UpperActions(c)) \cup
       Ob2("P15", "a numeric option has another value", E.regret = M.val[c.terminateRegretBound].m /\ E.trials = M.val[c.evaluationTrialsPerEpoch].n
           /\ E.steps = M.val[c.evaluationMaxStepsPerTrial].n /\ E.horizon = M.val[c.maxHorizon].n) \cup
       Ob2("P15", "the policy goes to another file", E.policy = IF WritesPolicy(c) THEN c.policyOutputFile ELSE ""))
Next == l <= N /\ (Problem \/ Consume \/ Ran \/ Built)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter > N
Alias == [l |-> l, viol |-> viol]
=============================================================================
