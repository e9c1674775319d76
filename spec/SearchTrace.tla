----------------------------- MODULE SearchTrace -----------------------------
(* Conformance of recorded runs with the search strategies of Search.tla, and  *)
(* the convergence properties:                                                 *)
(*   P04 convergence is claimed only when reached, and is reached,             *)
(*   P05 trials follow the selected strategy, P06 LRTDP labels, P07 HDP labels.*)
(* ms is the set of control configurations the log so far allows; an event no  *)
(* configuration allows is a violation.                                        *)
EXTENDS Search, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, nd, x, solved, ms, td, viol
vars == <<l, pl, nd, x, solved, ms, td, viol>>
(* nd : Seq of [lb, ub, term, prio, res, act]; x : Seq of line of expansion;   *)
(* td : trial data [md, om, ttp, nbk, open]                                    *)
E == Trace[l]
M == Trace[pl]
Range(f) == {f[i] : i \in DOMAIN f}
Near(a, b, tol) == Abs(a - b) <= tol
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Interval == {"frtdp", "hsvi"}

TermSet == {i \in DOMAIN nd : nd[i].term = 1}
World(n2, x2) ==
  [strat |-> M.strat, tp |-> M.tp, g |-> M.g, md |-> td.md, om |-> td.om, ttp |-> td.ttp,
   lb |-> [i \in DOMAIN n2 |-> n2[i].lb], ub |-> [i \in DOMAIN n2 |-> n2[i].ub],
   prio |-> [i \in DOMAIN n2 |-> n2[i].prio],
   term |-> {i \in DOMAIN n2 : n2[i].term = 1}, solved |-> solved,
   out |-> [i \in DOMAIN n2 |-> IF x2[i] = 0 THEN <<>> ELSE [a \in DOMAIN Trace[x2[i]].Q |-> Trace[x2[i]].Q[a].o]]]
Ex(lb, ub) == LET e == ub - lb - (M.tp \div 2) IN IF e <= 0 THEN 0 ELSE e

Init == /\ l = 1 /\ pl = 0 /\ nd = <<>> /\ x = <<>> /\ solved = {} /\ ms = {} /\ viol = {}
        /\ td = [md |-> 10000, om |-> 0, ttp |-> 0, nbk |-> 0, open |-> FALSE]
Problem == /\ E.e = "Problem" /\ pl' = l /\ nd' = <<>> /\ x' = <<>> /\ solved' = {} /\ ms' = {}
           /\ td' = [md |-> 10000, om |-> 0, ttp |-> 0, nbk |-> 0, open |-> FALSE]
           /\ UNCHANGED viol
NodeEv == /\ E.e = "Node"
          /\ nd' = Append(nd, [lb |-> E.lb, ub |-> E.ub, term |-> E.term, prio |-> Ex(E.lb, E.ub), res |-> 0, act |-> 0])
          /\ x' = Append(x, 0)
          /\ UNCHANGED <<pl, solved, ms, td, viol>>
TB == /\ E.e = "TB"
      /\ ms' = {Start}
      /\ td' = [td EXCEPT !.open = TRUE]
      /\ UNCHANGED <<pl, nd, x, solved, viol>>

\* a trial that has not yet backed anything up starts at the initial state
Begun(w, tdx) == UNION {IF c.m = "S" THEN FirstConfigs(w) ELSE {c} : c \in ms}
GapTarget(n2) == Mul(n2[1].ub - n2[1].lb, 95, 100)

UpdEv ==
  /\ E.e = "Upd"
  /\ LET fresh == Start \in ms
         \* HSVI fixes its target from the root gap when the trial starts
         t0 == IF fresh /\ nd # <<>> THEN [td EXCEPT !.ttp = GapTarget(nd)] ELSE td
         w0 == [World(nd, x) EXCEPT !.ttp = t0.ttp]
         cand == {c \in Begun(w0, t0) : c.n = E.id /\ c.m # "E"}
         x2 == IF E.fr = 1 THEN [x EXCEPT ![E.id] = l] ELSE x
         pre == nd[E.id]
         mq == MaxSeq(E.qu)
         a == IF E.mu = 1 THEN E.act + 1 ELSE E.mua + 1
         res == Max2(0, pre.ub - mq)
         outs == Trace[x2[E.id]].Q[a].o
         ps == {Mul(Mul(M.g, outs[k][1], PS), nd[outs[k][2]].prio, PS) : k \in {j \in DOMAIN outs : outs[j][2] > 0}}
         pr == Min2(IF ps = {} THEN 0 ELSE MaxSet(ps), Ex(E.lb, E.ub))
         n2 == [nd EXCEPT ![E.id] = [pre EXCEPT !.lb = E.lb, !.ub = E.ub, !.prio = pr, !.res = res, !.act = E.mua + 1]]
         \* the outcome is chosen by the priorities from before this backup (matters for self-loops)
         w1 == [World(n2, x2) EXCEPT !.ttp = t0.ttp, !.prio = [i \in DOMAIN nd |-> nd[i].prio]]
         next == UNION {After(w1, c, a, res, pre.ub - E.ub) : c \in cand}
         lost == next = {} /\ ms # {}
         inCheck == M.strat = "lrtdp" /\ \E c \in ms : c.m \in {"C", "R"}
     IN /\ nd' = n2 /\ x' = x2 /\ td' = [t0 EXCEPT !.nbk = @ + 1]
        /\ ms' = next
        /\ viol' = viol \cup Tag(
             Ob("P05", "a backup the strategy does not make here", ~lost) \cup
             Ob("P06", "a backup the solved check does not make here", ~(lost /\ inCheck)) \cup
             Ob("P05", "action is not greedy for the upper bound",
                E.mu = 1 => E.qu[E.act + 1] >= mq - 30))
  /\ UNCHANGED <<pl, solved>>

ChgEv == /\ E.e = "Chg"
         /\ nd' = [i \in DOMAIN nd |->
              IF \E k \in DOMAIN E.chg : E.chg[k][1] = i
              THEN LET k == CHOOSE k \in DOMAIN E.chg : E.chg[k][1] = i
                   IN [nd[i] EXCEPT !.lb = E.chg[k][2], !.ub = E.chg[k][3]]
              ELSE nd[i]]
         /\ UNCHANGED <<pl, x, solved, ms, td, viol>>

\* successors of a state's greedy action (some action whose value is best within rounding)
QU(i, a) == LET q == Trace[x[i]].Q[a] IN
            q.r + Mul(M.g, SumSeq([k \in DOMAIN q.o |-> IF q.o[k][2] > 0 THEN Mul(q.o[k][1], nd[q.o[k][2]].ub, PS) ELSE 0]), PS)
SuccIds(i, a) == LET o == Trace[x[i]].Q[a].o IN {o[k][2] : k \in {j \in DOMAIN o : o[j][2] > 0}}
\* a labelled state: its last residual within target, and the states its greedy action leads to labelled
ClosedAt(i, S) ==
  \/ nd[i].term = 1
  \/ /\ x[i] > 0
     /\ nd[i].res <= M.tp + SLACK
     /\ IF M.ubr = "point"
        THEN LET mx == MaxSet({QU(i, a) : a \in DOMAIN Trace[x[i]].Q}) IN
             /\ nd[i].ub - mx <= M.tp + 30
             /\ \E a \in DOMAIN Trace[x[i]].Q : QU(i, a) >= mx - 30 /\ SuccIds(i, a) \subseteq S
        ELSE SuccIds(i, nd[i].act) \subseteq S
Grown(md) == {Mul(md, 11, 10) + k : k \in -2..2}
TE ==
  /\ E.e = "TE"
  /\ LET w == IF nd = <<>> THEN Start ELSE [World(nd, x) EXCEPT !.ttp = IF Start \in ms THEN GapTarget(nd) ELSE td.ttp]
         fin == IF ms = {} THEN {} ELSE {c \in Begun(w, td) : c.m = "E"}
         sol == Range(E.sol)
         r == nd[1]
         gap == r.ub - r.lb
         okmd == \E c \in fin : \/ (E.md \in Grown(td.md) /\ Grows(c.q))
                                \/ (E.md = td.md /\ Stays(c.q))
         t2 == IF M.strat = "frtdp" /\ E.md # td.md THEN [td EXCEPT !.om = td.md, !.md = E.md] ELSE td
         new == sol \ (solved \cup TermSet)
     IN /\ td' = [t2 EXCEPT !.open = FALSE]
        /\ ms' = {} /\ solved' = sol
        /\ viol' = viol \cup Tag(
             Ob("P05", "trial ended early", ms # {} => fin # {}) \cup
             Ob("P05", "depth limit", (M.strat = "frtdp" /\ fin # {}) => okmd) \cup
             \* ---- convergence claims
             Ob("P04", "claimed or missed convergence of the interval",
                M.strat \in Interval => /\ (E.done = 1 => gap < M.tp + SLACK)
                                        /\ (E.done = 0 => gap > M.tp - SLACK)) \cup
             Ob("P04", "reported bounds are not within the target",
                (M.strat \in Interval /\ E.done = 1) => E.ru - E.rl < M.tp + 40) \cup
             Ob("P04", "claimed convergence of an unlabelled run",
                (M.strat \in {"lrtdp", "hdp"} /\ E.done = 1) => 1 \in sol) \cup
             Ob("P04", "claimed convergence while a reachable state has a residual above target",
                (M.strat \in {"lrtdp", "hdp"} /\ E.done = 1) => \A i \in sol : ClosedAt(i, sol)) \cup
             Ob("P04", "this strategy never claims convergence", M.strat = "rtdp" => E.done = 0) \cup
             Ob("P04", "a trial made no progress",
                (M.strat \in Interval /\ E.done = 0) => E.nbk > 0 /\ td.nbk > 0) \cup
             \* ---- labels
             Ob("P06", "solved label without converged greedy closure",
                M.strat = "lrtdp" => \A i \in new : ClosedAt(i, sol)) \cup
             Ob("P06", "a label was taken back", M.strat = "lrtdp" => solved \subseteq sol) \cup
             Ob("P06", "terminal states count as solved", M.strat = "lrtdp" => TermSet \subseteq sol) \cup
             Ob("P06", "labels differ from the solved check",
                (M.strat = "lrtdp" /\ fin # {}) => \E c \in fin : sol = solved \cup TermSet \cup c.sol) \cup
             Ob("P06", "completion claimed exactly when the initial state is solved",
                M.strat = "lrtdp" => (E.done = 1) = (1 \in sol)) \cup
             Ob("P07", "solved label without converged greedy closure",
                M.strat = "hdp" => \A i \in new : ClosedAt(i, sol)) \cup
             Ob("P07", "a label was taken back", M.strat = "hdp" => solved \subseteq sol) \cup
             Ob("P07", "labels differ from the converged components",
                (M.strat = "hdp" /\ fin # {}) => \E c \in fin : sol = solved \cup TermSet \cup c.sol) \cup
             Ob("P07", "nothing above the target was found, but the initial state stays unmarked",
                (M.strat = "hdp" /\ fin # {}) => (1 \in sol \/ \E c \in fin : c.big)) \cup
             Ob("P07", "marked although a residual above the target was found",
                (M.strat = "hdp" /\ fin # {}) => (1 \notin sol \/ \E c \in fin : ~c.big)) \cup
             Ob("P07", "completion claimed exactly when the initial state was solved before",
                M.strat = "hdp" => (E.done = 1) = (1 \in solved \cup (TermSet \cap sol))))
  /\ UNCHANGED <<pl, nd, x>>

EndEv ==
  /\ E.e \in {"End", "Cut", "Init", "Vals", "Query"}
  /\ viol' = viol \cup Tag(
       IF E.e # "End" THEN {} ELSE
       Ob("P04", "target not reached within the trial budget",
          (M.strat \in Interval /\ M.fin = 1 /\ M.toend = 1) => E.done = 1))
  /\ UNCHANGED <<pl, nd, x, solved, ms, td>>
Bad == /\ E.e \in {"Crash", "Anomaly"}
       /\ viol' = viol \cup Tag({<<p, "run crashed or an unregistered state was used">> : p \in Props})
       /\ ms' = {}
       /\ UNCHANGED <<pl, nd, x, solved, td>>
Next == /\ l <= N /\ l' = l + 1
        /\ \/ Problem \/ NodeEv \/ TB \/ UpdEv \/ ChgEv \/ TE \/ EndEv \/ Bad
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
