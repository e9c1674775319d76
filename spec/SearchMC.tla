------------------------------ MODULE SearchMC -------------------------------
(* The search strategies of Search.tla closed over small MDPs: every state      *)
(* starts with loose bounds, each backup a strategy asks for is made as P03     *)
(* says, and labels and targets are taken as P04-P07 say.  What the properties  *)
(* promise must then follow, whatever outcomes are drawn and however ties are   *)
(* broken.                                                                      *)
EXTENDS Search
CONSTANTS S,      \* states 1..S, the last one absorbing with reward 0
          A, Strats, Picks, G, TP
VARIABLES I, strat, lb, ub, prio, solved, md, om, ttp, c, done, nbk, trials
vars == <<I, strat, lb, ub, prio, solved, md, om, ttp, c, done, nbk, trials>>
\* ---- the MDPs: each state and action leads to one state, or to two with even odds, and earns 0 or 1
Pairs == {p \in (1..S) \X (1..S) : p[1] <= p[2]}
RECURSIVE SortPairs(_)
SortPairs(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o SortPairs(X \ {x})
PS1 == SortPairs(Pairs)
K == 2 * Len(PS1)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Digit(i, s, a) == (i \div Power(K, (s - 1) * A + a - 1)) % K
OutOf(i, s, a) == IF s = S THEN <<<<PS, S>>>>
                  ELSE LET p == PS1[(Digit(i, s, a) \div 2) + 1] IN IF p[1] = p[2] THEN <<<<PS, p[1]>>>> ELSE <<<<PS \div 2, p[1]>>, <<PS \div 2, p[2]>>>>
RewOf(i, s, a) == IF s = S THEN 0 ELSE (Digit(i, s, a) % 2) * VS
OutT == [i \in Picks |-> [s \in 1..S |-> [a \in 1..A |-> OutOf(i, s, a)]]]
RewT == [i \in Picks |-> [s \in 1..S |-> [a \in 1..A |-> RewOf(i, s, a)]]]
Top0 == Mul(VS, PS, PS - G)
Ev(i, v, s, a) == RewT[i][s][a] + Mul(G, SumSeq([k \in DOMAIN OutT[i][s][a] |-> Mul(OutT[i][s][a][k][1], v[OutT[i][s][a][k][2]], PS)]), PS)
Best(i, v, s) == MaxSet({Ev(i, v, s, a) : a \in 1..A})
RECURSIVE Fix(_, _, _)
Fix(i, v, k) == IF k = 0 THEN v ELSE LET w == TLCEval([s \in 1..S |-> Best(i, v, s)]) IN IF w = v THEN v ELSE Fix(i, w, k - 1)
OptT == [i \in Picks |-> Fix(i, [s \in 1..S |-> 0], 400)]
\* states that some plan can stay out of the absorbing state from for ever are left to the discounted strategies
Interval == {"frtdp", "hsvi"}
Ex(l, u) == LET e == u - l - (TP \div 2) IN IF e <= 0 THEN 0 ELSE e
w == [strat |-> strat, tp |-> TP, g |-> G, md |-> md, om |-> om, ttp |-> ttp, lb |-> lb, ub |-> ub, prio |-> prio, term |-> {S}, solved |-> solved, out |-> OutT[I]]
Init == /\ I \in Picks /\ strat \in Strats
        /\ lb = [s \in 1..S |-> 0] /\ ub = [s \in 1..S |-> IF s = S THEN 0 ELSE Top0]
        /\ prio = [s \in 1..S |-> Ex(0, IF s = S THEN 0 ELSE Top0)]
        /\ solved = {S} /\ md = 10000 /\ om = 0 /\ ttp = 0 /\ c = End(Start) /\ done = FALSE /\ nbk = 0 /\ trials = 0
Begin == /\ c.m = "E" /\ ~done /\ nbk = 0
         /\ \E t \in {IF strat = "hsvi" THEN Mul(ub[1] - lb[1], 95, 100) ELSE 0} :
              /\ ttp' = t
              /\ \E d \in FirstConfigs([w EXCEPT !.ttp = t]) : c' = d
         /\ nbk' = 1
         /\ UNCHANGED <<I, strat, lb, ub, prio, solved, md, om, done, trials>>
\* residual checks keep the upper bound (HDP: unless the check fails)
Checks(res) == (strat = "lrtdp" /\ c.m = "C") \/ (strat = "hdp" /\ c.m = "D" /\ res <= TP)
Backup == /\ c.m \notin {"E", "S"}
          /\ \E n \in {c.n} : \E mq \in {Best(I, ub, c.n)} : \E ml \in {Best(I, lb, c.n)} :
             \E a \in {x \in 1..A : Ev(I, ub, n, x) = mq} :
               /\ lb' = [lb EXCEPT ![n] = Max2(@, ml)]
               /\ ub' = [ub EXCEPT ![n] = IF Checks(ub[n] - mq) THEN @ ELSE Min2(@, mq)]
               /\ LET ps == {Mul(Mul(G, OutT[I][n][a][k][1], PS), prio[OutT[I][n][a][k][2]], PS) : k \in DOMAIN OutT[I][n][a]}
                  IN prio' = [prio EXCEPT ![n] = Min2(MaxSet(ps), Ex(lb'[n], ub'[n]))]
               /\ \E d \in After([w EXCEPT !.lb = lb', !.ub = ub'], c, a, Max2(0, ub[n] - mq), ub[n] - ub'[n]) : c' = d
          /\ nbk' = nbk + 1
          /\ UNCHANGED <<I, strat, solved, md, om, ttp, done, trials>>
Finish == /\ c.m = "E" /\ nbk > 0
          /\ solved' = solved \cup c.sol
          /\ done' = CASE strat \in Interval -> ub[1] - lb[1] < TP
                       [] strat = "lrtdp" -> 1 \in solved'
                       [] strat = "hdp" -> 1 \in solved
                       [] OTHER -> FALSE
          /\ IF strat # "frtdp" THEN UNCHANGED <<md, om>>
             ELSE \/ Grows(c.q) = TRUE /\ om' = md /\ md' = Mul(md, 11, 10)
                  \/ Stays(c.q) = TRUE /\ UNCHANGED <<md, om>>
          /\ c' = End(Start) /\ nbk' = 0 /\ trials' = trials
          /\ UNCHANGED <<I, strat, lb, ub, prio, ttp>>
Next == Begin \/ Backup \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the random strategies may be unlucky for any length of time
Bound == strat \in {"rtdp", "lrtdp"} => Len(c.stk) <= 5
----------------------------------------------------------------------------
Contain == \A s \in 1..S : lb[s] - 40 <= OptT[I][s] /\ OptT[I][s] <= ub[s] + 40
Tighten == [][\A s \in 1..S : lb'[s] >= lb[s] /\ ub'[s] <= ub[s]]_vars
\* claimed convergence is real
Reached == done => CASE strat \in Interval -> ub[1] - lb[1] < TP
                     [] OTHER -> ub[1] - OptT[I][1] <= Mul(TP + 2 * SLACK, PS, PS - G) + 40
Act(s) == {a \in 1..A : Ev(I, ub, s, a) = Best(I, ub, s)}
To(s, a) == {OutT[I][s][a][k][2] : k \in DOMAIN OutT[I][s][a]}
\* every labelled state has a residual within the target and leads, by a greedy action, to labelled states only
Labels == \A s \in solved \ {S} : ub[s] - Best(I, ub, s) <= TP + SLACK /\ \E a \in Act(s) : To(s, a) \subseteq solved
KeepLabels == [][solved \subseteq solved']_vars
\* an unfinished control configuration always asks for a backup of a state that still matters
Asks == c.m \notin {"E", "S"} => c.n \in 1..S /\ (strat \in {"lrtdp", "hdp"} => c.n \notin solved)
\* some step is always possible until the target is reached
Alive == done \/ ENABLED Next
Converges == <>(done \/ strat \in {"rtdp", "lrtdp"})
=============================================================================
