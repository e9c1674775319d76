-------------------------------- MODULE Search --------------------------------
(* The control part of the five search strategies, as a small-step machine:    *)
(* which state a trial backs up next, given the current bounds.  A control     *)
(* configuration waits for one backup (field n: the state) or has finished its *)
(* trial (m = "E").  Operators return the SET of configurations allowed next;  *)
(* ties and quantities within rounding of a threshold yield several.           *)
(* Used by SearchTrace (conformance of the real code) and SearchMC (model      *)
(* checking of the strategies themselves).                                     *)
(*                                                                             *)
(* World record w: strat, tp, g, md (adaptive depth*1000), om (previous one),  *)
(*   ttp (HSVI trial target), lb, ub, prio : Seq by state id, term : set,      *)
(*   out : id -> Seq over actions of Seq of <<prob, successor id (0: none)>>   *)
EXTENDS FixedPoint, FiniteSets, TLC

\* thresholds are compared up to rounding of the logged numbers
SLACK == 4
Over(x, tol)  == x > -tol      \* x > 0 possible
Under(x, tol) == x <= tol      \* x <= 0 possible

Excess(w, n) == w.ub[n] - w.lb[n] - (w.tp \div 2)
PrioOf(w, n) == LET x == Excess(w, n) IN IF x <= 0 THEN 0 ELSE x

\* HSVI: trial target scaled by depth, ttp / g^d, saturating
RECURSIVE Scaled(_, _, _)
Scaled(x, g, d) == IF d = 0 \/ x > 1000000000 THEN x
                   ELSE IF x > Mul(g, 2, 1) THEN 1000000001   \* would overflow; larger than any gap
                   ELSE Scaled(Mul(x, PS, g), g, d - 1)
HTol(w, x) == SLACK + (IF w.ttp <= 0 THEN 0 ELSE Mul(x, 2, w.ttp))
HExcess(w, n, d) == w.ub[n] - w.lb[n] - Scaled(w.ttp, w.g, d)
HTolAt(w, d) == HTol(w, Min2(Scaled(w.ttp, w.g, d), 1000000000))

\* successors with positive probability: set of <<prob, id>>
Succs(w, n, a) == {<<w.out[n][a][k][1], w.out[n][a][k][2]>> : k \in {j \in DOMAIN w.out[n][a] : w.out[n][a][j][2] > 0}}
SuccSeq(w, n, a) == SelectSeq(w.out[n][a], LAMBDA x : x[2] > 0)
ArgNear(S, f(_), tol) == LET m == MaxSet({f(x) : x \in S}) IN {x \in S : f(x) >= m - tol}

INF == 1000000
NoCS == [open |-> {}, closed |-> <<>>, ok |-> TRUE]
\* q: FRTDP quality sums <<old sum, old count, new sum, new count>>
Start == [m |-> "S", n |-> 0, d |-> 0, occ |-> PS, stk |-> <<>>, cs |-> NoCS, sol |-> {}, vis |-> {},
          q |-> <<0, 0, 0, 0>>, flag |-> FALSE, big |-> FALSE,
          ix |-> <<>>, nst |-> <<>>, rl |-> INF]
Push(c, f) == [c EXCEPT !.stk = Append(@, f)]
Top(c) == c.stk[Len(c.stk)]
Pop(c) == [c EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
End(c) == [c EXCEPT !.m = "E", !.n = 0, !.stk = <<>>]
CapAdd(x, y) == IF x > 1000000000 THEN x ELSE x + y

IsSolved(w, c, n) == n \in w.term \/ n \in w.solved \/ n \in c.sol

\* LRTDP's solved check rooted at n: every state of its unsolved greedy closure
EnterCheck(w, c, n) == {[c EXCEPT !.m = "C", !.n = n, !.cs = [open |-> {n}, closed |-> <<>>, ok |-> TRUE]]}

RECURSIVE Resume(_, _), VisitHDP(_, _), Visit(_, _, _, _, _)

\* about to visit state n at depth d with discounted occupancy occ
Visit(w, c0, n, d, occ) ==
  LET c == [c0 EXCEPT !.n = n, !.d = d, !.occ = occ] IN
  CASE w.strat = "frtdp" -> {[c EXCEPT !.m = "D"]}
    [] w.strat = "hsvi" ->
         LET x == HExcess(w, n, d)  t == HTolAt(w, d) IN
         (IF Under(x, t) THEN Resume(w, c) ELSE {}) \cup (IF Over(x, t) THEN {[c EXCEPT !.m = "D"]} ELSE {})
    [] w.strat = "rtdp" -> IF n \in w.term THEN Resume(w, c) ELSE {[c EXCEPT !.m = "D"]}
    [] w.strat = "lrtdp" -> IF IsSolved(w, c, n) THEN Resume(w, [c EXCEPT !.flag = TRUE]) ELSE {[c EXCEPT !.m = "D"]}
    [] w.strat = "hdp" -> IF IsSolved(w, c, n) THEN Resume(w, [c EXCEPT !.flag = FALSE]) ELSE {[c EXCEPT !.m = "D"]}

\* control returns to the state on top of the stack
Resume(w, c) ==
  IF c.stk = <<>> THEN {End(c)}
  ELSE CASE w.strat \in {"frtdp", "hsvi", "rtdp"} -> {[c EXCEPT !.m = "U", !.n = Top(c).n, !.d = Top(c).d]}
         [] w.strat = "lrtdp" -> IF ~c.flag THEN {End(c)}     \* nothing more is checked once a check failed
               ELSE \* states solved by now pass the check at once
                    LET ks == {k \in DOMAIN c.stk : ~IsSolved(w, c, c.stk[k].n)}
                    IN IF ks = {} THEN {End(c)}
                       ELSE LET k == MaxSet(ks) IN EnterCheck(w, [c EXCEPT !.stk = SubSeq(@, 1, k - 1)], c.stk[k].n)
         [] w.strat = "hdp" -> VisitHDP(w, [c EXCEPT !.stk[Len(c.stk)].fl = @ \/ c.flag, !.stk[Len(c.stk)].low = Min2(@, c.rl)])

\* the closure is exhausted: label it, or update it in reverse order
CloseCheck(w, c) ==
  LET cl == {c.cs.closed[k] : k \in DOMAIN c.cs.closed} IN
  IF c.cs.ok THEN Resume(w, [c EXCEPT !.sol = @ \cup cl, !.cs = NoCS, !.flag = TRUE])
  ELSE {[c EXCEPT !.m = "R", !.n = c.cs.closed[Len(c.cs.closed)]]}
NextOpen(w, c) == IF c.cs.open = {} THEN CloseCheck(w, c) ELSE {[c EXCEPT !.m = "C", !.n = x] : x \in c.cs.open}

\* HDP: the top frame goes on to one of its remaining outcomes, or returns
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
VisitHDP(w, c) ==
  LET f == Top(c)
      skip(x) == IsSolved(w, c, x) \/ x \in c.vis
      live == {k \in DOMAIN f.rem : ~skip(f.rem[k])}
  IN IF live = {} THEN
       LET on == {c.nst[k] : k \in DOMAIN c.nst}
           low == MinSet({f.low} \cup {c.ix[x] : x \in {f.rem[k] : k \in DOMAIN f.rem} \cap on})
           at == CHOOSE k \in DOMAIN c.nst : c.nst[k] = f.n
       IN IF f.fl THEN {[c EXCEPT !.m = "U", !.n = f.n, !.stk[Len(c.stk)].low = low]}
          \* the root of a component without a residual above the target: the component is labelled
          ELSE IF low = c.ix[f.n]
          THEN Resume(w, [Pop(c) EXCEPT !.flag = FALSE, !.rl = low, !.sol = @ \cup {c.nst[k] : k \in at..Len(c.nst)},
                                        !.nst = SubSeq(@, 1, at - 1)])
          ELSE Resume(w, [Pop(c) EXCEPT !.flag = FALSE, !.rl = low])
     ELSE UNION {{[c EXCEPT !.m = "D", !.n = f.rem[k], !.stk[Len(c.stk)].rem = RemoveAt(f.rem, k)]} : k \in live}

(* The backup c was waiting for has been made.  w: world after it; a: greedy    *)
(* action; res: residual (old upper bound minus its backup, at least 0);        *)
(* dub: by how much the upper bound of the state fell.                          *)
After(w, c, a, res, dub) ==
  LET n == c.n IN
  CASE w.strat = "frtdp" /\ c.m = "D" ->
         LET qd == Mul(dub, c.occ, PS)
             new == c.d * 1000 > w.om
             q2 == IF new THEN <<c.q[1], c.q[2], CapAdd(c.q[3], qd), c.q[4] + 1>>
                   ELSE <<CapAdd(c.q[1], qd), c.q[2] + 1, c.q[3], c.q[4]>>
             c2 == [c EXCEPT !.q = q2]
             x == Excess(w, n)
             deep == c.d * 1000 > w.md
             best == ArgNear(Succs(w, n, a), LAMBDA s : Mul(s[1], w.prio[s[2]], PS), 20)
         IN (IF Under(x, SLACK) \/ deep THEN Resume(w, c2) ELSE {}) \cup
            (IF Over(x, SLACK) /\ ~deep
             THEN UNION {Visit(w, Push(c2, [n |-> n, d |-> c.d]), s[2], c.d + 1, Mul(c.occ, Mul(w.g, s[1], PS), PS)) : s \in best}
             ELSE {})
    [] w.strat = "hsvi" /\ c.m = "D" ->
         LET sc == Min2(Scaled(w.ttp, w.g, c.d + 1), 1000000000)
             best == ArgNear(Succs(w, n, a), LAMBDA s : Mul(s[1], w.ub[s[2]] - w.lb[s[2]] - sc, PS),
                             HTol(w, sc))
         IN UNION {Visit(w, Push(c, [n |-> n, d |-> c.d]), s[2], c.d + 1, PS) : s \in best}
    [] w.strat = "rtdp" /\ c.m = "D" ->
         UNION {Visit(w, Push(c, [n |-> n, d |-> c.d]), s[2], c.d + 1, PS) : s \in Succs(w, n, a)}
    [] w.strat \in {"frtdp", "hsvi", "rtdp"} /\ c.m = "U" -> Resume(w, Pop(c))
    [] w.strat = "lrtdp" /\ c.m = "D" ->
         UNION {Visit(w, Push(c, [n |-> n, d |-> c.d]), s[2], c.d + 1, PS) : s \in Succs(w, n, a)}
    [] w.strat = "lrtdp" /\ c.m = "C" ->
         LET cs1 == [c.cs EXCEPT !.open = @ \ {n}, !.closed = Append(@, n)]
             seen == cs1.open \cup {cs1.closed[k] : k \in DOMAIN cs1.closed}
             new == {s[2] : s \in Succs(w, n, a)}
             fresh == {x \in new : ~IsSolved(w, c, x) /\ x \notin seen}
         IN (IF res > w.tp - SLACK THEN NextOpen(w, [c EXCEPT !.cs = [cs1 EXCEPT !.ok = FALSE]]) ELSE {}) \cup
            (IF res <= w.tp + SLACK THEN NextOpen(w, [c EXCEPT !.cs = [cs1 EXCEPT !.open = @ \cup fresh]]) ELSE {})
    [] w.strat = "lrtdp" /\ c.m = "R" ->
         LET k == Len(c.cs.closed) - 1
             c2 == [c EXCEPT !.cs.closed = SubSeq(@, 1, k)]
         IN IF k = 0 THEN Resume(w, [c2 EXCEPT !.cs = NoCS, !.flag = FALSE])
            ELSE {[c2 EXCEPT !.n = c2.cs.closed[k]]}
    [] w.strat = "hdp" /\ c.m = "D" ->
         LET sq == SuccSeq(w, n, a) IN
         (IF res > w.tp - SLACK THEN Resume(w, [c EXCEPT !.flag = TRUE, !.big = TRUE, !.rl = INF]) ELSE {}) \cup
         (IF res <= w.tp + SLACK
          THEN VisitHDP(w, [Push(c, [n |-> n, d |-> c.d, fl |-> FALSE, rem |-> [k \in DOMAIN sq |-> sq[k][2]], low |-> Cardinality(c.vis)])
                             EXCEPT !.vis = @ \cup {n}, !.ix = @ @@ (n :> Cardinality(c.vis)), !.nst = Append(@, n)])
          ELSE {})
    [] w.strat = "hdp" /\ c.m = "U" -> Resume(w, [Pop(c) EXCEPT !.flag = TRUE, !.rl = Top(c).low])
    [] OTHER -> {}

\* FRTDP: whether the depth limit may grow / stay after a trial
Grows(q) == \/ q[1] <= q[2] + 1                                     \* old sum indistinguishable from zero
            \/ (q[2] > 0 /\ q[4] > 0 /\ (q[3] \div q[4]) - (q[1] \div q[2]) >= -10 - 6)
Stays(q) == /\ q[1] > 0 \/ q[2] > 0
            /\ \/ q[4] = 0
               \/ (q[2] > 0 /\ (q[3] \div q[4]) - (q[1] \div q[2]) <= -10 + 6)
FirstConfigs(w) == IF w.strat = "hdp" /\ (1 \in w.solved \/ 1 \in w.term) THEN {End(Start)}
                   ELSE Visit(w, Start, 1, 0, PS)
=============================================================================
