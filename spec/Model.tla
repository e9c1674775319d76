------------------------------- MODULE Model --------------------------------
(* The decision problem: a finite (PO)MDP record M as written by the model     *)
(* generator, its belief dynamics (Bayes' rule), and its optimal value.        *)
(*   M.kind "mdp" | "pomdp", M.S, M.A, M.O sizes, M.g discount (1e-9),         *)
(*   M.Tt[a][s'][s], M.Oc[a][o][s'], M.Rc[a][s], M.b0 : fixed point            *)
(*   M.T8, M.O8, M.b8 : the same as exact integers, in units of 1/M.k          *)
(* Beliefs are sequences indexed by state; an MDP state is a unit belief and   *)
(* its "observation" is the successor state itself.                            *)
EXTENDS FixedPoint, FiniteSets, TLC

States(M) == 1..M.S
Actions(M) == 1..M.A
NumOut(M) == IF M.kind = "mdp" THEN M.S ELSE M.O
Outcomes(M) == 1..NumOut(M)

Unit(n, i, one) == [k \in 1..n |-> IF k = i THEN one ELSE 0]
Supp(b) == {s \in DOMAIN b : b[s] > 0}

\* distribution over successor states
Push(M, b, a) == [t \in States(M) |-> Dot(b, M.Tt[a][t], PS)]
\* joint weight of (successor state, outcome o)
Joint(M, b, a, o) ==
  IF M.kind = "mdp" THEN [t \in States(M) |-> IF t = o THEN Dot(b, M.Tt[a][t], PS) ELSE 0]
  ELSE EMul(Push(M, b, a), M.Oc[a][o], PS)
OutProb(M, b, a, o) == SumSeq(Joint(M, b, a, o))
\* Bayes posterior, given the outcome has positive probability
Posterior(M, b, a, o) ==
  LET j == Joint(M, b, a, o)
      p == SumSeq(j)
  IN [t \in States(M) |-> Mul(j[t], PS, p)]
\* exact support of the posterior
PostSupp(M, b, a, o) ==
  {t \in States(M) : /\ \E s \in States(M) : b[s] > 0 /\ M.T8[a][s][t] > 0
                     /\ IF M.kind = "mdp" THEN t = o ELSE M.O8[a][t][o] > 0}
\* the sets of states that can be possible together: from the initial belief by
\* any actions and outcomes (computed for models of up to 9 states)
SuppStep(M, S) ==
  {x \in {{t \in States(M) : /\ \E s \in S : M.T8[a][s][t] > 0 /\ M.O8[a][t][o] > 0} : a \in Actions(M), o \in Outcomes(M)} : x # {}}
RECURSIVE SuppClose(_, _, _)
SuppClose(M, done, frontier) ==
  IF frontier = {} THEN done
  ELSE LET nxt == TLCEval(UNION {SuppStep(M, S) : S \in frontier})
           d2 == TLCEval(done \cup frontier)
       IN SuppClose(M, d2, nxt \ d2)
ReachSupports(M) ==
  IF M.kind # "pomdp" \/ M.S > 9 THEN {} ELSE SuppClose(M, {}, {{s \in States(M) : M.b8[s] > 0}})
Reward(M, b, a) == Dot(b, M.Rc[a], PS)

\* a state that absorbs with zero reward under every action
AbsorbingZero(M, s) == \A a \in Actions(M) : M.T8[a][s][s] = M.k /\ M.Rc[a][s] = 0
TermMass(M, b) == SumSeq([s \in States(M) |-> IF AbsorbingZero(M, s) THEN b[s] ELSE 0])
IsTerminal(M, b) == \A s \in Supp(b) : AbsorbingZero(M, s)

----------------------------------------------------------------------------
(* Optimal value for models whose reachable belief set is finite.  Beliefs are *)
(* exact here: integer vectors divided by their gcd.                           *)
ISum(v) == SumSeq(v)
INorm(v) == LET g == GcdSeq(v, Len(v)) IN [i \in DOMAIN v |-> v[i] \div g]
IPush(M, v, a) == [t \in States(M) |-> SumSeq([s \in States(M) |-> v[s] * M.T8[a][s][t]])]
IJoint(M, v, a, o) ==
  LET w == IPush(M, v, a)
  IN IF M.kind = "mdp" THEN [t \in States(M) |-> IF t = o THEN w[t] * M.k ELSE 0]
     ELSE [t \in States(M) |-> w[t] * M.O8[a][t][o]]
ISucc(M, v) ==
  UNION {{INorm(x) : x \in {y \in {IJoint(M, v, a, o) : o \in Outcomes(M)} : \E t \in States(M) : y[t] > 0}}
         : a \in Actions(M)}
\* beliefs whose exact form has grown this far never close up again
BigBelief(M) == Min2(1000000, 2000000000 \div (M.k * M.k))
RECURSIVE Close(_, _, _, _)
Close(M, done, frontier, cap) ==
  IF frontier = {} \/ Cardinality(done) > cap THEN done \cup frontier
  ELSE IF \E v \in frontier : SumSeq(v) > BigBelief(M) THEN done \cup frontier
  ELSE LET nxt == UNION {ISucc(M, v) : v \in frontier}
           d2 == done \cup frontier
       IN Close(M, d2, nxt \ d2, cap)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

ReachCap == 150
\* all exactly reachable beliefs; MDPs use every state
ReachSeq(M) ==
  IF M.kind = "mdp" THEN [s \in States(M) |-> Unit(M.S, s, 1)]
  ELSE SetToSeq(Close(M, {}, {INorm(M.b8)}, ReachCap))
IndexOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
ToFixed(v) == LET n == ISum(v) IN [i \in DOMAIN v |-> Mul(v[i], PS, n)]

\* transition table over the closed set: for every belief and action the reward,
\* the outcome probabilities and the index of the successor (1 where impossible)
TableOf(M, bs) ==
  IF M.kind = "mdp"
  THEN [i \in DOMAIN bs |-> [a \in Actions(M) |->
          [r |-> M.Rc[a][i], p |-> [o \in Outcomes(M) |-> Mul(M.T8[a][i][o], PS, M.k)], n |-> [o \in Outcomes(M) |-> o]]]]
  ELSE
  [i \in DOMAIN bs |-> [a \in Actions(M) |->
     LET js == [o \in Outcomes(M) |-> IJoint(M, bs[i], a, o)]
         tot == M.k * M.k * ISum(bs[i])
     IN [r |-> Reward(M, ToFixed(bs[i]), a),
         p |-> [o \in Outcomes(M) |-> Mul(ISum(js[o]), PS, tot)],
         n |-> [o \in Outcomes(M) |-> IF ISum(js[o]) = 0 THEN 1 ELSE IndexOf(bs, INorm(js[o]))]]]]
QOf(M, e, V) == e.r + Mul(M.g, Dot(e.p, [o \in DOMAIN e.n |-> V[e.n[o]]], PS), PS)
Bellman(M, tab, V) == [i \in DOMAIN tab |-> MaxSeq([a \in DOMAIN tab[i] |-> QOf(M, tab[i][a], V)])]
\* the iteration is within rounding of its fixed point (at most 1e-6 / (1 - g) away)
Settled(V, W) == \A i \in DOMAIN V : Abs(V[i] - W[i]) <= 1
RECURSIVE Iterate(_, _, _, _)
Iterate(M, tab, V, k) ==
  LET W == TLCEval(Bellman(M, tab, V))
  IN IF k = 0 \/ Settled(V, W) THEN W ELSE Iterate(M, tab, W, k - 1)
\* [fin, b (fixed point beliefs), v (optimal values)]
Optimal(M) ==
  IF M.fin = 0 THEN [fin |-> FALSE, b |-> <<>>, v |-> <<>>, tab |-> <<>>]
  ELSE LET bs == TLCEval(ReachSeq(M))
       IN IF Len(bs) > ReachCap \/ (\E i \in DOMAIN bs : SumSeq(bs[i]) > BigBelief(M)) THEN [fin |-> FALSE, b |-> <<>>, v |-> <<>>, tab |-> <<>>]
          ELSE LET tab == TLCEval(TableOf(M, bs))
               IN [fin |-> TRUE, b |-> [i \in DOMAIN bs |-> ToFixed(bs[i])], tab |-> tab,
                   v |-> Iterate(M, tab, [i \in DOMAIN bs |-> 0], 2000)]
(* What holds in every POMDP, however many beliefs it has: no plan earns more  *)
(* than one that sees the state, and the best plan earns no less than repeating *)
(* one action.                                                                 *)
StateTab(M, as) ==
  [s \in States(M) |-> [k \in DOMAIN as |->
      [r |-> M.Rc[as[k]][s], p |-> [t \in States(M) |-> Mul(M.T8[as[k]][s][t], PS, M.k)], n |-> [t \in States(M) |-> t]]]]
Sandwich(M) ==
  IF M.kind # "pomdp" \/ M.g >= PS THEN [full |-> <<>>, blind |-> <<>>]
  ELSE LET zero == [s \in States(M) |-> 0]
       IN [full |-> Iterate(M, TLCEval(StateTab(M, [a \in Actions(M) |-> a])), zero, 2000),
           blind |-> [a \in Actions(M) |-> Iterate(M, TLCEval(StateTab(M, <<a>>)), zero, 2000)]]
BTOL == 300     \* belief tolerance (3e-7)
SameBelief(b, c) == \A s \in DOMAIN b : Abs(b[s] - c[s]) <= BTOL
OptIndex(opt, b) == {i \in DOMAIN opt.b : SameBelief(opt.b[i], b)}
=============================================================================
