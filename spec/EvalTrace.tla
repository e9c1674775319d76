------------------------------ MODULE EvalTrace ------------------------------
(* Policy evaluation (P14): simulated trials of a policy on a model, judged    *)
(* step by step against the model, the policy and the bookkeeping rules.       *)
(*                                                                             *)
(* A run is Problem, Table (the distinct states the simulation log shows),     *)
(* one Trial per logged trial, Report (score file and printed statistics), or  *)
(* Ended when the program refused.  The state carries the tracked belief of    *)
(* the simulator and of the planner along every trial, and the sums from which *)
(* the statistics must follow.                                                 *)
EXTENDS Model, SequencesExt, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, tab, trs, kb, cnt, pool, ci, viol
vars == <<l, pl, tab, trs, kb, cnt, pool, ci, viol>>
(* tab: table of shown states; trs: finished trials; kb: table index -> the    *)
(* tracked belief it was shown for; cnt: <<action, outcome>> -> <<deviation,   *)
(* variance>> of the outcome counts; pool: two such pairs over all runs; ci:   *)
(* number of runs, sums of the distances of the confidence limits in sigmas    *)
E == Trace[l]
M == Trace[pl]
QM == IF M.planner = 1 THEN M.qm ELSE M
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
TagR(vs, run) == {<<v[1], v[2], l, run>> : v \in vs}
Tag(vs) == TagR(vs, M.run)
Near(x, y, tol) == Abs(x - y) <= tol
\* six printed digits
Prec(v) == 3 + Mul(Abs(v), 6, 1000000)
Comparable == QM.A = M.A /\ QM.O = M.O

-----------------------------------------------------------------------------
(* the policy: one-step lookahead on its planes                                *)
PlVal(p, b) == Dot(p.al, b, PS)
Applies(p, S) == \A s \in S : p.m[s] = 1
W(b, S) == LET v == {PlVal(M.planes[i], b) : i \in {j \in DOMAIN M.planes : Applies(M.planes[j], S)}}
           IN IF v = {} THEN 0 - 2100000000 ELSE MaxSet(v)
SuppPost(K, S, a, o) ==
  {t \in States(K) : /\ \E s \in S : K.T8[a][s][t] > 0
                     /\ IF K.kind = "mdp" THEN t = o ELSE K.O8[a][t][o] > 0}
LookQ(K, b, S, a) ==
  Reward(K, b, a) + Mul(K.g, SumSeq([o \in Outcomes(K) |->
      LET P == SuppPost(K, S, a, o) IN
      IF P = {} \/ OutProb(K, b, a, o) <= 5 THEN 0
      ELSE Mul(OutProb(K, b, a, o), W(Posterior(K, b, a, o), P), PS)]), PS)
\* every quantity is comfortably away from rounding
Clear(b, S) == \A s \in S : b[s] >= 1000
ClearStep(K, b, S) ==
  /\ Clear(b, S)
  /\ \A a \in Actions(K), o \in Outcomes(K) :
       LET P == SuppPost(K, S, a, o) IN
       P = {} \/ (OutProb(K, b, a, o) >= 5000 /\ Clear(Posterior(K, b, a, o), P))
Terminal(S) == \A s \in S : AbsorbingZero(M, s)

(* what the log shows of a belief: its largest entries, at most four           *)
Shown(b, S, x) ==
  /\ Len(x) = Min2(4, Cardinality(S))
  /\ \A i \in DOMAIN x : /\ x[i][1] + 1 \in S
                         /\ Near(x[i][2], b[x[i][1] + 1], 1200)
                         /\ \A s \in S : (\A j \in DOMAIN x : x[j][1] + 1 # s) => b[s] <= x[i][2] + 1200
  /\ \A i, j \in DOMAIN x : i # j => x[i][1] # x[j][1]
ShownState(b, S, x) == IF M.kind = "mdp" THEN x = <<CHOOSE s \in S : TRUE>> ELSE Shown(b, S, x)

-----------------------------------------------------------------------------
(* one simulated step, folded along a trial                                    *)
Acc0 == [b |-> M.b0, S |-> Supp(M.b0), qb |-> QM.b0, qS |-> Supp(QM.b0), g |-> PS, R |-> 0, k |-> 0, mk |-> FALSE, dead |-> FALSE,
         at |-> 0, why |-> {}, rec |-> <<>>, seen |-> <<>>, dv |-> <<>>]
Stop(acc, w) == [acc EXCEPT !.dead = TRUE, !.why = @ \cup w]
StepWhy(acc, s) ==
  LET a == s[2] + 1 o == s[4] + 1 IN
  IF a \notin Actions(M) THEN {"the action is none of the model's"}
  ELSE IF o \notin Outcomes(M) THEN {"the outcome is none of the model's"}
  ELSE (IF acc.at # 0 /\ s[1] # acc.at THEN {"a step does not start where the last one ended"} ELSE {}) \cup
       (IF acc.mk \/ ShownState(acc.b, acc.S, tab[s[1]]) THEN {} ELSE {"the state at a step is not the one reached"}) \cup
       (IF acc.k > 0 /\ ~acc.mk /\ Terminal(acc.S) THEN {"a trial goes on in a terminal state"} ELSE {}) \cup
       (IF M.lim > 0 /\ acc.k >= M.lim THEN {"a trial goes on past the step limit"} ELSE {}) \cup
       (IF SuppPost(M, acc.S, a, o) = {} THEN {"an outcome that cannot occur"} ELSE {}) \cup
       (IF acc.mk \/ M.pol # "planes" \/ ~ClearStep(QM, acc.qb, acc.qS) THEN {}
        ELSE LET q == TLCEval([x \in Actions(QM) |-> LookQ(QM, acc.qb, acc.qS, x)])
             IN IF q[a] >= MaxSeq(q) - 100 - Mul(Abs(MaxSeq(q)), 1, 1000000) THEN {} ELSE {"the action is not the policy's choice"})
\* deviation and variance contributions, units of 1e-4
U4(p) == p \div 100000
Sq(p) == Mul(p, p, PS)
StepDev(p, a, o) ==
  LET s2 == SumSeq([i \in DOMAIN p |-> Sq(p[i])])
      s3 == SumSeq([i \in DOMAIN p |-> Mul(Sq(p[i]), p[i], PS)])
      m1 == SumSeq([i \in DOMAIN p |-> i * U4(p[i])])
      m2 == SumSeq([i \in DOMAIN p |-> i * i * U4(p[i])])
  IN [ao |-> a, o |-> o, p |-> p, d1 |-> U4(p[o]) - U4(s2), v1 |-> U4(s3) - U4(Sq(s2)), d2 |-> o * 10000 - m1, v2 |-> m2 - Mul(m1, m1, 10000)]
Step(acc, s) ==
  IF acc.dead THEN acc
  ELSE LET w == TLCEval(StepWhy(acc, s)) IN
  IF w # {} THEN Stop(acc, w)
  ELSE LET a == s[2] + 1 o == s[4] + 1
           p == TLCEval([x \in Outcomes(M) |-> OutProb(M, acc.b, a, x)])
           P == TLCEval(SuppPost(M, acc.S, a, o))
           lost == acc.mk \/ p[o] <= 5 \/ (\E x \in Outcomes(M) : SuppPost(M, acc.S, a, x) # {} /\ p[x] < 5000)
           nb == TLCEval(IF p[o] <= 5 THEN acc.b ELSE Posterior(M, acc.b, a, o))
           qP == TLCEval(SuppPost(QM, acc.qS, a, o))
           qp == OutProb(QM, acc.qb, a, o)
           qb == TLCEval(IF qP = {} \/ qp <= 5 THEN acc.qb ELSE Posterior(QM, acc.qb, a, o))
           r == Reward(M, acc.b, a)
       IN IF ~lost /\ ~ShownState(nb, P, tab[s[3]]) THEN Stop(acc, {"the next state is not the one the outcome leads to"})
          ELSE [b |-> nb, S |-> P, qb |-> qb, qS |-> IF qP = {} THEN acc.qS ELSE qP, g |-> Mul(acc.g, M.g, PS), R |-> acc.R + Mul(r, acc.g, PS),
                k |-> acc.k + 1, mk |-> lost \/ qP = {} \/ qp <= 5 \/ ~Clear(nb, P) \/ ~Clear(qb, qP), dead |-> FALSE, at |-> s[3], why |-> {},
                rec |-> IF M.cache = 1
                        THEN Append(acc.rec, [key |-> s[1], a |-> a, o |-> o, r |-> r, p |-> p[o],
                                              no |-> Cardinality({x \in Outcomes(M) : SuppPost(M, acc.S, a, x) # {}})])
                        ELSE acc.rec,
                seen |-> IF M.cache = 1 THEN Append(acc.seen, <<s[1], acc.b>>) ELSE acc.seen,
                dv |-> IF lost \/ (\A x \in Outcomes(M) : p[x] \in {0, PS}) THEN acc.dv ELSE Append(acc.dv, StepDev(p, a, o))]
EndWhy(acc, t) ==
  IF acc.dead THEN acc.why
  ELSE (IF acc.k = 0 THEN {"a trial without a step"} ELSE {}) \cup
       (IF t.term = 1 /\ ~acc.mk /\ ~Terminal(acc.S) THEN {"a trial ends as terminated in a state that is not terminal"} ELSE {}) \cup
       (IF t.term = 0 /\ acc.k # M.lim THEN {"a trial stops before its end"} ELSE {}) \cup
       (IF t.term = 0 /\ ~acc.mk /\ Terminal(acc.S) /\ acc.k > 0 THEN {"a trial in a terminal state is not reported as terminated"} ELSE {})

\* bounded deviation: 10 + 6.5 standard deviations
Plausible(d, v) == LET x == Abs(d) \div 10000 - 10 IN x <= 0 \/ Mul(x, x, 43) <= v \div 10000 + 1
AddDev(c, e) ==
  LET ks == {<<e.ao, x>> : x \in DOMAIN e.p}
      old(k) == IF k \in DOMAIN c THEN c[k] ELSE <<0, 0>>
      new(k) == <<old(k)[1] + (IF k[2] = e.o THEN 10000 ELSE 0) - U4(e.p[k[2]]), old(k)[2] + U4(e.p[k[2]]) - U4(Sq(e.p[k[2]]))>>
  IN [k \in DOMAIN c \cup ks |-> IF k \in ks THEN new(k) ELSE c[k]]
AddPool(c, e) == <<c[1] + e.d1, c[2] + e.v1, c[3] + e.d2, c[4] + e.v2>>
AddSeen(f, x) == IF x[1] \in DOMAIN f THEN (IF f[x[1]][2] = 0 \/ SameBelief(f[x[1]][1], x[2]) THEN f ELSE [f EXCEPT ![x[1]] = <<x[2], 0>>])
                 ELSE [k \in DOMAIN f \cup {x[1]} |-> IF k = x[1] THEN <<x[2], 1>> ELSE f[k]]

-----------------------------------------------------------------------------
(* statistics                                                                  *)
NB == Min2(M.n, 30)
First(i) == (i - 1) * (M.n \div NB) + Min2(i - 1, M.n % NB) + 1
Size(i) == M.n \div NB + (IF i <= M.n % NB THEN 1 ELSE 0)
Avg(f) == Dot(f, [i \in DOMAIN f |-> 1], Len(f))
Logged == IF M.nt < 0 THEN M.n ELSE Min2(M.n, M.nt)
BatchOf(i) == First(i)..(First(i) + Size(i) - 1)
(* with the cache, a batch's value counts every branch all of whose outcomes   *)
(* were drawn in the batch with the model's probabilities instead of the       *)
(* drawn frequencies                                                           *)
Steps(i) == FoldLeft(LAMBDA c, j : c \o trs[j].rec, <<>>, [x \in 1..Size(i) |-> First(i) + x - 1])
CountTab(q) ==
  LET ks == {<<q[i].key, q[i].a, q[i].o>> : i \in DOMAIN q}
      zero == [k \in ks |-> 0]
  IN FoldLeft(LAMBDA c, e : [c EXCEPT ![<<e.key, e.a, e.o>>] = @ + 1], zero, q)
Total(c, key, a) == LET ks == SetToSeq({k \in DOMAIN c : k[1] = key /\ k[2] = a}) IN SumSeq([i \in DOMAIN ks |-> c[ks[i]]])
Drawn(c, key, a) == Cardinality({k \in DOMAIN c : k[1] = key /\ k[2] = a})
BackVal(c, tt, acc, e) ==
  IF acc[2] THEN acc
  ELSE LET x == Mul(acc[1], M.g, PS)
           t == tt[<<e.key, e.a>>]
           y == IF t[2] < e.no THEN x ELSE Mul(x, e.p, PS)
           big == t[2] >= e.no /\ Mul(Abs(y), t[1], c[<<e.key, e.a, e.o>>] * 1000) > 1500000
           z == IF t[2] < e.no THEN x ELSE IF big THEN 0 ELSE Mul(y, t[1], c[<<e.key, e.a, e.o>>])
       IN <<e.r + z, big>>
BatchVal(i) ==
  LET q == TLCEval(Steps(i))
      c == TLCEval(CountTab(q))
      tt == TLCEval([ka \in {<<k[1], k[2]>> : k \in DOMAIN c} |-> <<Total(c, ka[1], ka[2]), Drawn(c, ka[1], ka[2])>>])
      v == TLCEval([j \in 1..Size(i) |-> FoldRight(LAMBDA e, acc : BackVal(c, tt, acc, e), trs[First(i) + j - 1].rec, <<0, FALSE>>)])
  IN [skip |-> \E j \in DOMAIN v : v[j][2], v |-> IF \E j \in DOMAIN v : v[j][2] THEN 0 ELSE Avg([j \in DOMAIN v |-> v[j][1]])]
Ambiguous == \/ \E k \in DOMAIN kb : kb[k][2] = 0
             \/ \E i, j \in DOMAIN kb : i < j /\ SameBelief(kb[i][1], kb[j][1])
MaxA(f) == MaxSet({0} \cup {Abs(f[i]) : i \in DOMAIN f})
(* confidence limits of the bootstrap of the mean                              *)
Interval(b, mean, lo, hi) ==
  LET n == Len(b)
      m == Avg(b)
      d == [i \in DOMAIN b |-> (b[i] - m) \div 1000]
      SS == SumSeq([i \in DOMAIN d |-> Mul(d[i], d[i], 1000)])       \* 1e-3
      var == SS \div (n * n)
      w == (hi - lo) \div 1000  u == (mean - lo) \div 1000  x == (hi - mean) \div 1000
  IN /\ lo <= mean + 1000 /\ mean <= hi + 1000
     /\ lo >= MinSet({b[i] : i \in DOMAIN b}) - 1000 /\ hi <= MaxSet({b[i] : i \in DOMAIN b}) + 1000
     /\ Mul(u, u, 1000) <= 11 * var + Mul(7, MaxA(d), 1000) + 100
     /\ Mul(x, x, 1000) <= 11 * var + Mul(7, MaxA(d), 1000) + 100
     /\ Mul(w + 2, w + 2, 1000) + 100 >= 4 * var
\* greatest y in lo..hi with y*y <= x
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
(* distances of the limits from the mean in units of its standard deviation    *)
(* (1e-3), for well-behaved sets of batch values                               *)
AddCI(c, b, mean, lo, hi) ==
  LET n == Len(b)
      m == Avg(b)
      d == [i \in DOMAIN b |-> (b[i] - m) \div 1000]
      SS == SumSeq([i \in DOMAIN d |-> Mul(d[i], d[i], 1000)])
      var == SS \div (n * n)
      sd == Root(var * 1000, 0, 46340)
  IN IF n < 30 \/ MaxA(d) > 100000 \/ var < 50 \/ var > 2000000 \/ Mul(MaxA(d), MaxA(d), 1000) * 5 > SS THEN c
     ELSE <<c[1] + 1, c[2] + Mul((mean - lo) \div 1000, 1000, sd), c[3] + Mul((hi - mean) \div 1000, 1000, sd)>>
LimitsFit == ci[1] < 8 \/ (/\ Near(ci[2] \div ci[1], 1960, 150) /\ Near(ci[3] \div ci[1], 1960, 150) /\ Near((ci[2] + ci[3]) \div (2 * ci[1]), 1960, 60))
StatWhy ==
  LET whole == Logged = M.n
      murky == \E i \in DOMAIN trs : trs[i].mk
  IN
  IF E.ok = 0 \/ E.sok = 0 THEN {"the statistics are missing"}
  ELSE (IF Len(trs) = Logged THEN {} ELSE {"the number of logged trials is not the requested one"}) \cup
       (IF Len(E.b) = NB THEN {} ELSE {"the number of batches is wrong"}) \cup
       (IF Len(E.sc) = (IF M.cache = 1 THEN NB ELSE M.n) THEN {} ELSE {"the score file does not have a line per trial"}) \cup
       (IF Len(trs) # Logged \/ Len(E.b) # NB \/ Len(E.sc) # (IF M.cache = 1 THEN NB ELSE M.n) THEN {} ELSE
        (IF M.cache = 1
         THEN (IF \A i \in DOMAIN E.b : Near(E.b[i], E.sc[i], 52 + Prec(E.b[i])) THEN {} ELSE {"the score file and the batch values differ"}) \cup
              (IF ~whole \/ murky \/ Ambiguous THEN {} ELSE
               LET bad == {i \in 1..NB : LET v == BatchVal(i) IN ~v.skip /\ ~Near(v.v, E.b[i], 55 + Prec(v.v))}
               IN IF bad = {} THEN {} ELSE {"a batch value is not the reweighted mean of its trials"})
         ELSE (IF \A i \in DOMAIN trs : trs[i].mk \/ Near(trs[i].R, E.sc[i], 5 + Prec(trs[i].R)) THEN {} ELSE {"a score is not the discounted reward of its trial"}) \cup
              (IF \A i \in 1..NB : LET v == [j \in 1..Size(i) |-> E.sc[First(i) + j - 1]] IN Near(Avg(v), E.b[i], 52 + Prec(MaxA(v)))
               THEN {} ELSE {"a batch value is not the mean of its trials"})) \cup
        (IF Near(Avg(E.b), E.mean, 560) THEN {} ELSE {"the reported mean is not the mean of the trials"}) \cup
        (IF Interval(E.b, E.mean, E.lo, E.hi) THEN {} ELSE {"the confidence limits do not fit the trials"}))

-----------------------------------------------------------------------------
Init == l = 1 /\ pl = 0 /\ tab = <<>> /\ trs = <<>> /\ kb = <<>> /\ cnt = <<>> /\ pool = <<0, 0, 0, 0>> /\ ci = <<0, 0, 0>> /\ viol = {}
Problem == E.e = "Problem" /\ pl' = l /\ tab' = <<>> /\ trs' = <<>> /\ kb' = <<>> /\ cnt' = <<>> /\ UNCHANGED <<pool, ci, viol>>
Table == E.e = "Table" /\ tab' = E.st /\ viol' = viol \cup Tag(
           Ob("P14", "the simulation log has lines of no known form", E.junk = 0) \cup
           Ob("P14", "models of different shape are not refused", Comparable))
         /\ UNCHANGED <<pl, trs, kb, cnt, pool, ci>>
Trial ==
  /\ E.e = "Trial"
  /\ LET acc == TLCEval(FoldLeft(Step, Acc0, E.steps))
         why == EndWhy(acc, E)
     IN /\ viol' = viol \cup Tag(UNION {Ob("P14", x, FALSE) : x \in why})
        /\ trs' = Append(trs, [R |-> acc.R, mk |-> acc.mk \/ acc.dead, rec |-> acc.rec])
        /\ cnt' = TLCEval(FoldLeft(AddDev, cnt, acc.dv))
        /\ pool' = TLCEval(FoldLeft(AddPool, pool, acc.dv))
        /\ kb' = TLCEval(FoldLeft(AddSeen, kb, acc.seen))
  /\ UNCHANGED <<pl, tab, ci>>
Report ==
  /\ E.e = "Report"
  /\ viol' = viol \cup Tag((IF viol # {} THEN {} ELSE UNION {Ob("P14", x, FALSE) : x \in StatWhy}) \cup
       Ob("P14", "outcomes do not occur with the model's probabilities", \A k \in DOMAIN cnt : Plausible(cnt[k][1], cnt[k][2])))
  /\ ci' = IF E.ok = 1 THEN AddCI(ci, E.b, E.mean, E.lo, E.hi) ELSE ci
  /\ UNCHANGED <<pl, tab, trs, kb, cnt, pool>>
Ended ==
  /\ E.e = "Ended"
  /\ viol' = viol \cup Tag(
       Ob("P14", "the evaluation did not end", E.to = 0) \cup
       Ob("P14", "the evaluation crashed", E.sig = 0) \cup
       Ob("P14", "a valid evaluation was refused", E.sig = 1 \/ E.to = 1 \/ ~Comparable) \cup
       Ob("P14", "a refusal without a message", E.msg = 1))
  /\ UNCHANGED <<pl, tab, trs, kb, cnt, pool, ci>>
\* the end of a file of runs: the outcomes of all of them together
Pool ==
  /\ E.e = "Pool"
  /\ viol' = viol \cup TagR(Ob("P14", "outcomes of all runs together do not occur with the models' probabilities",
                              Plausible(pool[1], pool[2]) /\ Plausible(pool[3], pool[4])) \cup
              Ob("P14", "the confidence limits of all runs together are not the 95% limits of the mean", LimitsFit), 999999)
  /\ UNCHANGED <<pl, tab, trs, kb, cnt, pool, ci>>
(* how often every outcome was drawn over many steps from a few states, whose  *)
(* shown beliefs are complete                                                  *)
TallyWhy(q) ==
  LET b(k) == [s \in States(M) |-> SumSeq([i \in DOMAIN tab[k] |-> IF tab[k][i][1] + 1 = s THEN tab[k][i][2] ELSE 0])]
      ks == {<<q[i][1], q[i][2] + 1>> : i \in DOMAIN q}
      p == TLCEval([k \in ks |-> [o \in Outcomes(M) |-> OutProb(M, b(k[1]), k[2], o)]])
      n == TLCEval([k \in ks |-> SumSeq([i \in DOMAIN q |-> IF q[i][1] = k[1] /\ q[i][2] + 1 = k[2] THEN q[i][4] ELSE 0])])
      c == TLCEval([k \in ks |-> [o \in Outcomes(M) |-> SumSeq([i \in DOMAIN q |-> IF q[i][1] = k[1] /\ q[i][2] + 1 = k[2] /\ q[i][3] + 1 = o THEN q[i][4] ELSE 0])]])
      kq == SetToSeq(ks)
      all == [o \in Outcomes(M) |-> <<SumSeq([i \in DOMAIN kq |-> c[kq[i]][o] - Mul(n[kq[i]], p[kq[i]][o], PS)]),
                                      SumSeq([i \in DOMAIN kq |-> Mul(n[kq[i]], p[kq[i]][o] - Sq(p[kq[i]][o]), PS)])>>]
      m(k) == SumSeq([o \in Outcomes(M) |-> o * U4(p[k][o])])
      v(k) == SumSeq([o \in Outcomes(M) |-> o * o * U4(p[k][o])]) - Mul(m(k), m(k), 10000)
      d2 == SumSeq([i \in DOMAIN kq |-> SumSeq([o \in Outcomes(M) |-> o * c[kq[i]][o]]) - Mul(n[kq[i]], m(kq[i]), 10000)])
      v2 == SumSeq([i \in DOMAIN kq |-> Mul(n[kq[i]], v(kq[i]), 10000)])
      fits(d, w) == LET x == Abs(d) - 10 IN x <= 0 \/ Mul(x, x, 43) <= w + 1
  IN /\ \A k \in ks : \A o \in Outcomes(M) : fits(c[k][o] - Mul(n[k], p[k][o], PS), Mul(n[k], p[k][o] - Sq(p[k][o]), PS))
     /\ \A o \in Outcomes(M) : fits(all[o][1], all[o][2])
     /\ fits(d2, v2)
Tally == /\ E.e = "Tally"
         /\ viol' = viol \cup Tag(Ob("P14", "outcomes drawn many times do not occur with the model's probabilities", TallyWhy(E.q)))
         /\ UNCHANGED <<pl, tab, trs, kb, cnt, pool, ci>>
Next == l <= N /\ l' = l + 1 /\ (Problem \/ Tally \/ Table \/ Trial \/ Report \/ Ended \/ Pool)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, ci |-> ci, pool |-> pool, viol |-> viol]
=============================================================================
