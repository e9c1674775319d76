----------------------------- MODULE BoundsTrace -----------------------------
(* The planner's bound store as a state machine: visited beliefs with stored   *)
(* bounds, lower-bound planes, upper-bound points and corners.  A recorded run *)
(* of the real code is a behaviour of this machine; every step is checked      *)
(* against the transition relation the properties prescribe:                   *)
(*   P01 soundness against the optimal value, P02 monotonicity, P03 exact      *)
(*   backups, P10 pruning/masking/caching/indexing, P13 belief dynamics,       *)
(*   P20 greedy queries.                                                       *)
(* The machine is deterministic (the log names the choices); a step that the   *)
(* relation forbids is recorded in viol.                                       *)
EXTENDS Model, Json, IOUtils

CONSTANT Props            \* property ids whose obligations are evaluated

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
ProblemLines == {i \in 1..N : Trace[i].e = "Problem"}
NeedOpt == Props \cap {"P01", "P08"} # {}
OptTab == TLCEval([i \in ProblemLines |->
            IF NeedOpt THEN Optimal(Trace[i]) ELSE [fin |-> FALSE, b |-> <<>>, v |-> <<>>, tab |-> <<>>]])

SandTab == TLCEval([i \in ProblemLines |->
            IF NeedOpt THEN Sandwich(Trace[i]) ELSE [full |-> <<>>, blind |-> <<>>]])
SupTab == TLCEval([i \in ProblemLines |-> IF Props \cap {"P08", "P10"} # {} THEN ReachSupports(Trace[i]) ELSE {}])
NEG == -2100000000
VTOL == 30        \* agreement of recomputed values (3e-5)
STOL == 100       \* soundness against the optimal value (1e-4)
MTOL == 10        \* monotonicity (1e-5)
PTOL == 5         \* probabilities (5e-9)

VARIABLES l, pl, nodes, planes, pts, corner, cnt, last, viol
vars == <<l, pl, nodes, planes, pts, corner, cnt, last, viol>>

E == Trace[l]
M == Trace[pl]
Opt == OptTab[pl]
Sand == SandTab[pl]
\* every belief that can be met has a plane that applies to it
AllCovered(pls) == \A S \in SupTab[pl] : \E i \in DOMAIN pls : \A s \in S : pls[i].m[s] = 1

On(p) == p \in Props
\* one obligation: name reported when the condition fails
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Near(x, y, tol) == Abs(x - y) <= tol
Range(f) == {f[i] : i \in DOMAIN f}

-----------------------------------------------------------------------------
(* lower-bound planes: function id -> [a, al, m]                               *)
Applies(p, b) == \A s \in DOMAIN b : b[s] > 0 => p.m[s] = 1
PlVal(p, b) == Dot(p.al, b, PS)
Vals(pls, b) == {PlVal(pls[i], b) : i \in {j \in DOMAIN pls : Applies(pls[j], b)}}
W(pls, b) == LET v == Vals(pls, b) IN IF v = {} THEN NEG ELSE MaxSet(v)

(* upper-bound points (sawtooth): id -> [v, b], and the corner values.         *)
(* The interpolation ratio is a quotient of rounded numbers, so the value is   *)
(* bracketed: <<low, high>>.                                                   *)
PtBracket(pt, c, b) ==
  LET base == Dot(c, b, PS)
      d == pt.v - Dot(c, pt.b, PS)
      sup == Supp(pt.b)
  IN IF d >= 0 \/ \E s \in sup : b[s] = 0 THEN <<base, base>>
     ELSE LET r == MinSet({Mul(b[s], PS, pt.b[s]) : s \in {t \in sup : Mul(b[t], 1, pt.b[t]) <= 1}} \cup {PS})
              mn == MinSet({pt.b[s] : s \in sup})
              err == 2 + Mul(Abs(d), 2, mn)
              v == base + Mul(r, d, PS)
          IN <<v - err, v + err>>
UAmong(ps, c, b) ==
  LET br == {PtBracket(ps[i], c, b) : i \in DOMAIN ps} \cup {<<Dot(c, b, PS), Dot(c, b, PS)>>}
  IN <<MinSet({x[1] : x \in br}), MinSet({x[2] : x \in br})>>
\* With support lists the documentation restricts a lookup to the points that
\* support one of the belief's possible states; any one of them may be used.
USet(ps, c, b) ==
  IF M.ssl = 0 THEN {UAmong(ps, c, b)}
  ELSE {UAmong([i \in {j \in DOMAIN ps : ps[j].b[s] > 0} |-> ps[i]], c, b) : s \in Supp(b)}
U(ps, c, b) == LET us == USet(ps, c, b)
               IN <<MinSet({x[1] : x \in us}), MaxSet({x[2] : x \in us})>>
\* v is what a lookup at b may answer
IsU(ps, c, b, v, tol) == \E u \in USet(ps, c, b) : v >= u[1] - tol /\ v <= u[2] + tol

\* The program treats a belief within 1e-6 of a corner as that corner; once such
\* beliefs are visited upper bounds are exact up to that mass times the range.
CSl == IF M.ubr = "sawtooth" /\ cnt.tiny
       THEN 2 + Mul(2, MaxSet({Abs(corner[i]) : i \in DOMAIN corner}), VS) ELSE 0
IsMP == M.lbr = "maxPlanes" /\ M.hasL = 1
IsST == M.ubr = "sawtooth" /\ M.hasU = 1

-----------------------------------------------------------------------------
(* applying the differences an event logs                                      *)
AddPlanes(old, ev) ==
  LET gone == Range(ev.rp)
      new == [x \in Range([k \in DOMAIN ev.np |-> ev.np[k].i]) |->
                LET k == CHOOSE k \in DOMAIN ev.np : ev.np[k].i = x
                IN [a |-> ev.np[k].a, al |-> ev.np[k].al, m |-> ev.np[k].m]]
  IN [x \in (DOMAIN old \ gone) \cup DOMAIN new |-> IF x \in DOMAIN new THEN new[x] ELSE old[x]]
AddPts(old, ev) ==
  LET gone == Range(ev.rb)
      new == [x \in Range([k \in DOMAIN ev.nb |-> ev.nb[k].i]) |->
                LET k == CHOOSE k \in DOMAIN ev.nb : ev.nb[k].i = x
                IN [v |-> ev.nb[k].v, b |-> ev.nb[k].b]]
  IN [x \in (DOMAIN old \ gone) \cup DOMAIN new |-> IF x \in DOMAIN new THEN new[x] ELSE old[x]]

\* bounds of belief b against the optimal value where it is known, and in any
\* case against perfect information and blind repetition
SoundAt(b, lb, ub, oi, hasL, hasU) ==
  /\ \A k \in oi : /\ (hasL => lb <= Opt.v[k] + STOL)
                   /\ (hasU => ub >= Opt.v[k] - STOL - CSl)
  /\ (hasL /\ Sand.full # <<>>) => lb <= Dot(Sand.full, b, PS) + STOL
  /\ (hasU /\ Sand.full # <<>>) =>
        \A a \in DOMAIN Sand.blind : ub >= Dot(Sand.blind[a], b, PS) - STOL - CSl
Sound(n, lb, ub, hasL, hasU) == SoundAt(n.b, lb, ub, n.oi, hasL, hasU)
\* what a plane promises at a state, no plan starting there can exceed
PlaneStates(p) == Sand.full # <<>> => \A s \in States(M) : p.m[s] = 1 => p.al[s] <= Sand.full[s] + STOL
CornerStates(c) == Sand.full # <<>> => \A s \in DOMAIN c : \A a \in DOMAIN Sand.blind : c[s] >= Sand.blind[a][s] - STOL - CSl
\* every new plane is a lower bound wherever it applies
PlaneSound(p) == \A k \in DOMAIN Opt.b : Applies(p, Opt.b[k]) => PlVal(p, Opt.b[k]) <= Opt.v[k] + STOL
UpperSound(ps, c) == \A k \in DOMAIN Opt.b : U(ps, c, Opt.b[k])[2] >= Opt.v[k] - STOL - CSl

-----------------------------------------------------------------------------
Fresh == [nbk |-> 0, nex |-> 0, tiny |-> FALSE, faint |-> FALSE]
NoLast == [id |-> 0, ub |-> 0]

Init == /\ l = 1 /\ pl = 0 /\ nodes = <<>> /\ planes = <<>> /\ pts = <<>> /\ corner = <<>>
        /\ cnt = Fresh /\ last = NoLast /\ viol = {}

Tag(vs) == {<<v[1], v[2], l, IF E.e = "Problem" THEN E.run ELSE M.run>> : v \in vs}

Problem ==
  /\ E.e = "Problem"
  /\ pl' = l /\ nodes' = <<>> /\ planes' = <<>> /\ pts' = <<>> /\ corner' = <<>>
  /\ cnt' = Fresh /\ last' = NoLast
  /\ UNCHANGED viol

InitEv ==
  /\ E.e = "Init"
  /\ planes' = AddPlanes(<<>>, E) /\ pts' = AddPts(<<>>, E) /\ corner' = E.cp
  /\ viol' = viol \cup Tag(
       Ob("P01", "initial plane above the optimal value",
          IsMP => \A k \in DOMAIN E.np : (Opt.fin => PlaneSound(E.np[k])) /\ PlaneStates(E.np[k])) \cup
       Ob("P01", "initial upper bound below the optimal value",
          IsST => (Opt.fin => UpperSound(AddPts(<<>>, E), E.cp)) /\ CornerStates(E.cp)) \cup
       Ob("P08", "initial plane above the optimal value",
          IsMP => \A k \in DOMAIN E.np : (Opt.fin => PlaneSound(E.np[k])) /\ PlaneStates(E.np[k])))
  /\ UNCHANGED <<pl, nodes, cnt, last>>

\* a belief whose nonzero entries are all well above rounding
Coarse(b) == \A s \in DOMAIN b : b[s] = 0 \/ b[s] >= 1000
NodeEv ==
  /\ E.e = "Node"
  /\ LET oi == OptIndex(Opt, E.b)
         term == IsTerminal(M, E.b)
         n == [lb |-> E.lb, ub |-> E.ub, b |-> E.b, term |-> E.term, oi |-> oi, x |-> 0]
     IN /\ nodes' = Append(nodes, n)
        /\ viol' = viol \cup Tag(
             Ob("P03", "node number", E.id = Len(nodes) + 1) \cup
             Ob("P03", "belief represented twice",
                Coarse(E.b) => \A i \in DOMAIN nodes : nodes[i].b # E.b) \cup
             Ob("P13", "node belief sums to one", Near(SumSeq(E.b), PS, 20)) \cup
             Ob("P13", "terminal flag", (E.term = 1) = term) \cup
             Ob("P03", "root is the initial belief", nodes = <<>> => SameBelief(E.b, M.b0)) \cup
             Ob("P03", "visited belief is not reachable", Opt.fin => oi # {}) \cup
             Ob("P01", "initial bound of a new node does not contain the optimal value",
                Sound(n, E.lb, E.ub, M.hasL = 1, M.hasU = 1)) \cup
             Ob("P01", "terminal node",
                term => /\ (M.hasL = 1 => E.lb <= VTOL) /\ (M.hasU = 1 => E.ub >= -VTOL)) \cup
             Ob("P01", "bounds crossed", (M.hasL = 1 /\ M.hasU = 1) => E.lb <= E.ub + STOL) \cup
             Ob("P10", "initial lower bound is not the best plane",
                IsMP => Near(E.lb, W(planes, E.b), VTOL)) \cup
             Ob("P10", "initial upper bound is not the interpolated one",
                IsST => IF term THEN E.ub <= VTOL ELSE IsU(pts, corner, E.b, E.ub, VTOL)))
  /\ cnt' = [cnt EXCEPT !.tiny = @ \/ \E s \in DOMAIN E.b : E.b[s] > 0 /\ E.b[s] <= 1100]
  /\ UNCHANGED <<pl, planes, pts, corner, last>>

-----------------------------------------------------------------------------
(* expansion of a fringe node: rewards, outcome probabilities and successors   *)
PostSuppOf(b, a, o) == {t \in States(M) : \E s \in Supp(b) : M.T8[a][s][t] > 0 /\ M.O8[a][t][o] > 0}
\* some successor belief lost a state whose probability fell below 1e-10
Faint(n, Q, ns) ==
  M.kind = "pomdp" /\ \E a \in DOMAIN Q \cap Actions(M) : \E o \in DOMAIN Q[a].o \cap Outcomes(M) :
     LET sup == PostSuppOf(n.b, a, o)
         sid == Q[a].o[o][2]
     IN IF sid = 0 THEN sup # {} ELSE sup # Supp(ns[sid].b)
ExpandObs(n, Q, ns) ==
  Ob("P03", "number of actions", Len(Q) = M.A) \cup
  UNION {LET q == Q[a] IN
    Ob("P13", "expected reward", Near(q.r, Reward(M, n.b, a), VTOL)) \cup
    Ob("P03", "expected reward", Near(q.r, Reward(M, n.b, a), VTOL)) \cup
    (IF M.kind = "mdp" THEN
       \* successors may be listed in any order; they are compared as a distribution
       LET want == Push(M, n.b, a)
           have(t) == {k \in DOMAIN q.o : q.o[k][2] > 0 /\ ns[q.o[k][2]].b[t] = PS}
           ok == /\ \A k \in DOMAIN q.o : q.o[k][1] > 0 => q.o[k][2] > 0
                 /\ \A k \in DOMAIN q.o : q.o[k][2] > 0 =>
                      \E t \in States(M) : ns[q.o[k][2]].b[t] = PS /\ want[t] > 0
                 /\ \A t \in States(M) : want[t] > 0 =>
                      /\ have(t) # {}
                      /\ Near(SumSeq([k \in DOMAIN q.o |-> IF k \in have(t) THEN q.o[k][1] ELSE 0]), want[t], PTOL)
       IN Ob("P13", "outcome distribution", ok) \cup Ob("P03", "outcome distribution", ok)
     ELSE
       Ob("P03", "number of outcomes", Len(q.o) = M.O) \cup
       UNION {LET p == OutProb(M, n.b, a, o)
                  e == q.o[o]
                  okp == /\ Near(e[1], p, PTOL) \/ (e[1] = 0 /\ p <= PTOL)
                         /\ (p > PTOL => e[2] > 0)
                         /\ (PostSuppOf(n.b, a, o) = {} => e[2] = 0)
                  okb == (e[2] > 0 /\ p > 100000) =>
                            LET want == Posterior(M, n.b, a, o)
                                got == ns[e[2]].b
                                \* rounding of the prior is amplified by 1/p
                                tol == 20 + Mul(20, PS, p)
                            IN \A t \in States(M) : Near(want[t], got[t], tol)
                  oks == (e[2] > 0 /\ Coarse(n.b)) =>
                            /\ Supp(ns[e[2]].b) \subseteq PostSuppOf(n.b, a, o)
                            /\ \A t \in PostSuppOf(n.b, a, o) :
                                   (p > 100000 /\ Posterior(M, n.b, a, o)[t] > 100) => ns[e[2]].b[t] > 0
              IN Ob("P13", "outcome probability", okp) \cup Ob("P03", "outcome probability", okp) \cup
                 Ob("P13", "posterior belief", okb) \cup Ob("P03", "successor is not the posterior", okb) \cup
                 Ob("P13", "posterior support", oks)
              : o \in DOMAIN q.o \cap Outcomes(M)})
    : a \in DOMAIN Q \cap Actions(M)}

\* outcomes of an expanded node, as logged at expansion: action -> seq of [p, successor id]
OutsOf(Q) == [a \in DOMAIN Q |-> [r |-> Q[a].r, o |-> Q[a].o]]

QWith(q, val(_)) == q.r + Mul(M.g, SumSeq([k \in DOMAIN q.o |->
                       IF q.o[k][2] > 0 THEN Mul(q.o[k][1], val(q.o[k][2]), PS) ELSE 0]), PS)

(* the lower-bound planes one backup at belief b may produce for action a:     *)
(* reward plus discounted projection of one best plane per outcome             *)
Proj(p, a, o, mask) ==
  [s \in States(M) |-> IF mask[s] = 0 THEN 0 ELSE
      SumSeq([t \in States(M) |-> IF p.m[t] = 0 THEN 0 ELSE
         Mul(Mul(M.Tt[a][t][s], M.Oc[a][o][t], PS), p.al[t], PS)])]
SameVec(x, y, mask, tol) == \A s \in DOMAIN x : mask[s] = 1 => Near(x[s], y[s], tol)
RECURSIVE Combos(_, _)
Combos(cands, k) ==
  IF k = 0 THEN {[s \in States(M) |-> 0]}
  ELSE LET rest == Combos(cands, k - 1)
       IN IF Cardinality(rest) * Cardinality(cands[k]) > 600 THEN {}   \* too many ties: not decided
          ELSE TLCEval({[s \in States(M) |-> x[s] + y[s]] : x \in rest, y \in cands[k]})
\* best planes at a belief, within tolerance of the maximum (or of floor, when allowed)
BestAt(pls, b, floor) ==
  LET w == W(pls, b)
      lim == IF M.ep = 1 \/ cnt.faint THEN Min2(w, floor) ELSE w
  IN {i \in DOMAIN pls : Applies(pls[i], b) /\ PlVal(pls[i], b) >= lim - VTOL}
ExactPlane(p, n, q, a, pls, ns) ==
  LET \* masked planes are only meaningful on their mask
      cands == [o \in Outcomes(M) |->
         LET sid == q.o[o][2]
         IN IF sid > 0
            THEN {Proj(pls[i], a, o, p.m) : i \in BestAt(pls, ns[sid].b, ns[sid].lb)}
            ELSE IF M.mask = 1 THEN {[s \in States(M) |-> 0]}
            ELSE {Proj(pls[i], a, o, p.m) : i \in BestAt(pls, n.b, n.lb)}]
      sums == Combos(cands, M.O)
      \* Beliefs drop what is left of a state below 1e-10, and with it the state's
      \* place in a mask.  Where a state leads to one that a candidate does not
      \* cover, the backup is not determined (P01 limits what it may claim there).
      open == IF M.mask = 0 THEN {} ELSE
         {s \in States(M) : \E o \in Outcomes(M), t \in States(M) :
            /\ M.T8[a][s][t] > 0 /\ M.O8[a][t][o] > 0
            /\ LET sid == q.o[o][2]
               IN sid = 0 \/ ns[sid].b[t] = 0}
  IN sums = {} \/ \E v \in sums :
       SameVec(p.al, [s \in States(M) |-> M.Rc[a][s] + Mul(M.g, v[s], PS)],
               [s \in States(M) |-> IF s \in open THEN 0 ELSE p.m[s]], VTOL)

\* stored bounds after the logged changes
ApplyChg(ns, chg) ==
  [i \in DOMAIN ns |->
     IF \E k \in DOMAIN chg : chg[k][1] = i
     THEN LET k == CHOOSE k \in DOMAIN chg : chg[k][1] = i
          IN [ns[i] EXCEPT !.lb = chg[k][2], !.ub = chg[k][3]]
     ELSE ns[i]]
ChgObs(ns, chg) ==
  UNION {LET c == chg[k]
             n == ns[c[1]]
         IN Ob("P02", "backing up one state loosened another",
               /\ (M.hasL = 1 => c[2] >= n.lb - MTOL) /\ (M.hasU = 1 => c[3] <= n.ub + MTOL + CSl)) \cup
            Ob("P01", "changed bound does not contain the optimal value",
               Sound(n, c[2], c[3], M.hasL = 1, M.hasU = 1))
         : k \in DOMAIN chg}

UpdEv ==
  /\ E.e = "Upd" /\ E.id \in DOMAIN nodes
  /\ LET n == nodes[E.id]
         xl == IF E.fr = 1 THEN l ELSE n.x
         q == Trace[xl].Q                      \* outcomes recorded at expansion
         ns1 == [nodes EXCEPT ![E.id] = [n EXCEPT !.lb = E.lb, !.ub = E.ub, !.x = xl]]
         ns2 == ApplyChg(ns1, E.chg)
         pl2 == AddPlanes(planes, E)
         pt2 == AddPts(pts, E)
         \* the planes that were there when the backup was computed
         acts == DOMAIN q \cap DOMAIN E.qu
         c2 == [cnt EXCEPT !.nbk = @ + 1, !.nex = @ + E.fr,
                           !.faint = @ \/ (E.fr = 1 /\ M.mask = 1 /\ Faint(n, E.Q, nodes))]
         qlb(a) == QWith(q[a], LAMBDA i : nodes[i].lb)
         qub(a) == QWith(q[a], LAMBDA i : nodes[i].ub)
         qW(a) == QWith(q[a], LAMBDA i : W(planes, nodes[i].b))
         qU1(a) == QWith(q[a], LAMBDA i : U(pts, corner, nodes[i].b)[1])
         qU2(a) == QWith(q[a], LAMBDA i : U(pts, corner, nodes[i].b)[2])
         mxl == MaxSeq(E.ql)
     IN /\ nodes' = ns2 /\ planes' = pl2 /\ pts' = pt2 /\ corner' = E.cp
        /\ cnt' = c2 /\ last' = [id |-> E.id, ub |-> n.ub]
        /\ viol' = viol \cup Tag(
           \* ---- P01 / P02
           Ob("P01", "backed-up bound does not contain the optimal value",
              Sound(n, E.lb, E.ub, M.hasL = 1, M.hasU = 1)) \cup
           Ob("P01", "bounds crossed", (M.hasL = 1 /\ M.hasU = 1) => E.lb <= E.ub + STOL) \cup
           Ob("P01", "new plane above the optimal value",
              IsMP => \A k \in DOMAIN E.np : (Opt.fin => PlaneSound(E.np[k])) /\ PlaneStates(E.np[k])) \cup
           Ob("P08", "new plane above the optimal value",
              IsMP => \A k \in DOMAIN E.np : (Opt.fin => PlaneSound(E.np[k])) /\ PlaneStates(E.np[k])) \cup
           Ob("P08", "plane without a valid action",
              \A k \in DOMAIN E.np : E.np[k].a \in 0..(M.A - 1)) \cup
           Ob("P01", "new point or corner below the optimal value",
              (IsST /\ (E.nb # <<>> \/ E.cp # corner)) => (Opt.fin => UpperSound(pt2, E.cp)) /\ CornerStates(E.cp)) \cup
           Ob("P02", "lower bound decreased", M.hasL = 1 => E.lb >= n.lb - MTOL) \cup
           Ob("P02", "upper bound increased", M.hasU = 1 => E.ub <= n.ub + MTOL + CSl) \cup
           ChgObs(ns1, E.chg) \cup
           \* ---- P13 / P03: expansion
           (IF E.fr = 1 THEN ExpandObs(n, E.Q, nodes) ELSE {}) \cup
           Ob("P03", "successors change after expansion", E.fr = 0 => n.x > 0) \cup
           Ob("P03", "expanded twice", E.fr = 1 => n.x = 0) \cup
           Ob("P03", "counters", /\ E.nbk = c2.nbk /\ E.nex = c2.nex
                                 /\ E.nto = Len(nodes) /\ E.lks = Len(nodes)) \cup
           \* ---- P03: lower bound
           Ob("P03", "lower bound lookahead (point)",
              (M.hasL = 1 /\ M.lbr = "point") =>
                 \* the old ones of a self loop are the ones used
                 /\ \A a \in DOMAIN q : Near(E.ql[a], qlb(a), VTOL)
                 /\ Near(E.lb, Max2(n.lb, mxl), VTOL)) \cup
           Ob("P03", "lower bound lookahead (planes)",
              IsMP => /\ \A a \in DOMAIN q :
                           /\ E.ql[a] >= qlb(a) - VTOL
                           /\ E.ql[a] <= qW(a) + VTOL
                           /\ ((M.ep = 0 /\ ~c2.faint) => E.ql[a] >= qW(a) - VTOL)
                      /\ E.lb >= mxl - VTOL
                      /\ E.lb <= Max2(mxl, n.lb) + VTOL) \cup
           Ob("P03", "new plane is not an exact backup",
              IsMP => /\ Len(E.np) <= 1
                      /\ \A k \in DOMAIN E.np :
                           LET p == E.np[k] IN
                           /\ p.a + 1 \in DOMAIN q
                           /\ Near(PlVal(p, n.b), mxl, VTOL)
                           /\ E.ql[p.a + 1] >= mxl - VTOL
                           /\ \A s \in States(M) : p.m[s] = (IF M.mask = 1 /\ n.b[s] = 0 THEN 0 ELSE 1)
                           /\ ExactPlane(p, n, q[p.a + 1], p.a + 1, planes, nodes)) \cup
           Ob("P03", "backup left no plane attaining its value",
              IsMP => W(pl2, n.b) >= mxl - VTOL) \cup
           \* ---- P03: upper bound
           Ob("P03", "upper bound lookahead (point)",
              (M.hasU = 1 /\ M.ubr = "point") =>
                 LET best == MaxSet({qub(a) : a \in DOMAIN q}) IN
                 /\ \A a \in DOMAIN q : E.qu[a] >= qub(a) - VTOL
                 /\ Near(E.ub, Min2(n.ub, best), VTOL)) \cup
           Ob("P03", "upper bound lookahead (sawtooth)",
              IsST => LET lo == MaxSet({qU1(a) : a \in DOMAIN q})
                          hi == MaxSet({qU2(a) : a \in DOMAIN q}) IN
                      /\ \A a \in DOMAIN q : E.qu[a] >= qU1(a) - VTOL
                      /\ E.ub >= Min2(lo, n.ub) - VTOL /\ E.ub <= Min2(hi, n.ub) + VTOL) \cup
           Ob("P03", "chosen action does not attain the maximum",
              (M.hasU = 1) =>
                 \A c \in {E.mua} \cup (IF E.mu = 1 THEN {E.act} ELSE {}) :
                    /\ c + 1 \in DOMAIN q
                    /\ IF M.ubr = "point" THEN qub(c + 1) >= MaxSet({qub(a) : a \in DOMAIN q}) - VTOL
                       ELSE qU2(c + 1) >= MaxSet({qU1(a) : a \in DOMAIN q}) - VTOL) \cup
           Ob("P03", "new sawtooth point",
              IsST => /\ Len(E.nb) <= 1
                      /\ \A k \in DOMAIN E.nb : E.nb[k].b = n.b /\ Near(E.nb[k].v, E.ub, VTOL)
                      /\ U(pt2, E.cp, n.b)[1] <= E.ub + VTOL + CSl) \cup
           \* ---- P08 / P10: no belief is left without a plane
           (IF IsMP /\ E.rp # <<>>
            THEN LET ok == AllCovered(pl2)
                 IN Ob("P08", "pruning left a reachable belief without a plane", ok) \cup
                    Ob("P10", "pruning left a reachable belief without a plane", ok)
            ELSE {}) \cup
           \* ---- P10: nothing already established is lost
           Ob("P10", "lower bound below what was established",
              (IsMP /\ (E.rp # <<>>)) =>
                  \A i \in DOMAIN ns2 :
                     LET w == W(pl2, ns2[i].b) IN
                     /\ w >= ns2[i].lb - MTOL
                     /\ (M.ep = 0 => w >= W(planes, ns2[i].b) - MTOL)) \cup
           Ob("P10", "upper bound above what was established",
              (IsST /\ (E.rb # <<>> \/ E.cp # corner)) =>
                  \A i \in DOMAIN ns2 :
                     LET u == U(pt2, E.cp, ns2[i].b) IN
                     /\ u[1] <= ns2[i].ub + MTOL + CSl
                     /\ u[1] <= U(pts, corner, ns2[i].b)[2] + MTOL + CSl) \cup
           Ob("P10", "cached lookup gives another value than the full scan",
              /\ (IsMP /\ M.ep = 0 /\ ~c2.faint) => \A a \in DOMAIN q : Near(E.ql[a], qW(a), VTOL)
              /\ IsST => \A a \in DOMAIN q : E.qu[a] >= qU1(a) - VTOL
              /\ IsST => LET hi == MaxSet({qU2(a) : a \in DOMAIN q}) IN E.ub <= hi + VTOL) \cup
           Ob("P10", "mask is not the support of the belief",
              IsMP => \A k \in DOMAIN E.np : \A s \in States(M) :
                         E.np[k].m[s] = (IF M.mask = 1 /\ n.b[s] = 0 THEN 0 ELSE 1)))
  /\ UNCHANGED pl

ChgEv ==
  /\ E.e = "Chg"
  /\ nodes' = ApplyChg(nodes, E.chg)
  /\ LET \* labelled strategies refresh the action values and put the upper bound back
         back == {k \in DOMAIN E.chg : M.strat \in {"lrtdp", "hdp"} /\ E.chg[k][1] = last.id
                                       /\ E.chg[k][3] <= last.ub}
         rest == [k \in DOMAIN E.chg |-> IF k \in back THEN <<E.chg[k][1], E.chg[k][2], nodes[E.chg[k][1]].ub>> ELSE E.chg[k]]
     IN viol' = viol \cup Tag(ChgObs(nodes, rest))
  /\ UNCHANGED <<pl, planes, pts, corner, cnt, last>>

\* what the lookup structures answer
ValsEv ==
  /\ E.e = "Vals"
  /\ viol' = viol \cup Tag(UNION {
       LET v == E.vals[k]
           n == nodes[v[1]]
       IN Ob("P10", "lower bound lookup differs from a full scan",
             M.hasL = 1 => IF IsMP THEN Near(v[2], W(planes, n.b), VTOL) /\ v[2] >= n.lb - MTOL
                                   ELSE Near(v[2], n.lb, VTOL)) \cup
          Ob("P10", "upper bound lookup differs from a full scan",
             M.hasU = 1 => IF IsST THEN IsU(pts, corner, n.b, v[3], VTOL) /\ v[3] <= n.ub + MTOL + CSl
                                   ELSE Near(v[3], n.ub, VTOL)) \cup
          Ob("P01", "lookup does not contain the optimal value",
             /\ Sound(n, v[2], v[3], M.hasL = 1, M.hasU = 1)
             /\ (M.hasL = 1 /\ M.hasU = 1) => v[2] <= v[3] + STOL) \cup
          Ob("P02", "lookup is looser than the stored bound",
             /\ (M.hasL = 1 => v[2] >= n.lb - MTOL) /\ (M.hasU = 1 => v[3] <= n.ub + MTOL + CSl))
       : k \in DOMAIN E.vals})
  /\ UNCHANGED <<pl, nodes, planes, pts, corner, cnt, last>>

\* an action request at some belief, with the values the bounds give its successors
SuccVal(b, sv, which) ==     \* value the spec assigns to successor belief b (logged value where only the code knows)
  LET known == {i \in DOMAIN nodes : nodes[i].b = b}
  IN IF which = 2
     THEN IF IsMP THEN W(planes, b)
          ELSE IF known # {} THEN nodes[CHOOSE i \in known : TRUE].lb ELSE sv
     ELSE IF known # {} /\ ~IsST THEN nodes[CHOOSE i \in known : TRUE].ub ELSE sv
QueryEv ==
  /\ E.e = "Query"
  /\ LET \* E.sv[a] = sequence of [b, l, u, p] for every possible outcome
         ql(a) == Reward(M, E.b, a) + Mul(M.g, SumSeq([k \in DOMAIN E.sv[a] |->
                     Mul(E.sv[a][k].p, SuccVal(E.sv[a][k].b, E.sv[a][k].l, 2), PS)]), PS)
         qu(a) == Reward(M, E.b, a) + Mul(M.g, SumSeq([k \in DOMAIN E.sv[a] |->
                     Mul(E.sv[a][k].p, SuccVal(E.sv[a][k].b, E.sv[a][k].u, 3), PS)]), PS)
         A == DOMAIN E.sv
         opts == IF M.rsel = 0 THEN {ql(a) : a \in A} ELSE {qu(a) : a \in A}
         mine(a) == IF M.rsel = 0 THEN ql(a) ELSE qu(a)
         succOK == \A a \in A : \A k \in DOMAIN E.sv[a] :
            LET s == E.sv[a][k] IN
            /\ (M.hasL = 1 => Near(s.l, SuccVal(s.b, s.l, 2), VTOL))
            /\ (M.hasU = 1 => IF IsST THEN IsU(pts, corner, s.b, s.u, VTOL)
                              ELSE Near(s.u, SuccVal(s.b, s.u, 3), VTOL))
     IN viol' = viol \cup Tag(
        Ob("P20", "no such action", E.act + 1 \in A) \cup
        Ob("P20", "action is not greedy", E.act + 1 \in A => mine(E.act + 1) >= MaxSet(opts) - VTOL) \cup
        Ob("P20", "lower value of an action", M.hasL = 1 => \A a \in A : Near(E.ql[a], ql(a), VTOL)) \cup
        Ob("P20", "upper value of an action", M.hasU = 1 => \A a \in A : Near(E.qu[a], qu(a), VTOL)) \cup
        Ob("P20", "value of a successor", succOK) \cup
        Ob("P20", "value interval of the belief",
           LET known == {i \in DOMAIN nodes : nodes[i].b = E.b} IN
           /\ (M.hasL = 1 => IF IsMP THEN Near(E.l, W(planes, E.b), VTOL)
                             ELSE known # {} => Near(E.l, nodes[CHOOSE i \in known : TRUE].lb, VTOL))
           /\ (M.hasU = 1 => IF IsST THEN IsU(pts, corner, E.b, E.u, VTOL)
                             ELSE known # {} => Near(E.u, nodes[CHOOSE i \in known : TRUE].ub, VTOL))) \cup
        Ob("P20", "asking changed the bounds or the visited set",
           /\ E.grow = 0 /\ E.chg = <<>> /\ E.np = <<>> /\ E.rp = <<>> /\ E.nb = <<>> /\ E.rb = <<>>
           /\ E.cp = corner) \cup
        Ob("P01", "queried interval does not contain the optimal value",
           /\ SoundAt(E.b, E.l, E.u, OptIndex(Opt, E.b), M.hasL = 1, M.hasU = 1)
           /\ (M.hasL = 1 /\ M.hasU = 1) => E.l <= E.u + STOL))
  /\ UNCHANGED <<pl, nodes, planes, pts, corner, cnt, last>>

\* the posterior of an outcome of tiny probability: the carrier state c cannot
\* produce outcome o, so the posterior depends on the integer weights w alone
PostEv ==
  /\ E.e = "Post"
  /\ LET j == IJoint(M, E.w, E.a + 1, E.o + 1)
         n == SumSeq(j)
         free == IJoint(M, Unit(M.S, E.c + 1, 1), E.a + 1, E.o + 1)
     IN viol' = viol \cup Tag(
          Ob("P13", "posterior of an unlikely outcome",
             (\A t \in States(M) : free[t] = 0) /\ n > 0 =>
                \A t \in States(M) : Near(E.b[t], Mul(j[t], PS, n), 2000)))
  /\ UNCHANGED <<pl, nodes, planes, pts, corner, cnt, last>>

TrialEv ==
  /\ E.e \in {"TB", "TE", "End", "Cut"}
  /\ viol' = viol \cup Tag(
       IF E.e # "TE" \/ nodes = <<>> THEN {} ELSE
       LET r == nodes[1] IN
       Ob("P02", "reported interval of the initial belief is looser than its bounds",
          /\ (M.hasL = 1 => E.rl >= r.lb - MTOL) /\ (M.hasU = 1 => E.ru <= r.ub + MTOL + CSl)) \cup
       Ob("P01", "reported interval does not contain the optimal value",
          /\ Sound(r, E.rl, E.ru, M.hasL = 1, M.hasU = 1)
          /\ (M.hasL = 1 /\ M.hasU = 1) => E.rl <= E.ru + STOL) \cup
       Ob("P03", "counters at the end of a trial",
          /\ E.nbk = cnt.nbk /\ E.nex = cnt.nex /\ E.nto = Len(nodes) /\ E.lks = Len(nodes)))
  /\ UNCHANGED <<pl, nodes, planes, pts, corner, cnt, last>>

\* the run died, or did something with no meaning here
Bad ==
  /\ \/ E.e \in {"Crash", "Anomaly"}
     \/ E.e = "Upd" /\ E.id \notin DOMAIN nodes
  /\ viol' = viol \cup Tag({<<p, "run crashed or an unregistered state was used">> : p \in Props})
  /\ UNCHANGED <<pl, nodes, planes, pts, corner, cnt, last>>

Next == /\ l <= N /\ l' = l + 1
        /\ \/ Problem \/ InitEv \/ NodeEv \/ UpdEv \/ ChgEv \/ ValsEv \/ QueryEv \/ PostEv \/ TrialEv \/ Bad
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
\* the whole trace was consumed
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
