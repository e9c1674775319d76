----------------------------- MODULE PolicyTrace -----------------------------
(* A policy from the planner's memory to a file and back to an executor.       *)
(* The file is read here by its own small state machine over its tokens, as    *)
(* the format documents it; the planes in the planner, in the file and in the  *)
(* executor must be the same (P09), and they must be a policy that achieves    *)
(* the reported lower bound (P08): every plane a guarantee where it applies,   *)
(* every belief covered, and the value of following it computed exactly on     *)
(* models with finitely many reachable beliefs.                                *)
EXTENDS Model, SequencesExt, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
ProblemLines == {i \in 1..N : Trace[i].e = "Problem"}
OptTab == TLCEval([i \in ProblemLines |->
            IF "P08" \in Props THEN Optimal(Trace[i]) ELSE [fin |-> FALSE, b |-> <<>>, v |-> <<>>, tab |-> <<>>]])
SupTab == TLCEval([i \in ProblemLines |-> IF "P08" \in Props THEN ReachSupports(Trace[i]) ELSE {}])
SandTab == TLCEval([i \in ProblemLines |-> IF "P08" \in Props THEN Sandwich(Trace[i]) ELSE [full |-> <<>>, blind |-> <<>>]])
VTOL == 30
STOL == 100
VARIABLES l, pl, rl, mem, file, back, at, viol
vars == <<l, pl, rl, mem, file, back, at, viol>>
(* rl: reported bounds; mem, file, back: sequences of planes [a, al, m], or    *)
(* NoPlanes; at: belief index -> [act, pact]                                   *)
E == Trace[l]
M == Trace[pl]
Opt == OptTab[pl]
Near(x, y, tol) == Abs(x - y) <= tol
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}

\* printed precision: six significant digits
Prec(v) == 2 + Mul(Abs(v), 6, 1000000)
MaxAbs(pls) == MaxSet({0} \cup {Abs(pls[i].al[s]) : i \in DOMAIN pls, s \in States(M)})
PrecSet(pls) == Prec(MaxAbs(pls))

Applies(p, b) == \A s \in DOMAIN b : b[s] > 0 => p.m[s] = 1
PlVal(p, b) == Dot(p.al, b, PS)
W(pls, b) == LET v == {PlVal(pls[i], b) : i \in {j \in DOMAIN pls : Applies(pls[j], b)}} IN IF v = {} THEN -2100000000 ELSE MaxSet(v)
Covered(pls, b) == \E i \in DOMAIN pls : Applies(pls[i], b)
SamePlane(p, q) == /\ p.a = q.a /\ p.m = q.m
                   /\ \A s \in States(M) : p.m[s] = 1 => Near(p.al[s], q.al[s], Prec(p.al[s]) + 1)
SamePlanes(x, y) == /\ Len(x) = Len(y)
                    /\ \A i \in DOMAIN x : \E j \in DOMAIN y : SamePlane(x[i], y[j])
                    /\ \A j \in DOMAIN y : \E i \in DOMAIN x : SamePlane(x[i], y[j])

-----------------------------------------------------------------------------
(* the file format: a record per plane, each "action => n", the number of      *)
(* entries, then that many "state, value" pairs in increasing state order      *)
NewPlane(a) == [a |-> a, al |-> [s \in States(M) |-> 0], m |-> [s \in States(M) |-> 0], decl |-> 0 - 1]
\* st: [pls, decl (declared number of planes), ok]
Token(st, t) ==
  LET k == Len(st.pls) IN
  CASE t.k = "action" -> [st EXCEPT !.pls = Append(@, NewPlane(t.n))]
    [] t.k = "numPlanes" -> [st EXCEPT !.decl = t.n]
    [] t.k = "numEntries" -> IF k = 0 THEN [st EXCEPT !.ok = FALSE] ELSE [st EXCEPT !.pls[k].decl = t.n]
    [] t.k = "entry" -> IF k = 0 \/ t.n + 1 \notin States(M) THEN [st EXCEPT !.ok = FALSE]
                        ELSE IF st.pls[k].m[t.n + 1] = 1 THEN [st EXCEPT !.ok = FALSE]
                        ELSE [st EXCEPT !.pls[k].m[t.n + 1] = 1, !.pls[k].al[t.n + 1] = t.v]
    [] OTHER -> [st EXCEPT !.ok = FALSE]
Parsed(toks) == FoldLeft(Token, [pls |-> <<>>, decl |-> 0 - 1, ok |-> TRUE], toks)
WellDeclared(f) == /\ f.ok /\ f.decl = Len(f.pls)
                   /\ \A i \in DOMAIN f.pls : f.pls[i].decl = Cardinality({s \in States(M) : f.pls[i].m[s] = 1})

-----------------------------------------------------------------------------
(* value of a policy pi (belief index -> set of actions it may take): worst    *)
(* value over the allowed actions, by iteration on the exact belief table      *)
PolicyStep(tab, pi, V) == [i \in DOMAIN tab |-> IF pi[i] = {} THEN V[i] ELSE MinSet({QOf(M, tab[i][a], V) : a \in pi[i]})]
RECURSIVE PolicyIter(_, _, _, _)
PolicyIter(tab, pi, V, k) ==
  LET W2 == TLCEval(PolicyStep(tab, pi, V)) IN IF k = 0 \/ Settled(V, W2) THEN W2 ELSE PolicyIter(tab, pi, W2, k - 1)
Zero(tab) == [i \in DOMAIN tab |-> 0]

Init == l = 1 /\ pl = 0 /\ rl = <<0, 0, 0>> /\ mem = <<>> /\ file = <<>> /\ back = <<>> /\ at = <<>> /\ viol = {}
Keep == UNCHANGED <<pl, rl, mem, file, back, at>>
Problem == /\ E.e = "Problem" /\ pl' = l /\ rl' = <<0, 0, 0>> /\ mem' = <<>> /\ file' = <<>> /\ back' = <<>> /\ at' = <<>>
           /\ UNCHANGED viol
Solved == /\ E.e = "Solved" /\ rl' = <<E.rl, E.ru, 1>> /\ UNCHANGED <<pl, mem, file, back, at, viol>>
MemEv == /\ E.e = "Mem" /\ mem' = E.pl
         /\ viol' = viol \cup Tag(
              Ob("P08", "the planes written do not attain the reported lower bound",
                 Near(W(E.pl, M.b0), rl[1], VTOL)))
         /\ UNCHANGED <<pl, rl, file, back, at>>
FileEv ==
  /\ E.e = "File"
  /\ LET f == TLCEval(Parsed(E.toks))
         tol == PrecSet(f.pls)
     IN /\ file' = f.pls
        /\ viol' = viol \cup Tag(
             Ob("P09", "the file is not in the documented format", WellDeclared(f)) \cup
             Ob("P09", "the file does not contain the planner's planes", rl[3] = 1 => SamePlanes(mem, f.pls)) \cup
             (IF rl[3] = 0 THEN {} ELSE
             Ob("P08", "value of the written policy at the initial belief is not the reported lower bound",
                Near(W(f.pls, M.b0), rl[1], VTOL + tol)) \cup
             Ob("P08", "a plane names no action of the model", \A i \in DOMAIN f.pls : f.pls[i].a + 1 \in Actions(M)) \cup
             Ob("P08", "a plane promises more than can be earned",
                Opt.fin => \A i \in DOMAIN f.pls : \A k \in DOMAIN Opt.b :
                    Applies(f.pls[i], Opt.b[k]) => PlVal(f.pls[i], Opt.b[k]) <= Opt.v[k] + STOL + tol) \cup
             Ob("P08", "a plane promises more than a plan that sees the state can earn",
                SandTab[pl].full # <<>> => \A i \in DOMAIN f.pls : \A s \in States(M) :
                    f.pls[i].m[s] = 1 => f.pls[i].al[s] <= SandTab[pl].full[s] + STOL + tol) \cup
             Ob("P08", "a reachable belief has no applicable plane",
                /\ \A S \in SupTab[pl] : \E i \in DOMAIN f.pls : \A s \in S : f.pls[i].m[s] = 1
                /\ Opt.fin => \A k \in DOMAIN Opt.b : Covered(f.pls, Opt.b[k]))))
  /\ UNCHANGED <<pl, rl, mem, back, at>>
\* a plain alpha-vector file: the vectors it contains
AlphaEv == /\ E.e = "Alpha" /\ file' = E.pl /\ UNCHANGED <<pl, rl, mem, back, at, viol>>
BackEv == /\ E.e = "Back" /\ back' = E.pl
          /\ viol' = viol \cup Tag(Ob("P09", "reading the file back gives other planes", SamePlanes(file, E.pl)))
          /\ UNCHANGED <<pl, rl, mem, file, at>>
\* one-step lookahead on the planes read back, at belief b
LookQ(b, a) == Reward(M, b, a) + Mul(M.g, SumSeq([o \in Outcomes(M) |->
                 LET p == OutProb(M, b, a, o) IN IF p <= 5 THEN 0 ELSE Mul(p, W(back, Posterior(M, b, a, o)), PS)]), PS)
\* masks make values jump at the boundary of the simplex: beliefs within rounding of it are not judged
Coarse(b) == \A s \in DOMAIN b : b[s] = 0 \/ b[s] >= 1000
CoarseStep(b) == /\ Coarse(b)
                 /\ \A a \in Actions(M), o \in Outcomes(M) : OutProb(M, b, a, o) <= 5 \/
                      LET c == Posterior(M, b, a, o) IN Coarse(c) /\ Supp(c) = PostSupp(M, b, a, o)
AtEv ==
  /\ E.e = "At"
  /\ LET w == W(back, E.b)
         tol == VTOL + PrecSet(back)
         oi == OptIndex(Opt, E.b)
         q == TLCEval([a \in Actions(M) |-> LookQ(E.b, a)])
     IN /\ at' = IF oi = {} THEN at
                 ELSE [k \in DOMAIN at \cup oi |-> IF k \in oi THEN [act |-> E.act + 1, pact |-> E.pact + 1] ELSE at[k]]
        /\ viol' = viol \cup Tag(
             Ob("P09", "the executor's value of a belief is not that of the planes in the file",
                Near(E.v, W(file, E.b), tol) /\ Near(E.bv, W(file, E.b), tol)) \cup
             Ob("P09", "the action at a belief is not one the file gives",
                \E i \in DOMAIN file : file[i].a = E.pact /\ Applies(file[i], E.b) /\ PlVal(file[i], E.b) >= W(file, E.b) - tol) \cup
             Ob("P08", "the executor chooses no action of the model", E.act + 1 \in Actions(M) /\ E.pact + 1 \in Actions(M)) \cup
             Ob("P09", "the executor does not follow the file", CoarseStep(E.b) => q[E.act + 1] >= MaxSeq(q) - tol * 2) \cup
             Ob("P08", "the executor does not take the best lookahead action", CoarseStep(E.b) => q[E.act + 1] >= MaxSeq(q) - tol * 2))
  /\ UNCHANGED <<pl, rl, mem, file, back>>
Done ==
  /\ E.e = "Done"
  /\ viol' = viol \cup Tag(
       IF ~Opt.fin \/ rl[3] = 0 \/ "P08" \notin Props THEN {} ELSE
       LET tab == Opt.tab
           root == CHOOSE k \in OptIndex(Opt, M.b0) : TRUE
           \* printed precision can cost up to its size at every step
           loss == STOL + Mul(2 * PrecSet(file), PS, PS - M.g)
           known == DOMAIN at
           vAct == PolicyIter(tab, [i \in DOMAIN tab |-> IF i \in known THEN {at[i].act} ELSE Actions(M)], Zero(tab), 2000)
           vDir == PolicyIter(tab, [i \in DOMAIN tab |-> IF i \in known THEN {at[i].pact} ELSE Actions(M)], Zero(tab), 2000)
       IN (IF M.ep = 1 THEN
             Ob("P08", "with extra pruning lookahead execution earns less than the reported lower bound", vAct[root] >= rl[1] - loss) \cup
             Ob("P08", "with extra pruning execution of plane actions earns less than the reported lower bound", vDir[root] >= rl[1] - loss)
           ELSE
             Ob("P08", "lookahead execution earns less than the reported lower bound", vAct[root] >= rl[1] - loss) \cup
             Ob("P08", "execution of plane actions earns less than the reported lower bound", vDir[root] >= rl[1] - loss)))
  /\ Keep
Bad == /\ E.e \in {"Crash", "Anomaly"} /\ viol' = viol \cup Tag({<<p, "run crashed">> : p \in Props}) /\ Keep
Skip == /\ E.e \in {"Wrote"} /\ Keep /\ UNCHANGED viol
Next == l <= N /\ l' = l + 1 /\ (Problem \/ Solved \/ MemEv \/ FileEv \/ AlphaEv \/ BackEv \/ AtEv \/ Done \/ Bad \/ Skip)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
