------------------------------ MODULE SurveyTrace ------------------------------
(* The POMDPs that the life-survey generator writes, state by state, against     *)
(* the rules in LifeSurvey: the file's states are named after what they stand    *)
(* for, and the names have to be a bisimulation.                                 *)
EXTENDS LifeSurvey, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, nl, W, viol
vars == <<l, pl, nl, W, viol>>
E == Trace[l]
M == Trace[pl]
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Init == l = 1 /\ pl = 0 /\ nl = 0 /\ W = <<>> /\ viol = {}
Good == W # <<>>
Problem == E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ nl' = 0 /\ W' = (IF WellFormed(E) THEN Survey(E) ELSE <<>>) /\ UNCHANGED viol
Near(x, y, t) == Abs(x - y) <= t
Names == Trace[nl].states
\* the file's distribution t (pairs <<index, chance>>) is the rules' distribution D
Indices(t) == {t[i][1] : i \in DOMAIN t}
Mass(t, c) == SumSeq([i \in DOMAIN t |-> IF Canon(W, Names[t[i][1] + 1]) = c THEN t[i][2] ELSE 0])
Same(t, D) == /\ Cardinality(Indices(t)) = Len(t)
              /\ \A d \in D : Near(Mass(t, d[1]), d[2], 20)
              /\ \A i \in DOMAIN t : t[i][2] > 0 => \E d \in D : d[1] = Canon(W, Names[t[i][1] + 1]) /\ d[2] > 0
SameObs(t, s, a) == /\ Cardinality(Indices(t)) = Len(t)
                    /\ \A o \in 0..27 : Near(SumSeq([i \in DOMAIN t |-> IF t[i][1] = o THEN t[i][2] ELSE 0]), Observe(W, s, a, o), 20)
Generated ==
  /\ E.e = "Names" /\ Good /\ l' = l + 1 /\ nl' = l /\ UNCHANGED <<pl, W>>
  /\ viol' = viol \cup Tag(
       Ob("P21", "state names do not say which states they are", E.odd = 0) \cup
       Ob("P21", "wrong discount, actions or observations", E.g = 999 * 1000000 /\ E.na = 7 /\ E.no = 28) \cup
       Ob("P21", "the two forms of the file differ", E.same = 1))
First ==
  /\ E.e = "Start" /\ Good /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(Ob("P21", "wrong start", Same(E.b, Start(W))) \cup Ob("P21", "the two forms of the file differ", E.b = E.num))
State ==
  /\ E.e = "St" /\ Good /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(UNION {LET s == Canon(W, Names[E.i + 1]) IN
       Ob("P21", "a robot outside the map", s = OVER \/ <<s[1], s[2]>> \in W.free) \cup
       (IF s = OVER \/ <<s[1], s[2]>> \in W.free
        THEN UNION {Ob("P21", "wrong outcomes of a move", Same(E.t[a], Outcomes(W, s, a))) \cup
                    Ob("P21", "wrong reward", Near(E.r[a], Reward(W, s, a), 3)) \cup
                    Ob("P21", "wrong observations", SameObs(E.o[a], s, a)) : a \in Actions}
        ELSE {}) \cup
       Ob("P21", "the two forms of the file differ", E.same = 1) : z \in {1}})
Torn == /\ E.e = "Torn" /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
        /\ viol' = viol \cup Tag(Ob("P21", "a generated file cannot be read", FALSE))
\* the map as the dump tool lists it
Map ==
  /\ E.e = "Map" /\ Good /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(Ob("P21", "the dumped map is not the map drawn",
        {<<E.c[i][1], E.c[i][2], E.c[i][3]>> : i \in DOMAIN E.c} = {<<p[1], p[2], W.reg[p] - 1>> : p \in W.free} /\ Len(E.c) = Cardinality(W.free)))
\* places of life as the target tool draws and lists them (characters: 1 life, 0 none, -1 no hex)
Life ==
  /\ E.e = "Life" /\ Good /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(
       LET T == {<<E.list[i][1], E.list[i][2]>> : i \in DOMAIN E.list}
           At(x, y) == LET c == Col(M, x, y) IN IF c \in 1..Len(E.pic[Line(M, y)]) THEN E.pic[Line(M, y)][c] ELSE -1
       IN Ob("P21", "life outside the map", T \subseteq W.free) \cup
          Ob("P21", "places of life are not counted right", E.n = Cardinality(T) /\ Len(E.list) = E.n) \cup
          Ob("P21", "life where it is impossible or none where it is certain",
             \A p \in W.free : LET q == Val(M, "regionPriors")[W.reg[p]] IN (q = 0 => p \notin T) /\ (q = PS => p \in T)) \cup
          Ob("P21", "the picture of the places of life is wrong",
             Len(E.pic) = H(M) /\ (Len(E.pic) = H(M) => \A p \in (0..MaxX(M)) \X (0..(H(M) - 1)) : At(p[1], p[2]) = IF p \in T THEN 1 ELSE IF p \in W.free THEN 0 ELSE -1)))
Accepted ==
  /\ E.e \in {"Names", "Start", "St", "Map", "Life"} /\ ~Good /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(Ob("P21", "a map that is not well-formed was accepted", FALSE))
Refuse ==
  /\ E.e = "Crash" /\ l' = l + 1 /\ UNCHANGED <<pl, nl, W>>
  /\ viol' = viol \cup Tag(IF Good THEN Ob("P21", "a well-formed map was refused", FALSE)
       ELSE Ob("P21", "a bad map made the program crash", E.sig = 0) \cup Ob("P21", "a bad map was refused without a message", E.sig # 0 \/ E.msg > 0))
Next == l <= N /\ (Problem \/ Generated \/ First \/ State \/ Torn \/ Map \/ Life \/ Accepted \/ Refuse)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
