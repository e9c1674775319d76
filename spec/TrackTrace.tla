------------------------------ MODULE TrackTrace ------------------------------
(* The real race-track model, explored state by state through its MDP           *)
(* interface, against the rules in RaceTrack.  The state keeps the cars already *)
(* listed and the ones still to come.                                           *)
EXTENDS RaceTrack, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, seen, front, viol
vars == <<l, pl, seen, front, viol>>
E == Trace[l]
M == Trace[pl]
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Init == l = 1 /\ pl = 0 /\ seen = {} /\ front = {} /\ viol = {}
Problem == E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ seen' = {} /\ front' = {START0} /\ UNCHANGED viol
Near(x, y, t) == Abs(x - y) <= t
Pairs(o) == {<<o[i][1], o[i][2]>> : i \in DOMAIN o}
\* the recorded distribution is the one the rules give
SameDist(o, D) == /\ {p[1] : p \in Pairs(o)} = {d[1] : d \in D}
                  /\ \A p \in Pairs(o) : \E d \in D : d[1] = p[1] /\ Near(d[2], p[2], 20)
                  /\ Cardinality(Pairs(o)) = Len(o)
State ==
  /\ E.e = "St" /\ M.bad = 0 /\ l' = l + 1 /\ UNCHANGED pl
  /\ LET Ds == TLCEval(Dists(M, E.s))
         new == TLCEval(UNION {{d[1] : d \in Ds[a]} : a \in 1..9})
     IN IF E.s \notin front
        THEN viol' = viol \cup Tag(Ob("P18", "a state that no move leads to, or one listed twice", FALSE)) /\ UNCHANGED <<seen, front>>
        ELSE /\ seen' = seen \cup {E.s} /\ front' = (front \cup new) \ (seen \cup {E.s})
             /\ viol' = viol \cup Tag(
                  Ob("P18", "wrong outcomes or probabilities", \A a \in 1..9 : SameDist(E.o[a], Ds[a])) \cup
                  Ob("P18", "probabilities do not sum to one", \A a \in 1..9 : Near(E.sum[a], PS, 20)) \cup
                  Ob("P18", "wrong cost", \A a \in 1..9 : E.r[a] = 0 - Cost(M, E.s)) \cup
                  Ob("P18", "wrong termination", E.term = IF E.s = OVER THEN 1 ELSE 0))
Done == /\ E.e = "Done" /\ M.bad = 0 /\ l' = l + 1 /\ UNCHANGED <<pl, seen, front>>
        /\ viol' = viol \cup Tag(Ob("P18", "states that can be reached are missing", E.cap = 1 \/ front = {}) \cup
                                 Ob("P18", "wrong discount", Near(E.g, M.g, 2)))
Accepted == /\ E.e \in {"St", "Done"} /\ M.bad = 1 /\ l' = l + 1 /\ UNCHANGED <<pl, seen, front>>
            /\ viol' = viol \cup Tag(Ob("P12", "an invalid race track was accepted", FALSE))
Refuse == /\ E.e = "Crash" /\ l' = l + 1 /\ UNCHANGED <<pl, seen, front>>
          /\ viol' = viol \cup Tag(
               IF M.bad = 0 THEN Ob("P12", "a valid race track was refused", FALSE) \cup Ob("P18", "a valid race track was refused", FALSE)
               ELSE Ob("P12", "an invalid race track made the program crash", E.sig = 0) \cup
                    Ob("P12", "an invalid race track was refused without a message", E.sig # 0 \/ E.msg > 0))
Next == l <= N /\ (Problem \/ State \/ Done \/ Accepted \/ Refuse)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
