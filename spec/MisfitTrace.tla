----------------------------- MODULE MisfitTrace -----------------------------
(* Policy files, well-formed and not, given to the real readers: a file that   *)
(* is no policy for the model is refused with a message, one that is a policy  *)
(* is read as what it says.                                                    *)
EXTENDS PolicyFile, FiniteSets, TLC, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, st, viol
vars == <<l, pl, st, viol>>
E == Trace[l]
M == Trace[pl]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Ob2(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Init == l = 1 /\ pl = 0 /\ st = [ph |-> "ok"] /\ viol = {}
Problem == /\ E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ st' = Start(E.fmt) /\ UNCHANGED viol
Read == /\ E.e # "Problem" /\ ~Final(st, M.toks) /\ st' = ReadStep(st, M.toks, M.fmt, M.S, M.A) /\ UNCHANGED <<l, pl, viol>>
Same(p, q) == p.a = q.a /\ p.m = q.m /\ \A s \in DOMAIN p.al : p.m[s] = 1 => Abs(p.al[s] - q.al[s]) <= 2
SameSet(x, y) == Len(x) = Len(y) /\ (\A i \in DOMAIN x : \E j \in DOMAIN y : Same(x[i], y[j])) /\ (\A j \in DOMAIN y : \E i \in DOMAIN x : Same(x[i], y[j]))
Accept == /\ E.e = "Back" /\ Final(st, M.toks) /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
          /\ viol' = viol \cup Tag(
               IF st.ph = "bad" THEN Ob2("P12", "a policy that does not fit the model was accepted", FALSE)
               ELSE Ob2("P09", "the planes read are not those of the file", SameSet(st.pls, E.pl)))
Refuse == /\ E.e = "Crash" /\ Final(st, M.toks) /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
          /\ viol' = viol \cup Tag(
               IF st.ph = "ok" THEN Ob2("P12", "a well-formed policy was refused", FALSE)
               ELSE Ob2("P12", "a policy that does not fit the model made the program crash", E.sig = 0) \cup
                    Ob2("P12", "a policy that does not fit the model was refused without a message", E.sig # 0 \/ E.msg > 0))
Skip == /\ E.e \in {"Wrote", "Done"} /\ Final(st, M.toks) /\ l' = l + 1 /\ UNCHANGED <<pl, st, viol>>
Next == l <= N /\ (Problem \/ Read \/ Accept \/ Refuse \/ Skip)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter > N
Alias == [l |-> l, viol |-> viol]
=============================================================================
