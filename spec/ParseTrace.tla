----------------------------- MODULE ParseTrace ------------------------------
(* Model files read by the real parsers, against the language of Cassandra.tla *)
(* Each run is one file and one parser: the machine consumes the file's        *)
(* statements one by one, then the parser's own tables (or its refusal) must   *)
(* be the machine's.                                                           *)
EXTENDS Cassandra, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, st, viol
vars == <<l, pl, st, viol>>
E == Trace[l]
M == Trace[pl]
Ob2(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Near(x, y, tol) == Abs(x - y) <= tol
Init == l = 1 /\ pl = 0 /\ st = Start0 /\ viol = {}
Problem == /\ E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ st' = Start0 /\ UNCHANGED viol
\* internal steps of the language machine, one statement each
Consume == /\ ~Final(st) /\ E.e # "Problem"
           /\ st' = IF M.parser = "fast" THEN FastStep(st, M.lines, M.kind) ELSE Step(st, M.toks, M.kind)
           /\ UNCHANGED <<l, pl, viol>>
SameT == \A a \in AA(st), s \in SS(st), u \in SS(st) : Near(E.T[a][s][u], st.T[a][s][u], 2)
SameO == M.kind = "pomdp" => \A a \in AA(st), s \in SS(st), o \in OO(st) : Near(E.Ob[a][s][o], st.Ob[a][s][o], 2)
\* rounding of the expectation: each probability carries up to 1e-6, rewards up to 1000
RTol(a, s) == 20 + MaxSet({0} \cup {Abs(st.R[a][s][u][o]) : u \in SS(st), o \in OO(st)}) \div 200000
SameR == \A a \in AA(st), s \in SS(st) : Near(E.R[a][s], RBar(st, a, s), RTol(a, s))
Accept ==
  /\ Final(st) /\ E.e = "Parsed"
  /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
  /\ viol' = viol \cup Tag(
       IF st.ph = "unspec" THEN {}
       ELSE IF st.ph = "bad" THEN Ob2("P12", "a malformed model was accepted", FALSE)
       ELSE IF E.S # st.S \/ E.A # st.A \/ (M.kind = "pomdp" /\ E.O # st.O) THEN Ob2("P11", "the sizes are not those of the file", FALSE)
       ELSE Ob2("P11", "the discount is not that of the file", Near(E.g, st.disc, 1)) \cup
            Ob2("P11", "a transition probability is not that of the file", SameT) \cup
            Ob2("P11", "an observation probability is not that of the file", SameO) \cup
            Ob2("P11", "a reward is not that of the file", SameR) \cup
            Ob2("P11", "the initial distribution is not that of the file",
                IF M.kind = "pomdp" THEN \A s \in SS(st) : Near(E.b0[s], st.b0[s], 2) ELSE E.s0 + 1 = st.s0) \cup
            Ob2("P11", "terminal states are not the zero-reward absorbing ones",
                \A s \in SS(st) : (E.term[s] = 1) = IsTerminal(st, s)))
Refuse ==
  /\ Final(st) /\ E.e = "Crash"
  /\ l' = l + 1 /\ UNCHANGED <<pl, st>>
  /\ viol' = viol \cup Tag(
       IF st.ph = "unspec" THEN {}
       ELSE IF st.ph = "ok" THEN Ob2("P12", "a well-formed model was refused", FALSE) \cup Ob2("P11", "a well-formed model was refused", FALSE)
       ELSE Ob2("P12", "a malformed model made the program crash instead of refusing it", E.sig = 0) \cup
            Ob2("P12", "a malformed model was refused without a message", E.sig # 0 \/ E.msg > 0))
Next == l <= N /\ (Problem \/ Consume \/ Accept \/ Refuse)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter > N
Alias == [l |-> l, viol |-> viol]
=============================================================================
