----------------------------- MODULE PolicyFile ------------------------------
(* Readers of policy files as state machines over the file's tokens: which     *)
(* files are policies for a model with S states and A actions, and what they   *)
(* contain. Two formats: max-planes records and plain alpha vectors.           *)
EXTENDS Integers, Sequences
Plane(a) == [a |-> a, al |-> <<>>, m |-> <<>>]
Blank(S, a) == [a |-> a, al |-> [s \in 1..S |-> 0], m |-> [s \in 1..S |-> 0]]
Start(fmt) == [ph |-> IF fmt = "planes" THEN "type" ELSE "action", pls |-> <<>>, last |-> 0 - 1, pc |-> 1]
Refused(st) == [st EXCEPT !.ph = "bad"]
(* max-planes: the type line first, then records "action" entry entry ...      *)
(* with strictly increasing state numbers; "note" is redundant information     *)
PlanesToken(st, t, S, A) ==
  LET k == Len(st.pls) IN
  CASE t.k = "note" -> st
    [] t.k = "type" -> IF st.ph = "type" THEN [st EXCEPT !.ph = "plane"] ELSE Refused(st)
    [] t.k = "action" -> IF st.ph \in {"plane", "entries"} /\ t.n \in 0..(A - 1)
                         THEN [st EXCEPT !.ph = "entries", !.last = 0 - 1, !.pls = Append(@, Blank(S, t.n))] ELSE Refused(st)
    [] t.k = "entry" -> IF st.ph = "entries" /\ t.n > st.last /\ t.n < S
                        THEN [st EXCEPT !.last = t.n, !.pls[k].m[t.n + 1] = 1, !.pls[k].al[t.n + 1] = t.v] ELSE Refused(st)
    [] OTHER -> Refused(st)
(* alpha vectors: an action number, then exactly S values                      *)
AlphaToken(st, t, S, A) ==
  LET k == Len(st.pls) IN
  IF st.ph = "action"
  THEN IF t.k = "int" /\ t.n \in 0..(A - 1)
       THEN [st EXCEPT !.ph = "values", !.last = 0, !.pls = Append(@, [Blank(S, t.n) EXCEPT !.m = [s \in 1..S |-> 1]])] ELSE Refused(st)
  ELSE IF t.k \notin {"int", "num"} THEN Refused(st)
       ELSE [st EXCEPT !.pls[k].al[st.last + 1] = t.v, !.last = @ + 1, !.ph = IF st.last + 1 = S THEN "action" ELSE "values"]
Final(st, toks) == st.ph \in {"bad", "ok"}
\* one token of the file, or its end
ReadStep(st, toks, fmt, S, A) ==
  IF st.pc <= Len(toks)
  THEN [(IF fmt = "planes" THEN PlanesToken(st, toks[st.pc], S, A) ELSE AlphaToken(st, toks[st.pc], S, A)) EXCEPT !.pc = st.pc + 1]
  ELSE IF st.pls = <<>> \/ st.ph = "values" THEN Refused(st) ELSE [st EXCEPT !.ph = "ok"]
=============================================================================
