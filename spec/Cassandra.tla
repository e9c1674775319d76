------------------------------ MODULE Cassandra ------------------------------
(* The model file language, as a state machine over the statements of a file.  *)
(* A file is a sequence of tokens; a state is the position reached, the sizes, *)
(* names and tables declared so far, and the phase.  Each step consumes one    *)
(* statement.  The final phase is "ok" (a model), "bad" (refused), or          *)
(* "unspec" (the documentation does not say).                                  *)
(*                                                                             *)
(* Numbers in tokens are in units of 1e-6.  Indices are 1-based here.          *)
EXTENDS FixedPoint, FiniteSets, TLC

ONE == 1000000
EPS == 10              \* tolerance on probability sums: 1e-5
NUM == {"int", "flt"}
Tk(t, p) == IF p \in DOMAIN t THEN t[p].k ELSE "eof"

\* phase, position, declarations, tables
Start0 == [ph |-> "pre", p |-> 1, disc |-> 0 - 1, val |-> "", S |-> 0, A |-> 0, O |-> 0, Sn |-> <<>>, An |-> <<>>, On |-> <<>>,
           b0 |-> <<>>, s0 |-> 0, T |-> <<>>, Ob |-> <<>>, R |-> <<>>]
Bad(st) == [st EXCEPT !.ph = "bad"]
Unspec(st) == [st EXCEPT !.ph = "unspec"]
PomdpKind(st) == st.O > 0
SS(st) == 1..st.S
AA(st) == 1..st.A
OO(st) == 1..Max2(1, st.O)

-----------------------------------------------------------------------------
(* pieces of a statement *)

\* a maximal run of names: position after it
RECURSIVE NamesEnd(_, _)
NamesEnd(t, p) == IF Tk(t, p) = "str" THEN NamesEnd(t, p + 1) ELSE p

\* a maximal run of numbers (optionally signed): values and the position after it; pos 0 = syntax error
RECURSIVE Nums(_, _, _, _)
Nums(t, p, signed, acc) ==
  IF Tk(t, p) \in NUM THEN Nums(t, p + 1, signed, TLCEval(Append(acc, t[p].v)))
  ELSE IF signed /\ Tk(t, p) \in {"-", "+"} THEN
    IF Tk(t, p + 1) \in NUM THEN Nums(t, p + 2, signed, TLCEval(Append(acc, IF t[p].k = "-" THEN 0 - t[p + 1].v ELSE t[p + 1].v)))
    ELSE [v |-> acc, p |-> 0]
  ELSE [v |-> acc, p |-> p]

\* an element: 1..n, 0 for a wildcard, -1 for an unknown name or a number out of range, -2 if it is no element
Elem(tok, n, names) ==
  CASE tok.k = "*" -> 0
    [] tok.k = "int" -> LET i == tok.v \div ONE IN IF i < n THEN i + 1 ELSE 0 - 1
    [] tok.k = "str" -> LET q == {i \in DOMAIN names : names[i] = tok.x} IN IF q = {} THEN 0 - 1 ELSE CHOOSE i \in q : TRUE
    [] OTHER -> 0 - 2
\* e1 : e2 : ... up to n elements
RECURSIVE Elems(_, _, _)
Elems(t, p, n) ==
  IF Tk(t, p) \notin {"*", "int", "str"} THEN [e |-> <<>>, p |-> 0]
  ELSE IF n > 1 /\ Tk(t, p + 1) = ":" THEN LET r == Elems(t, p + 2, n - 1) IN [e |-> <<t[p]>> \o r.e, p |-> r.p]
  ELSE [e |-> <<t[p]>>, p |-> p + 1]

Sel(e, D) == IF e = 0 THEN D ELSE {e}
ProbsOK(v) == \A i \in DOMAIN v : v[i] >= 0 /\ v[i] <= ONE
SumOK(x) == x >= ONE - EPS /\ x <= ONE + EPS
Sum(f) == SumSeq(f)

-----------------------------------------------------------------------------
(* the preamble *)
Declare(st, t) ==
  LET p == st.p
      k == Tk(t, p)
      c == Tk(t, p + 1) = ":"
  IN
  IF ~c THEN Bad(st)
  ELSE CASE k = "discount" ->
              LET r == Nums(t, p + 2, TRUE, <<>>) IN
              IF r.p = 0 \/ Len(r.v) = 0 THEN Bad(st)
              ELSE IF Len(r.v) > 1 THEN Bad(st)
              ELSE IF r.v[1] < 0 \/ r.v[1] > ONE THEN Bad(st)
              ELSE IF st.disc # 0 - 1 THEN Unspec(st)
              ELSE [st EXCEPT !.disc = r.v[1], !.p = r.p]
         [] k = "values" ->
              IF Tk(t, p + 2) \notin {"reward", "cost"} THEN Bad(st)
              ELSE IF st.val # "" THEN Unspec(st)
              ELSE [st EXCEPT !.val = Tk(t, p + 2), !.p = p + 3]
         [] OTHER ->
              LET e == NamesEnd(t, p + 2)
                  names == [i \in 1..(e - p - 2) |-> t[p + 1 + i].x]
                  num == Tk(t, p + 2) = "int"
                  n == IF num THEN t[p + 2].v \div ONE ELSE e - p - 2
                  q == IF num THEN p + 3 ELSE e
                  again == CASE k = "states" -> st.S > 0 [] k = "actions" -> st.A > 0 [] OTHER -> st.O > 0
              IN IF ~num /\ e = p + 2 THEN Bad(st)
                 ELSE IF n < 1 \/ Cardinality({names[i] : i \in DOMAIN names}) # Len(names) THEN Bad(st)
                 ELSE IF again THEN Unspec(st)
                 ELSE CASE k = "states" -> [st EXCEPT !.S = n, !.Sn = IF num THEN <<>> ELSE names, !.p = q]
                        [] k = "actions" -> [st EXCEPT !.A = n, !.An = IF num THEN <<>> ELSE names, !.p = q]
                        [] OTHER -> [st EXCEPT !.O = n, !.On = IF num THEN <<>> ELSE names, !.p = q]
PreambleComplete(st) == st.disc # 0 - 1 /\ st.val # "" /\ st.S > 0 /\ st.A > 0
Uniform(n) == [i \in 1..n |-> ONE \div n]
Point(n, i) == [j \in 1..n |-> IF j = i THEN ONE ELSE 0]
Allocate(st) == [st EXCEPT !.ph = "par",
                           !.b0 = IF PomdpKind(st) THEN Uniform(st.S) ELSE <<>>,
                           !.T = [a \in AA(st) |-> [s \in SS(st) |-> [u \in SS(st) |-> 0]]],
                           !.Ob = [a \in AA(st) |-> [s \in SS(st) |-> [o \in OO(st) |-> IF PomdpKind(st) THEN 0 ELSE ONE]]],
                           !.R = [a \in AA(st) |-> [s \in SS(st) |-> [u \in SS(st) |-> [o \in OO(st) |-> 0]]]]]
(* the start statement *)
RECURSIVE ElemRun(_, _)
ElemRun(t, p) == IF Tk(t, p) \in {"*", "int", "str"} THEN ElemRun(t, p + 1) ELSE p
StartStmt(st0, t) ==
  LET st == Allocate(st0)
      p == st.p
      k1 == Tk(t, p + 1)
  IN
  IF k1 \in {"include", "exclude"} THEN
    LET e == ElemRun(t, p + 3)
        els == {Elem(t[i], st.S, st.Sn) : i \in (p + 3)..(e - 1)}
        inc == UNION {Sel(x, SS(st)) : x \in els}
        set == IF k1 = "include" THEN inc ELSE SS(st) \ inc
    IN IF Tk(t, p + 2) # ":" \/ e = p + 3 \/ ~PomdpKind(st) THEN Bad(st)
       ELSE IF 0 - 1 \in els THEN Bad(st)
       ELSE IF \E i \in (p + 3)..(e - 1) : t[i].k = "*" THEN Unspec(st)
       ELSE IF set = {} THEN Bad(st)
       ELSE [st EXCEPT !.b0 = [s \in SS(st) |-> IF s \in set THEN ONE \div Cardinality(set) ELSE 0], !.p = e]
  ELSE IF k1 # ":" THEN Bad(st)
  ELSE IF Tk(t, p + 2) = "str" THEN
    LET i == Elem(t[p + 2], st.S, st.Sn) IN
    IF i < 1 THEN Bad(st)
    ELSE IF PomdpKind(st) THEN [st EXCEPT !.b0 = Point(st.S, i), !.p = p + 3] ELSE [st EXCEPT !.s0 = i, !.p = p + 3]
  ELSE IF Tk(t, p + 2) = "uniform" THEN (IF PomdpKind(st) THEN [st EXCEPT !.p = p + 3] ELSE Bad(st))
  ELSE
    LET r == Nums(t, p + 2, FALSE, <<>>) IN
    IF Len(r.v) = 0 THEN Bad(st)
    ELSE IF PomdpKind(st) THEN
      IF Len(r.v) # st.S \/ ~ProbsOK(r.v) \/ ~SumOK(Sum(r.v)) THEN Bad(st) ELSE [st EXCEPT !.b0 = r.v, !.p = r.p]
    ELSE IF Len(r.v) # 1 \/ t[p + 2].k # "int" \/ r.v[1] \div ONE >= st.S THEN Bad(st)
    ELSE [st EXCEPT !.s0 = r.v[1] \div ONE + 1, !.p = r.p]

-----------------------------------------------------------------------------
(* transition, observation and reward statements *)
TStmt(st, t) ==
  LET h == Elems(t, st.p + 2, 3)
      n == Len(h.e)
      a == Elem(h.e[1], st.A, st.An)
      s == IF n >= 2 THEN Elem(h.e[2], st.S, st.Sn) ELSE 0
      u == IF n >= 3 THEN Elem(h.e[3], st.S, st.Sn) ELSE 0
      As == Sel(a, AA(st))
      Ss == Sel(s, SS(st))
      Us == Sel(u, SS(st))
      w == Tk(t, h.p)
      r == Nums(t, h.p, FALSE, <<>>)
      Put(f(_, _, _), q) == [st EXCEPT !.p = q, !.T = [x \in AA(st) |-> IF x \notin As THEN @[x] ELSE
                               [y \in SS(st) |-> IF y \notin Ss THEN @[x][y] ELSE [z \in SS(st) |-> f(@[x][y][z], y, z)]]]]
  IN
  IF Tk(t, st.p + 1) # ":" THEN Bad(st)
  ELSE IF h.p = 0 THEN Bad(st)
  ELSE IF a = 0 - 1 \/ s = 0 - 1 \/ u = 0 - 1 THEN Bad(st)
  ELSE CASE w = "uniform" /\ n <= 2 -> Put(LAMBDA old, y, z : ONE \div st.S, h.p + 1)
         [] w = "identity" /\ n = 1 -> Put(LAMBDA old, y, z : IF y = z THEN ONE ELSE 0, h.p + 1)
         [] w = "reset" /\ n = 2 ->
              IF PomdpKind(st) THEN Put(LAMBDA old, y, z : st.b0[z], h.p + 1)
              ELSE IF st.s0 = 0 THEN Bad(st)
              \* an MDP's reset sets the one entry; the others stay
              ELSE Put(LAMBDA old, y, z : IF z = st.s0 THEN ONE ELSE old, h.p + 1)
         [] OTHER ->
              IF ~ProbsOK(r.v) THEN Bad(st)
              ELSE IF n = 3 THEN (IF Len(r.v) # 1 THEN Bad(st) ELSE Put(LAMBDA old, y, z : IF z \in Us THEN r.v[1] ELSE old, r.p))
              ELSE IF n = 2 THEN (IF Len(r.v) # st.S THEN Bad(st) ELSE Put(LAMBDA old, y, z : r.v[z], r.p))
              ELSE IF Len(r.v) # st.S * st.S THEN Bad(st) ELSE Put(LAMBDA old, y, z : r.v[(y - 1) * st.S + z], r.p)
OStmt(st, t) ==
  LET h == Elems(t, st.p + 2, 3)
      n == Len(h.e)
      a == Elem(h.e[1], st.A, st.An)
      u == IF n >= 2 THEN Elem(h.e[2], st.S, st.Sn) ELSE 0
      o == IF n >= 3 THEN Elem(h.e[3], st.O, st.On) ELSE 0
      As == Sel(a, AA(st))
      Us == Sel(u, SS(st))
      Os == Sel(o, OO(st))
      w == Tk(t, h.p)
      r == Nums(t, h.p, FALSE, <<>>)
      Put(f(_, _, _), q) == [st EXCEPT !.p = q, !.Ob = [x \in AA(st) |-> IF x \notin As THEN @[x] ELSE
                               [y \in SS(st) |-> IF y \notin Us THEN @[x][y] ELSE [z \in OO(st) |-> f(@[x][y][z], y, z)]]]]
  IN
  IF Tk(t, st.p + 1) # ":" THEN Bad(st)
  ELSE IF h.p = 0 \/ ~PomdpKind(st) THEN Bad(st)
  ELSE IF a = 0 - 1 \/ u = 0 - 1 \/ o = 0 - 1 THEN Bad(st)
  ELSE CASE w = "uniform" /\ n <= 2 -> Put(LAMBDA old, y, z : ONE \div st.O, h.p + 1)
         [] OTHER ->
              IF ~ProbsOK(r.v) THEN Bad(st)
              ELSE IF n = 3 THEN (IF Len(r.v) # 1 THEN Bad(st) ELSE Put(LAMBDA old, y, z : IF z \in Os THEN r.v[1] ELSE old, r.p))
              ELSE IF n = 2 THEN (IF Len(r.v) # st.O THEN Bad(st) ELSE Put(LAMBDA old, y, z : r.v[z], r.p))
              ELSE IF Len(r.v) # st.S * st.O THEN Bad(st) ELSE Put(LAMBDA old, y, z : r.v[(y - 1) * st.O + z], r.p)
RStmt(st, t) ==
  LET h == Elems(t, st.p + 2, 4)
      n == Len(h.e)
      a == Elem(h.e[1], st.A, st.An)
      s == IF n >= 2 THEN Elem(h.e[2], st.S, st.Sn) ELSE 0
      u == IF n >= 3 THEN Elem(h.e[3], st.S, st.Sn) ELSE 0
      o == IF n >= 4 THEN Elem(h.e[4], st.O, st.On) ELSE 0
      As == Sel(a, AA(st))
      Ss == Sel(s, SS(st))
      Us == Sel(u, SS(st))
      Os == Sel(o, OO(st))
      r == Nums(t, h.p, TRUE, <<>>)
      \* how many numbers each form takes
      want == IF PomdpKind(st) THEN (CASE n = 4 -> 1 [] n = 3 -> st.O [] n = 2 -> st.S * st.O [] OTHER -> 0 - 1)
              ELSE (CASE n = 3 -> 1 [] n = 2 -> st.S [] n = 1 -> st.S * st.S [] OTHER -> 0 - 1)
      Val(y, z, x) == IF PomdpKind(st) THEN (CASE n = 4 -> r.v[1] [] n = 3 -> r.v[x] [] OTHER -> r.v[(z - 1) * st.O + x])
                      ELSE (CASE n = 3 -> r.v[1] [] n = 2 -> r.v[z] [] OTHER -> r.v[(y - 1) * st.S + z])
  IN
  IF Tk(t, st.p + 1) # ":" THEN Bad(st)
  ELSE IF h.p = 0 THEN Bad(st)
  ELSE IF a = 0 - 1 \/ s = 0 - 1 \/ u = 0 - 1 \/ o = 0 - 1 THEN Bad(st)
  ELSE IF r.p = 0 \/ Len(r.v) # want THEN Bad(st)
  ELSE [st EXCEPT !.p = r.p, !.R = [b \in AA(st) |-> IF b \notin As THEN @[b] ELSE
          [y \in SS(st) |-> IF y \notin Ss THEN @[b][y] ELSE
            [z \in SS(st) |-> IF z \notin Us THEN @[b][y][z] ELSE
              [x \in OO(st) |-> IF x \in Os THEN Val(y, z, x) ELSE @[b][y][z][x]]]]]]

-----------------------------------------------------------------------------
(* the end of the file: probabilities must sum to one, and the model must be   *)
(* of the kind asked for                                                       *)
Finish(st, kind) ==
  IF /\ \A a \in AA(st), s \in SS(st) : SumOK(Sum(st.T[a][s])) /\ SumOK(Sum(st.Ob[a][s]))
     /\ IF kind = "pomdp" THEN PomdpKind(st) ELSE ~PomdpKind(st) /\ st.s0 > 0
  THEN [st EXCEPT !.ph = "ok"] ELSE Bad(st)

\* one step of the machine
Step(st, t, kind) ==
  IF st.ph = "pre" THEN
    IF Tk(t, st.p) \in {"discount", "values", "states", "actions", "observations"} THEN Declare(st, t)
    ELSE IF ~PreambleComplete(st) THEN Bad(st)
    ELSE IF Tk(t, st.p) = "start" THEN StartStmt(st, t)
    ELSE Allocate(st)
  ELSE CASE Tk(t, st.p) = "T" -> TStmt(st, t)
         [] Tk(t, st.p) = "O" -> OStmt(st, t)
         [] Tk(t, st.p) = "R" -> RStmt(st, t)
         [] Tk(t, st.p) = "eof" -> Finish(st, kind)
         [] OTHER -> Bad(st)
Final(st) == st.ph \in {"ok", "bad", "unspec"}

-----------------------------------------------------------------------------
(* the restricted language of the fast parser: one statement per line, indices *)
(* only, single entries, rewards that do not depend on the outcome             *)
\* does a line match a pattern (a sequence of token kinds; "num" is an optionally signed number)?
RECURSIVE Match(_, _, _, _)
Match(line, p, pat, i) ==
  IF i > Len(pat) THEN p = Len(line) + 1
  ELSE IF pat[i] = "num" THEN (IF Tk(line, p) \in {"-", "+"} THEN Tk(line, p + 1) \in NUM /\ Match(line, p + 2, pat, i + 1)
                               ELSE Tk(line, p) \in NUM /\ Match(line, p + 1, pat, i + 1))
  ELSE Tk(line, p) = pat[i] /\ Match(line, p + 1, pat, i + 1)
Is(line, pat) == Match(line, 1, pat, 1)
FastBody == {"T", "O", "R"}
\* 1-based index of the integer at position p, 0 if out of range
Ix(line, p, n) == LET i == line[p].v \div ONE IN IF i < n THEN i + 1 ELSE 0
FastStart(st, line, kind) ==
  LET r == Nums(line, 3, FALSE, <<>>)
      single == Len(r.v) = 1 /\ Tk(line, 3) = "int"
  IN IF Tk(line, 2) # ":" \/ st.S = 0 THEN Bad(st)
     ELSE IF r.p # Len(line) + 1 \/ Len(r.v) = 0 THEN Bad(st)
     ELSE IF Len(r.v) = 1 /\ ~single /\ r.v[1] % ONE = 0 /\ (st.S > 1 \/ kind = "mdp") THEN Unspec(st)
     ELSE IF kind = "mdp" THEN (IF single /\ r.v[1] \div ONE < st.S THEN [st EXCEPT !.s0 = r.v[1] \div ONE + 1] ELSE Bad(st))
     \* one number for several states names a known start state
     ELSE IF Len(r.v) = 1 /\ st.S > 1 THEN
       (IF single /\ r.v[1] \div ONE < st.S THEN [st EXCEPT !.b0 = Point(st.S, r.v[1] \div ONE + 1)] ELSE Bad(st))
     ELSE IF Len(r.v) = st.S /\ ProbsOK(r.v) /\ SumOK(Sum(r.v)) THEN [st EXCEPT !.b0 = r.v] ELSE Bad(st)
FastDeclare(st, line, kind) ==
  LET k == Tk(line, 1) IN
  IF k = "start" THEN (IF Len(st.b0) > 0 \/ st.s0 > 0 THEN Unspec(st) ELSE FastStart(st, line, kind))
  ELSE CASE k = "discount" -> IF Is(line, <<k, ":", "num">>) THEN Declare([st EXCEPT !.p = 1], line) ELSE Bad(st)
         [] k = "values" -> IF Is(line, <<k, ":", "reward">>) THEN Declare([st EXCEPT !.p = 1], line) ELSE Bad(st)
         [] k = "observations" /\ kind = "mdp" -> Bad(st)
         \* the start statement must follow the sizes
         [] k = "states" /\ (Len(st.b0) > 0 \/ st.s0 > 0) -> Unspec(st)
         [] OTHER -> IF Is(line, <<k, ":", "int">>) THEN Declare([st EXCEPT !.p = 1], line) ELSE Bad(st)
FastReady(st, kind) == PreambleComplete(st) /\ (IF kind = "pomdp" THEN st.O > 0 /\ Len(st.b0) > 0 ELSE st.s0 > 0)
FastAlloc(st) == [Allocate(st) EXCEPT !.b0 = st.b0]
FastEntry(st, line) ==
  LET k == Tk(line, 1)
      pat == CASE k = "R" -> IF PomdpKind(st) THEN <<"R", ":", "int", ":", "int", ":", "*", ":", "*", "num">>
                             ELSE <<"R", ":", "int", ":", "int", ":", "*", "num">>
               [] OTHER -> <<k, ":", "int", ":", "int", ":", "int", "num">>
      x == Nums(line, IF k = "R" THEN (IF PomdpKind(st) THEN 10 ELSE 8) ELSE 8, TRUE, <<>>)
      v == x.v[1]
      a == Ix(line, 3, st.A)
      s == Ix(line, 5, st.S)
      u == Ix(line, 7, IF k = "T" THEN st.S ELSE st.O)
  IN IF k = "O" /\ ~PomdpKind(st) THEN Bad(st)
     ELSE IF ~Is(line, pat) THEN Bad(st)
     ELSE IF a = 0 \/ s = 0 THEN Bad(st)
     ELSE IF k = "R" THEN [st EXCEPT !.R[a][s] = [z \in SS(st) |-> [o \in OO(st) |-> v]]]
     ELSE IF u = 0 \/ v < 0 \/ v > ONE THEN Bad(st)
     ELSE IF k = "T" THEN [st EXCEPT !.T[a][s][u] = v]
     ELSE [st EXCEPT !.Ob[a][s][u] = v]
\* one step consumes one line (st.p counts lines)
\* sums between the two parsers' tolerances are not decided
FastFinish(st, kind) ==
  LET r == Finish(st, kind) IN
  IF r.ph = "bad" THEN r
  ELSE IF (\A a \in AA(st), s \in SS(st) : Sum(st.T[a][s]) = ONE /\ Sum(st.Ob[a][s]) = ONE) /\ (kind = "pomdp" => Sum(st.b0) = ONE) THEN r
  ELSE Unspec(st)
FastStep(st, lines, kind) ==
  IF st.p > Len(lines) THEN (IF st.ph = "pre" THEN Bad(st) ELSE FastFinish(st, kind))
  ELSE LET line == lines[st.p]
           k == Tk(line, 1)
           q == st.p + 1
           r == IF line = <<>> THEN st
                ELSE IF st.ph = "pre" THEN
                  IF k \in FastBody THEN (IF FastReady(st, kind) THEN FastEntry(FastAlloc(st), line) ELSE Bad(st))
                  ELSE IF k \in {"discount", "values", "states", "actions", "observations", "start"} THEN FastDeclare(st, line, kind)
                  ELSE Bad(st)
                ELSE IF k \in FastBody THEN FastEntry(st, line) ELSE Bad(st)
       IN [r EXCEPT !.p = q]

-----------------------------------------------------------------------------
(* what the planner works with *)
Sign(st) == IF st.val = "cost" THEN 0 - 1 ELSE 1
RBar(st, a, s) == Sign(st) * SumSeq([u \in SS(st) |-> IF st.T[a][s][u] = 0 THEN 0 ELSE
                    Mul(st.T[a][s][u], SumSeq([o \in OO(st) |-> IF st.Ob[a][u][o] = 0 THEN 0 ELSE Mul(st.Ob[a][u][o], st.R[a][s][u][o], ONE)]), ONE)])
IsTerminal(st, s) == \A a \in AA(st) : st.T[a][s][s] = ONE /\ RBar(st, a, s) = 0
=============================================================================
