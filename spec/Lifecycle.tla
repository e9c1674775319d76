------------------------------ MODULE Lifecycle ------------------------------
(* What `zmdp solve` and `zmdp benchmark` do around the solver: call it until   *)
(* there is a reason to end, show progress or hold evaluation epochs meanwhile, *)
(* say why the run ended, write the policy and the logs.  Times in ms.          *)
(* M: cmd, T (time limit, 0: none), N (backup limit, <= 0: none), p (target,    *)
(* 1e6), for benchmark also first, ticks (epochs per magnitude), tl, tu (value  *)
(* limits, NONE: none), two (both bounds kept), lb, ub (which are kept).        *)
EXTENDS Integers, Sequences, FiniteSets
NONE == -2100000000
New == [pc |-> "start", t |-> 0, t0 |-> 0, from |-> 0, k |-> 0, tb |-> 0, sig |-> FALSE, fin |-> FALSE, nb |-> 0, l |-> 0, u |-> 0, rl |-> 0, ru |-> 0,
        lastp |-> -100000, shown |-> FALSE, held |-> FALSE, ep |-> <<>>, why |-> "", kept |-> 0]
\* ---- the solver ran once: for d ms, to these values; fin: it found its target reached
Begin(s, t) == [s EXCEPT !.pc = "call", !.t = t, !.from = t, !.k = @ + 1, !.shown = FALSE, !.held = FALSE]
Return(s, c) == [s EXCEPT !.pc = "check", !.t = c.t, !.tb = @ + (c.t - s.from), !.fin = c.fin, !.nb = c.nb, !.l = c.l, !.u = c.u, !.rl = c.rl, !.ru = c.ru]
\* ---- reasons to end: those that hold for sure (slack 2) or may hold (slack -2), values being rounded
Spent(M, s) == IF M.cmd = "solve" THEN s.t - s.t0 ELSE s.tb
Reasons(M, s, slack) ==
  (IF s.fin THEN {"target"} ELSE {}) \cup
  (IF M.N > 0 /\ s.nb >= M.N THEN {"backups"} ELSE {}) \cup
  (IF M.T > 0 /\ Spent(M, s) >= M.T THEN {"timeout"} ELSE {}) \cup
  (IF M.cmd = "solve"
   THEN (IF s.sig THEN {"interrupt"} ELSE {})
   ELSE (IF M.two /\ M.p > 0 /\ s.ru - s.rl <= M.p - slack THEN {"precision"} ELSE {}) \cup
        (IF M.lb /\ M.tl # NONE /\ s.rl >= M.tl + slack THEN {"lower"} ELSE {}) \cup
        (IF M.ub /\ M.tu # NONE /\ s.ru <= M.tu - slack THEN {"upper"} ELSE {}))
MustEnd(M, s) == s.k > 0 /\ Reasons(M, s, 2) # {}
MayEnd(M, s) == s.k > 0 /\ Reasons(M, s, -2) # {}
\* ---- progress is shown at least every ten seconds and at the end
Due(M, s) == MustEnd(M, s) \/ s.t - s.lastp > 10000
Show(s) == [s EXCEPT !.shown = TRUE, !.lastp = s.t]
\* ---- evaluation epochs: evenly spaced in the logarithm of the time, and one at the end
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Last(s) == s.ep[Len(s.ep)]
\* (times up to 2000 units of 100 ms keep the powers below 2^31)
Spaced(M, s, strict) == \/ Len(s.ep) = 0
                        \/ LET a == Pow(s.tb \div M.unit, M.ticks) b == 10 * Pow(Last(s) \div M.unit, M.ticks) IN IF strict THEN a > b ELSE a >= b
EpochMust(M, s) == MustEnd(M, s) \/ (s.tb > M.first /\ Spaced(M, s, TRUE))
EpochMay(M, s) == MayEnd(M, s) \/ (s.tb > M.first /\ Spaced(M, s, FALSE))
Hold(s) == [s EXCEPT !.held = TRUE, !.ep = Append(@, s.tb)]
=============================================================================
