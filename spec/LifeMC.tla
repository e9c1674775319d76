------------------------------- MODULE LifeMC --------------------------------
(* The front end under every schedule: how long each call takes, what it        *)
(* reports, when the user interrupts.                                           *)
EXTENDS Lifecycle
CONSTANTS NCalls, Cmds
VARIABLES M, s, todo, shows, when, hist
vars == <<M, s, todo, shows, when, hist>>
Entry == [d : {1000, 4100, 12000}, fin : {0, 1}, sig : {"n", "b", "t", "v"}]
Limits == {[cmd |-> c, T |-> t, N |-> n, p |-> 1000, first |-> 2050, ticks |-> k, unit |-> 100, tl |-> NONE, tu |-> NONE, two |-> TRUE, lb |-> TRUE, ub |-> TRUE] :
             c \in Cmds, t \in {0, 4550, 13050}, n \in {0, 2}, k \in {1, 2}}
Init == M \in {m \in Limits : m.cmd = "benchmark" \/ m.ticks = 1} /\ s = [New EXCEPT !.pc = "loop"] /\ todo = NCalls /\ shows = <<>> /\ when = <<>> /\ hist = <<>>
Call(e) ==
  /\ s.pc = "loop" /\ ~MustEnd(M, s) /\ todo > 0 /\ (M.cmd = "benchmark" => e.sig = "n") /\ todo' = todo - 1 /\ hist' = Append(hist, e)
  /\ LET b == [Begin(s, s.t) EXCEPT !.sig = @ \/ e.sig \in {"b", "t"}]
         c == Return(b, [t |-> s.t + e.d, fin |-> e.fin = 1, nb |-> s.nb + 1, l |-> 0, u |-> 0, rl |-> 0, ru |-> 1000000])
         \* progress; an interrupt while it is shown counts at the test that follows
         v == e.sig = "v" /\ Due(M, c)
         q == IF M.cmd = "solve" /\ Due(M, c) THEN [Show(c) EXCEPT !.sig = @ \/ v]
              ELSE IF M.cmd = "benchmark" /\ EpochMust(M, c) THEN Hold(c) ELSE c
     IN s' = [q EXCEPT !.pc = "loop"] /\ shows' = (IF q.shown THEN Append(shows, <<s.t + e.d, q.k>>) ELSE shows) /\ when' = (IF q.sig /\ ~s.sig THEN <<s.t, s.t + e.d>> ELSE when)
  /\ UNCHANGED M
End == s.pc = "loop" /\ MustEnd(M, s) /\ s' = [s EXCEPT !.pc = "done", !.why = CHOOSE r \in Reasons(M, s, 2) : TRUE] /\ UNCHANGED <<M, todo, shows, when, hist>>
Next == End \/ \E e \in Entry : Call(e)
Spec == Init /\ [][Next]_vars
\* ---- what follows from the rules
OneCallLate == s.k > 0 => (M.T = 0 \/ s.pc = "done" \/ MustEnd(M, s) \/ Spent(M, s) < M.T)
Interrupted == when # <<>> /\ M.cmd = "solve" => s.t = when[2]                 \* an interrupt ends the run within the call in progress
Truthful == s.pc = "done" => \/ (s.why = "target" /\ s.fin) \/ (s.why = "backups" /\ s.nb >= M.N)
                             \/ (s.why = "timeout" /\ Spent(M, s) >= M.T) \/ (s.why = "interrupt" /\ when # <<>>)
LastShown == s.pc = "done" /\ M.cmd = "solve" => s.shown /\ shows[Len(shows)] = <<s.t, s.k>>
Regular == \A i \in 1..Len(shows)-1 : shows[i+1][1] - shows[i][1] > 10000 \/ (i = Len(shows) - 1 /\ MustEnd(M, s))
LastHeld == s.pc = "done" /\ M.cmd = "benchmark" => Last(s) = s.tb
Sparse == \A i \in 1..Len(s.ep)-1 : Pow(s.ep[i+1] \div 100, M.ticks) > 10 * Pow(s.ep[i] \div 100, M.ticks) \/ (i = Len(s.ep) - 1 /\ MustEnd(M, s))
Stuck == s.pc = "loop" /\ todo > 0 => ENABLED Next
=============================================================================
