------------------------------ MODULE LifeTrace ------------------------------
(* Runs of the real front end (harness/spy.cc) against Lifecycle: the calls to  *)
(* the solver, the interrupts, the lines printed, the files written.            *)
EXTENDS Lifecycle, FixedPoint, Json, IOUtils, TLC
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, s, calls, viol
vars == <<l, pl, s, calls, viol>>
E == Trace[l]
M == Trace[pl]
Ob(p, name, cond) == IF p \in Props THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
P == IF M.cmd = "solve" THEN "P16" ELSE "P19"
Near(x, y, t) == Abs(x - y) <= t
\* six significant digits of a value, four decimals of it
Six(v) == Abs(v) \div 100000 + 3
FourD == 55
Init == l = 1 /\ pl = 0 /\ s = New /\ calls = <<>> /\ viol = {}
Step == l' = l + 1 /\ UNCHANGED pl
Fail(vs) == viol' = viol \cup Tag(vs)
Problem == E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ s' = New /\ calls' = <<>> /\ UNCHANGED viol
Read == E.e = "Read" /\ Step /\ s' = [s EXCEPT !.pc = "read", !.t = E.t, !.t0 = E.t] /\ UNCHANGED calls
        /\ Fail(Ob(P, "policy output is enabled without a lower bound of planes, or disabled with one", E.pol = M.pol) \cup
                Ob(P, "not the bounds asked for are kept", E.lb = (IF M.lb THEN 1 ELSE 0) /\ E.ub = (IF M.ub THEN 1 ELSE 0)))
InitB == E.e = "InitB" /\ Step /\ s' = [s EXCEPT !.pc = "init"] /\ UNCHANGED calls /\ Fail(Ob(P, "initialized twice or out of order", s.pc = "read"))
InitE == E.e = "InitE" /\ Step /\ s' = [s EXCEPT !.pc = "loop", !.t = E.t] /\ UNCHANGED <<calls, viol>>
\* the call before this one is over and done with
Closed == IF M.cmd = "solve" THEN Ob("P16", "no progress was shown for over ten seconds", s.k > 0 /\ Due(M, s) => s.shown)
          ELSE Ob("P19", "an evaluation epoch was left out", s.k > 0 /\ EpochMust(M, s) => s.held)
CallB == E.e = "CallB" /\ Step /\ s' = Begin(s, E.t) /\ UNCHANGED calls
         /\ Fail(Closed \cup Ob(P, "the solver was called out of order", s.pc \in {"loop", "check"}) \cup
                 Ob(P, "goes on although there is a reason to end", ~MustEnd(M, s)))
Sig == E.e = "Sig" /\ Step /\ s' = [s EXCEPT !.sig = TRUE] /\ UNCHANGED <<calls, viol>>
CallE == E.e = "CallE" /\ Step
         /\ LET n == Return(s, [t |-> E.t, fin |-> E.fin = 1, nb |-> E.nb, l |-> E.l, u |-> E.u, rl |-> E.rl, ru |-> E.ru])
            IN s' = n /\ calls' = Append(calls, [t |-> n.tb, l |-> E.rl, u |-> E.ru, nt |-> E.nt, ne |-> E.ne, ntr |-> E.ntr, nb |-> E.nb])
         /\ Fail(Ob(P, "the solver reports its target reached with a wider interval", E.fin = 1 /\ M.strict => E.rl >= E.ru - M.p - 2) \cup
                 Ob(P, "the solver's return value is neither its target nor its backup limit", (E.ret = 1) = (E.fin = 1 \/ (M.N > 0 /\ E.nb >= M.N))))
\* ---- lines
Line == E.e = "Line" /\ Step /\ UNCHANGED calls
Time == Ob("P16", "wrong time on a line", E.sec = s.t \div 1000)
Reading == Line /\ E.kind = "reading" /\ UNCHANGED s /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "start"))
Heur == Line /\ E.kind = "heur" /\ UNCHANGED s /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "read"))
Ready == Line /\ E.kind = "ready" /\ UNCHANGED s /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "loop" /\ s.k = 0))
Progress == Line /\ E.kind = "progress" /\ s' = Show(s)
  /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "check") \cup
          Ob("P16", "wrong number of calls shown", E.calls = s.k) \cup
          Ob("P16", "the bounds shown are not the solver's", Near(E.l, s.l, FourD) /\ Near(E.u, s.u, FourD)) \cup
          Ob("P16", "the regret shown is not the gap between the bounds", Near(E.reg, s.u - s.l, Six(s.u - s.l))))
Heard == Line /\ E.kind = "heard" /\ UNCHANGED s /\ Fail(Ob("P16", "an interrupt was announced that did not happen", s.sig))
Why == Line /\ E.kind = "why" /\ s' = [s EXCEPT !.pc = "why", !.why = E.why]
  /\ Fail(Time \cup Closed \cup Ob("P16", "the run ends without having been called to", s.pc = "check") \cup
          Ob("P16", "the reason given for ending is not true", E.why \in Reasons(M, s, -2)) \cup
          Ob("P16", "the limit in the reason given is not the one set", E.lim = -1 \/ E.lim = (CASE E.why = "target" -> M.p [] E.why = "timeout" -> M.T [] E.why = "backups" -> M.N [] OTHER -> -1)))
NoPol == Line /\ E.kind = "nopol" /\ s' = [s EXCEPT !.pc = "policy"] /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "why") \cup Ob("P16", "the policy asked for is not written", M.pol = 0))
Writing == Line /\ E.kind = "writing" /\ s' = [s EXCEPT !.pc = "policy"] /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "why") \cup Ob("P16", "the policy is written to another file", M.pol = 1 /\ E.file = M.file))
Finishing == Line /\ E.kind = "finish" /\ UNCHANGED s /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "policy"))
DoneL == Line /\ E.kind = "done" /\ s' = [s EXCEPT !.pc = "done"] /\ Fail(Time \cup Ob("P16", "a line out of order", s.pc = "logged"))
Batch == Line /\ E.kind = "batch" /\ s' = Hold(s)
  /\ Fail(Ob("P19", "an evaluation epoch out of order", s.pc = "check" /\ ~s.held) \cup Ob("P19", "an evaluation epoch that is not due", EpochMay(M, s)))
Other == Line /\ E.kind = "other" /\ UNCHANGED <<s, viol>>
LogB == E.e = "LogB" /\ Step /\ UNCHANGED calls /\ s' = [s EXCEPT !.pc = "logging"]
        /\ Fail(IF M.cmd = "solve" THEN Ob("P16", "logging is finished out of order", s.pc = "policy")
                ELSE Closed \cup Ob("P19", "the run ends without a reason", s.pc = "check" /\ MayEnd(M, s)))
LogE == E.e = "LogE" /\ Step /\ UNCHANGED <<calls, viol>> /\ s' = [s EXCEPT !.pc = "logged"]
Cut == E.e = "Cut" /\ Step /\ UNCHANGED calls /\ s' = [s EXCEPT !.pc = "cut"] /\ Fail(Ob(P, "goes on although there is a reason to end", ~MustEnd(M, s)))
Exit == E.e = "Exit" /\ Step /\ UNCHANGED calls /\ s' = [s EXCEPT !.kept = IF E.sig # 0 THEN 1 ELSE 0]
        /\ Fail(IF s.pc = "cut" THEN {} ELSE IF M.torn = 1 THEN Ob(P, "did not end properly", (E.rc = 0 /\ E.sig = 0) \/ E.sig \in {9, 25}) ELSE
                Ob(P, "did not end properly", E.rc = 0 /\ E.sig = 0 /\ s.pc = (IF M.cmd = "solve" THEN "done" ELSE "logged")))
\* ---- files
\* what the planes that apply to the initial belief promise there
Applies(q) == \A i \in DOMAIN M.b0 : M.b0[i] > 0 => q.m[i] = 1
Worth == MaxSet({NONE} \cup {Dot(E.planes[i].al, M.b0, PS) : i \in {j \in DOMAIN E.planes : Applies(E.planes[j])}})
Whole == s.pc \in {"done", "logged"}
Pol == E.e = "Pol" /\ Step /\ UNCHANGED <<s, calls>>
       /\ Fail((IF ~Whole THEN {} ELSE
                Ob(P, "no complete policy was written", M.pol = 1 => E.ok = 1) \cup
                Ob(P, "a policy was written that was not asked for", M.pol = 0 => E.there = 0) \cup
                Ob(P, "the policy written is not worth the lower bound reported", M.pol = 1 /\ E.ok = 1 => Near(Worth, s.l, 3 * Six(s.l) + 20)) \cup
                Ob(P, "a backup copy of the policy is left over", E.bak = 0)) \cup
               \* once a policy has been written, one survives whatever happens to the next
               Ob("P19", "no complete policy survives", M.pol = 1 /\ M.cmd = "benchmark" /\ Len(s.ep) >= 1 => E.ok = 1 \/ E.bakok = 1))
\* the bounds log: lines of calls in order; the first and the last, and each by which time has grown by 0.01%
SameRow(r, c) == Near(r[1], c.t, 10) /\ Near(r[2], c.l, Six(c.l)) /\ Near(r[3], c.u, Six(c.u)) /\ r[4] = c.nt /\ r[5] = c.ne /\ r[6] = c.ntr /\ r[7] = c.nb
RowOf(r) == {i \in DOMAIN calls : Near(r[1], calls[i].t, 10)}
Bnd == E.e = "Bounds" /\ Step /\ UNCHANGED <<s, calls>>
  /\ LET R == E.rows
         at == [j \in DOMAIN R |-> IF RowOf(R[j]) = {} THEN 0 ELSE CHOOSE i \in RowOf(R[j]) : TRUE]
     IN Fail(Ob("P19", "a line of the bounds log matches no call to the solver", \A j \in DOMAIN R : at[j] # 0 /\ SameRow(R[j], calls[at[j]])) \cup
             Ob("P19", "the lines of the bounds log are not in order", \A j \in 1..Len(R)-1 : at[j] < at[j+1]) \cup
             Ob("P19", "the bounds log runs backwards", \A j \in 1..Len(R)-1 : R[j][1] <= R[j+1][1] /\ \A i \in 4..7 : R[j][i] <= R[j+1][i]) \cup
             Ob("P19", "bounds get worse or cross in the bounds log", (\A j \in 1..Len(R)-1 : (M.lb => R[j][2] <= R[j+1][2] + Six(R[j][2])) /\ (M.ub => R[j][3] >= R[j+1][3] - Six(R[j][3])))
                /\ (M.two => \A j \in DOMAIN R : R[j][2] <= R[j][3] + Six(R[j][3]))) \cup
             Ob("P19", "the bounds log leaves out a call", E.head = 1 /\ ((Whole \/ s.pc = "cut") => \A i \in DOMAIN calls : (i = 1 \/ calls[i].t - calls[i-1].t > calls[i-1].t \div 5000) => \E j \in DOMAIN R : at[j] = i)))
Inc == E.e = "Inc" /\ Step /\ UNCHANGED <<s, calls>>
  /\ Fail(IF ~Whole THEN {} ELSE
          Ob("P19", "the evaluation log has not one line per epoch", Len(E.rows) = Len(s.ep)) \cup
          (IF Len(E.rows) # Len(s.ep) THEN {} ELSE
           Ob("P19", "wrong time in the evaluation log", \A i \in DOMAIN E.rows : Near(E.rows[i][1], s.ep[i], 10)) \cup
           Ob("P19", "the evaluation log does not give the mean of the rewards", \A i \in DOMAIN E.rows : Near(E.rows[i][2], E.means[i], Six(E.means[i]) + 110)) \cup
           Ob("P19", "the confidence interval leaves the range of the rewards", \A i \in DOMAIN E.rows :
                 E.rows[i][3] <= E.rows[i][4] /\ E.rows[i][3] >= E.mins[i] - Six(E.mins[i]) - 110 /\ E.rows[i][4] <= E.maxs[i] + Six(E.maxs[i]) + 110) \cup
           Ob("P19", "the success rate is not a rate", \A i \in DOMAIN E.rows : E.rows[i][5] \in 0..1000000) \cup
           Ob("P19", "the success rate is not the share of trials that ended", E.goals[1] = -1 \/ Len(E.rows) = 0 \/
                 (E.goals[2] > 0 /\ Near(E.rows[Len(E.rows)][5], Mul(E.goals[1], VS, E.goals[2]), 6)))))
Stor == E.e = "Stor" /\ Step /\ UNCHANGED <<s, calls>>
  /\ Fail(IF ~Whole THEN {} ELSE
          Ob("P19", "the storage log has not one line per epoch", Len(E.rows) = Len(s.ep) /\ \A i \in DOMAIN E.rows : Near(E.rows[i][1], s.ep[i], 10)) \cup
          Ob("P19", "the storage total is not the sum of its parts", \A i \in DOMAIN E.rows : LET r == E.rows[i] IN r[2] = r[4] + r[6] + r[8] + r[10]) \cup
          Ob("P19", "the storage log does not give the number of planes", E.np = -1 \/ Len(E.rows) = 0 \/ E.rows[Len(E.rows)][3] = E.np))
\* a behaviour of the closed model replayed: it went as the model said
Expect == E.e = "Expect" /\ Step /\ UNCHANGED <<s, calls>>
  /\ Fail(Ob(P, "not the behaviour the model has", s.k = E.k /\ (M.cmd = "solve" => s.why \in {E.why[i] : i \in DOMAIN E.why}) /\ s.ep = E.ep))
Next == l <= N /\ (Problem \/ Read \/ InitB \/ InitE \/ CallB \/ Sig \/ CallE \/ Reading \/ Heur \/ Ready \/ Progress \/ Heard \/ Why \/ NoPol \/ Writing
                   \/ Finishing \/ DoneL \/ Batch \/ Other \/ LogB \/ LogE \/ Cut \/ Exit \/ Pol \/ Bnd \/ Inc \/ Stor \/ Expect)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
