------------------------------- MODULE PathTrace -------------------------------
(* Evaluations of the path-and-react policy (and of the blind one) by the real   *)
(* program: the plan it prints and the actions in its simulation log, step by    *)
(* step, against LifePath.                                                       *)
EXTENDS LifePath, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, W, path, bel, steps, trials, viol
vars == <<l, pl, W, path, bel, steps, trials, viol>>
E == Trace[l]
M == Trace[pl]
Ob(name, cond) == IF "P22" \in Props THEN (IF cond THEN {} ELSE {<<"P22", name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Init == l = 1 /\ pl = 0 /\ W = <<>> /\ path = <<>> /\ bel = <<>> /\ steps = 0 /\ trials = 0 /\ viol = {}
Near(x, y, t) == Abs(x - y) <= t
Priors == Val(M, "regionPriors")
Problem == E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ W' = Survey(E) /\ path' = <<>> /\ bel' = <<>> /\ steps' = 0 /\ trials' = 0 /\ UNCHANGED viol
\* the plan: value in 1e-6, at most as much printed
Plan ==
  /\ E.e = "Plan" /\ l' = l + 1 /\ UNCHANGED <<pl, W, bel, steps, trials>>
  /\ path' = [i \in DOMAIN E.cells |-> <<E.cells[i][1], E.cells[i][2]>>]
  /\ viol' = viol \cup Tag(
       UNION {IF b = NoPath THEN Ob("planned a path where there is none", path' = <<>>)
              ELSE IF path' = <<>> THEN Ob("planned no path", FALSE)
              ELSE Ob("the plan does not begin at the start", path'[1] = W.start) \cup
                   (IF path'[1] = W.start /\ Follows(W, path', 1, EAST)
                    THEN Ob("the plan is not as good as said", Near(E.value, Along(W, Priors, path', 1, EAST, Zero(W)), 6)) \cup
                         Ob("the plan is not the best", Near(E.value, b, 6))
                    ELSE Ob("the plan is not a path to an exit", FALSE))
              : b \in {Best(W, Priors, W.start, EAST, Zero(W))}})
Begin ==
  /\ E.e = "Begin" /\ l' = l + 1 /\ UNCHANGED <<pl, W, path>> /\ bel' = Believed0(W) /\ steps' = 0 /\ trials' = trials + 1
  /\ viol' = viol \cup Tag(Ob("a trial was broken off", trials = 0 \/ bel = OVER \/ steps = M.limit))
\* a chosen action (1..7) and the observation that came
Act ==
  /\ E.e = "Act" /\ l' = l + 1 /\ UNCHANGED <<pl, W, path, trials>> /\ steps' = steps + 1
  /\ IF M.blind = 1
     THEN /\ UNCHANGED bel /\ viol' = viol \cup Tag(Ob("the blind policy acted otherwise", E.a = 5))
     ELSE IF bel = OVER \/ Stuck(W, bel)
     THEN /\ UNCHANGED bel /\ viol' = viol \cup Tag(Ob("acted where nothing can be done", FALSE))
     ELSE /\ viol' = viol \cup Tag(Ob("did not act by the rules", E.a = Choose(W, path, bel)))
          /\ bel' = IF Legal(W, bel, E.a) THEN Believe(W, bel, E.a, E.o) ELSE bel
End ==
  /\ E.e = "End" /\ l' = l + 1 /\ UNCHANGED <<pl, W, path, steps, trials>> /\ bel' = OVER
  /\ viol' = viol \cup Tag(Ob("a trial ended early", M.blind = 1 \/ bel = OVER))
Finish ==
  /\ E.e = "Finish" /\ l' = l + 1 /\ UNCHANGED <<pl, W, path, bel, steps, trials>>
  /\ viol' = viol \cup Tag(Ob("trials are missing", trials = M.trials) \cup Ob("a trial was broken off", bel = OVER \/ steps = M.limit))
Fail ==
  /\ E.e = "Crash" /\ l' = l + 1 /\ UNCHANGED <<pl, W, path, bel, steps, trials>>
  /\ viol' = viol \cup Tag(Ob("gave up", M.blind = 0 /\ trials > 0 /\ bel # OVER /\ E.sig = 0 /\ E.msg > 0 /\ (bel # OVER => Stuck(W, bel))))
Next == l <= N /\ (Problem \/ Plan \/ Begin \/ Act \/ End \/ Finish \/ Fail)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
