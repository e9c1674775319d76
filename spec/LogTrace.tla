------------------------------ MODULE LogTrace ------------------------------
(* A planning run that writes backup logs, the files it wrote, and a replay of *)
(* (possibly edited) log files by the scripted strategy, judged against        *)
(* BackupLog (P17).                                                            *)
EXTENDS BackupLog, Json, IOUtils
CONSTANT Props
VARIABLES l, viol,
  pl, fl, rl,      \* lines of the current Problem, Fin and Files events
  ups,             \* nodes backed up so far, in order
  given, phase
vars == <<l, viol, pl, fl, rl, ups, given, phase>>

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
E == Log[l]
P == Log[pl]
F == Log[fl]
Ob(text, ok) == IF ok \/ "P17" \notin Props THEN {} ELSE {<<"P17", text>>}
Tag(S) == {<<o[1], o[2], l, P.run>> : o \in S}
Near(x, y) == x - y \in -2..2
NoGiven == [index |-> <<>>, log |-> <<>>, same |-> 0, ok |-> TRUE]
\* node of a state vector
NodeOf(raw) == [v \in {raw[k] : k \in DOMAIN raw} |-> CHOOSE k \in DOMAIN raw : raw[k] = v]

Init == l = 1 /\ viol = {} /\ pl = 1 /\ fl = 1 /\ rl = 1 /\ ups = <<>> /\ given = NoGiven /\ phase = "none"

Problem == /\ E.e = "Problem" /\ pl' = l /\ ups' = <<>> /\ given' = NoGiven /\ phase' = "run" /\ UNCHANGED <<viol, fl, rl>>
Upd == /\ E.e = "Upd" /\ ups' = Append(ups, E.id) /\ UNCHANGED <<viol, pl, fl, rl, given, phase>>
Fin == /\ E.e = "Fin" /\ fl' = l
       /\ viol' = viol \cup (IF phase # "replay" THEN {} ELSE Tag(
            LET want == [i \in DOMAIN given.log |-> given.index[given.log[i]]]
                got == [i \in DOMAIN ups |-> E.raw[ups[i]]]
            IN Ob("damaged logs were replayed", given.ok) \cup
               Ob("the replay does not back up the logged states in order", given.ok => got = want)))
       /\ UNCHANGED <<pl, rl, ups, given, phase>>
End == /\ E.e = "End" /\ UNCHANGED <<pl, fl, rl, ups, given, phase>>
       /\ viol' = viol \cup Tag(Ob("the replay does not end with the script", phase = "replay" => E.done = 1))
Cut == /\ E.e = "Cut" /\ phase' = "cut" /\ UNCHANGED <<viol, pl, fl, rl, ups, given>>

\* the files of the run (a bound variable is evaluated once, a LET at every use)
FilesOK(f, x, no, order, lg, vals, q) ==
  LET n == Len(x.vecs)
      all == IF P.q = 1 THEN DOMAIN f.raw ELSE {order[i] : i \in DOMAIN order}
  IN UNION {
     UNION {
          Ob("the state index is malformed", x.ok) \cup
          Ob("the state index lists a state that was never visited", x.ok => fits) \cup
          Ob("the state index lists a state twice", Cardinality({x.vecs[i] : i \in 1..n}) = n) \cup
          Ob("the state index does not list exactly the states in question", fits => {node[i] : i \in 1..n} = all) \cup
          Ob("the states are not listed in the order of their first backup",
             (fits /\ n >= Len(order)) => \A i \in DOMAIN order : node[i] = order[i]) \cup
          (IF P.lg = 0 THEN {} ELSE
           Ob("the backup log is malformed", LogOK(n, lg)) \cup
           Ob("the backup log does not list every backup once, in order",
              (fits /\ LogOK(n, lg)) => [i \in DOMAIN lg |-> node[lg[i][2] + 1]] = ups) \cup
           Ob("the bounds listed are not those of the states",
              fits => /\ Len(vals) = n
                      /\ \A i \in 1..n : /\ Len(vals[i]) = 3 /\ vals[i][1] = i - 1
                                         /\ Near(vals[i][2], f.val[node[i]][1])
                                         /\ Near(vals[i][3], f.val[node[i]][2]))) \cup
          (IF P.q = 0 THEN {} ELSE
           Ob("the Q values listed are not those of the states",
              fits => /\ Len(q) = n * P.A
                      /\ \A i \in 1..n : \A a \in 1..P.A :
                           LET r == q[(i - 1) * P.A + a]
                           IN /\ Len(r) = 4 /\ r[1] = i - 1 /\ r[2] = a - 1
                              /\ Near(r[3], f.q[node[i]][a][1]) /\ Near(r[4], f.q[node[i]][a][2])))
          \* the node each listed state is
          : node \in {IF fits THEN [i \in 1..n |-> no[x.vecs[i]]] ELSE <<>>}}
     : fits \in {x.ok /\ {x.vecs[i] : i \in 1..n} \subseteq DOMAIN no}}
Files ==
  /\ E.e = "Files"
  /\ viol' = viol \cup Tag(UNION {FilesOK(F, x, no, order, E.log, E.vals, E.q) :
                 x \in {ReadIndex(P.dim, E.index)}, no \in {NodeOf(F.raw)},
                 order \in {IF P.lg = 1 THEN FirstOrder(ups) ELSE <<>>}})
  /\ rl' = l
  /\ UNCHANGED <<pl, fl, ups, given, phase>>

\* the files given to the replay
Given ==
  /\ E.e = "Given"
  /\ LET x == TLCEval(ReadIndex(P.dim, E.index))
         ok == TLCEval(LogOK(Len(x.vecs), E.log))
     IN given' = [index |-> x.vecs, ok |-> x.ok /\ ok /\ E.missing = 0,
                  log |-> IF ok THEN ReadLog(E.log) ELSE <<>>, same |-> E.same]
  /\ phase' = "replay" /\ ups' = <<>>
  /\ UNCHANGED <<viol, pl, fl, rl>>
\* the list of bounds the replay wrote
\* the search strategies that discard upper bounds computed to look at a residual
\* log those backups too; their replay keeps the bounds, so it can be tighter
Same(got, want) == Near(got[2], want[2]) /\ Near(got[3], want[3])
Tighter(got, want) == got[2] >= want[2] - 2 /\ got[3] <= want[3] + 2
AfterOK(f, no, vals, ref) ==
  Ob("the replay does not list the bounds of the indexed states",
     /\ Len(vals) = Len(given.index)
     /\ \A i \in DOMAIN vals :
           /\ Len(vals[i]) = 3 /\ vals[i][1] = i - 1
           /\ given.index[i] \in DOMAIN no => Same(vals[i], <<i, f.val[no[given.index[i]]][1], f.val[no[given.index[i]]][2]>>)) \cup
  Ob("the replay does not arrive at the same bounds",
     given.same = 1 => /\ Len(vals) = Len(ref)
                       /\ \A i \in DOMAIN ref : IF P.keeps = 1 THEN Same(vals[i], ref[i]) ELSE Tighter(vals[i], ref[i]))
After ==
  /\ E.e = "After"
  /\ viol' = viol \cup Tag(IF ~given.ok THEN {} ELSE
       UNION {AfterOK(F, no, E.vals, Log[rl].vals) : no \in {NodeOf(F.raw)}})
  /\ UNCHANGED <<pl, fl, rl, ups, given, phase>>
Crash == /\ E.e = "Crash"
         /\ viol' = viol \cup Tag(
              Ob("the run that writes the logs failed", phase = "replay") \cup
              Ob("well-formed logs were refused", phase = "replay" => ~given.ok) \cup
              Ob("damaged logs crashed the replay", phase = "replay" => E.rc = 1 /\ E.sig = 0 /\ E.msg > 0))
         /\ UNCHANGED <<pl, fl, rl, ups, given, phase>>
Other == /\ E.e \in {"Init", "Node", "Chg", "Vals"} /\ UNCHANGED <<viol, pl, fl, rl, ups, given, phase>>

Next == /\ l <= N /\ l' = l + 1
        /\ \/ Problem \/ Upd \/ Fin \/ End \/ Cut \/ Files \/ Given \/ After \/ Crash \/ Other
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
