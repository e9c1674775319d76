----------------------------- MODULE BackupLog ------------------------------
(* The files of the backup log: a state index naming state vectors 0, 1, 2 .. *)
(* in order, each a sparse vector, and a log of backups referring to it.       *)
(* A file is a sequence of lines: <<"state", n>>, <<"entry", i, v>>,           *)
(* <<"id", n>> or <<"bad">> (anything else that is not blank or a comment).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* reading an index whose vectors have D entries: the vectors, or bad
IndexStart == [vecs |-> <<>>, ok |-> TRUE]
IndexLine(D, acc, t) ==
  IF ~acc.ok THEN acc
  ELSE IF t[1] = "state"
  THEN [vecs |-> Append(acc.vecs, <<>>), ok |-> t[2] = Len(acc.vecs)]
  ELSE IF t[1] = "entry" /\ acc.vecs # <<>> /\ t[2] \in 0..(D - 1)
  THEN [acc EXCEPT !.vecs[Len(acc.vecs)] = Append(@, <<t[2], t[3]>>)]
  ELSE [acc EXCEPT !.ok = FALSE]
ReadIndex(D, f) == FoldLeft(LAMBDA acc, t : IndexLine(D, acc, t), IndexStart, f)

\* reading a log against an index of n states: positions (1-based), or bad
LogOK(n, f) == \A i \in DOMAIN f : f[i][1] = "id" /\ f[i][2] \in 0..(n - 1)
ReadLog(f) == [i \in DOMAIN f |-> f[i][2] + 1]

\* writing: the states of a run of backups u (node numbers) in the order of
\* their first backup
FirstOrder(u) == FoldLeft(LAMBDA acc, x : IF x \in acc.seen THEN acc
                                          ELSE [seq |-> Append(acc.seq, x), seen |-> acc.seen \cup {x}],
                          [seq |-> <<>>, seen |-> {}], u).seq
Position(order) == [x \in {order[i] : i \in DOMAIN order} |-> CHOOSE i \in DOMAIN order : order[i] = x]
=============================================================================
