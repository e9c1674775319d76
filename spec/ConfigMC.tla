------------------------------ MODULE ConfigMC -------------------------------
(* The settings machine closed over a small vocabulary: every configuration    *)
(* file of up to two lines and every command line of up to four pieces. The    *)
(* machine's result must be the one the precedence rule states directly.       *)
EXTENDS Config
CONSTANTS NLines, NArgs
Lines == {<<>>, <<"#", "maxHorizon", "9">>, <<"maxHorizon", "3">>, <<"searchStrategy", "hsvi">>, <<"alias", "-x", "-s", "lrtdp">>,
          <<"alias", "-s", "--maxHorizon">>, <<"alias", "-x", "-s">>, <<"alias", "-s", "-x">>, <<"nosuch", "1">>, <<"maxHorizon">>}
Pieces == {<< <<"-c">>, <<"f">> >>, << <<"--config">>, <<"g">> >>, << <<"-s">>, <<"rtdp">> >>, << <<"--searchStrategy">>, <<"hdp">> >>, << <<"-x">> >>, << <<"-x">>, <<"5">> >>,
           << <<"--maxHorizon", "7">> >>, << <<"--maxHorizon">> >>, << <<"--nosuch">>, <<"1">> >>, << <<"solve">> >>, << <<"eval">> >>, << <<"m.pomdp">> >>, << <<"--">> >>, << <<"-f">> >>}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
VARIABLES P, st
Models == [x \in {"m.pomdp"} |-> [kind |-> "pomdp", nodisc |-> FALSE]]
Init == /\ P \in [args : {Flat(a) : a \in SeqsUpTo(Pieces, NArgs)}, files : {[x \in {"f"} |-> c] : c \in SeqsUpTo(Lines, NLines)},
                  models : {Models}, policies : {[x \in {"out.policy"} |-> "maxPlanes"]}]
        /\ st = Start0
Next == ~Final(st) /\ st' = Step(st, P) /\ UNCHANGED P
Spec == Init /\ [][Next]_<<P, st>> /\ WF_<<P, st>>(Next)
(* the rule, stated directly *)
Words == Flat(P.args)
Confs == {i \in 1..(Len(P.args) - 1) : P.args[i] \in {<<"-c">>, <<"--config">>}}
ReadsFile == st.conf = "f"
FileVal(f) == LET L == P.files.f
                  k == {i \in 1..Len(L) : Len(L[i]) >= 2 /\ L[i][1] = f}
              IN IF ~ReadsFile \/ k = {} THEN DefaultCfg[f] ELSE L[CHOOSE i \in k : \A j \in k : j <= i][2]
Opts == IF st.rest = <<>> THEN 0 ELSE 0
\* last "--f v" among the expanded words before "--" (values are skipped)
RECURSIVE LastOpt(_, _, _)
LastOpt(ws, f, v) == IF ws = <<>> \/ ws[1] = "--" THEN v
                     ELSE IF Dashes(ws[1]) = 2 THEN IF Len(ws) = 1 THEN v ELSE LastOpt(SubSeq(ws, 3, Len(ws)), f, IF ws[1] = "--" \o f THEN ws[2] ELSE v)
                     ELSE LastOpt(Tail(ws), f, v)
Expanded == st.ph \in {"ok", "infer", "command"}
Precedence == Expanded => \A f \in {"maxHorizon", "searchStrategy", "useFastModelParser"} : st.cfg[f] = LastOpt(st.words, f, FileVal(f))
NoAliasLeft == Expanded => \A i \in DOMAIN st.words : st.words[i] \notin DOMAIN st.al
NeverNewFields == DOMAIN st.cfg = DOMAIN DefaultCfg
OkIsLegal == st.ph = "ok" => WellTyped(st.cfg) /\ st.cfg.command \in {"solve", "benchmark", "evaluate"}
Ends == <>Final(st)
=============================================================================
