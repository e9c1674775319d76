----------------------------- MODULE ConfigEmit ------------------------------
(* writes every invocation of ConfigMC for replay on the real program *)
EXTENDS ConfigMC, Json, IOUtils, SequencesExt
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([args : {Flat(a) : a \in SeqsUpTo(Pieces, NArgs)}, conf : SeqsUpTo(Lines, NLines)]))
InitE == P = <<>> /\ st = <<>>
NextE == UNCHANGED <<P, st>>
=============================================================================
