------------------------------ MODULE LifeEmit -------------------------------
(* writes every finished behaviour of LifeMC for replay on the real program *)
EXTENDS LifeMC, Json, CSV, IOUtils
Emit == s.pc = "done" => CSVWrite("%1$s", <<ToJson([M |-> M, hist |-> hist, shows |-> shows, ep |-> s.ep, k |-> s.k, why |-> Reasons(M, s, 2)])>>, IOEnv.OUT)
=============================================================================
