------------------------------ MODULE CopyTrace ------------------------------
(* Large copies: the interval of the source which reached the output.      *)
EXTENDS TraceKit
CInit(t) == {0}
CStep(s, e) == IF e.res = "ok" /\ e.got = <<e.a, e.n>> THEN {s} ELSE {}
CAllow(s, e) == <<e.a, e.n>>
=============================================================================
