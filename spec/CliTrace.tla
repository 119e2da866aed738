------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Lines printed by the real tools, and their exit status, against Cli.    *)
(***************************************************************************)
EXTENDS Cli, TraceKit

H == Traces[tid].hdr
CInit(t) == {Start(Traces[t].hdr)}
CStep(s, e) ==
  LET r == Ready(H, s)
  IN CASE e.op = "line" -> IF CanSay(H, r) THEN IF e.text \in SaidAt(H, r) THEN {Say(r)} ELSE {} ELSE {}
       [] e.op = "exit" -> IF CanQuit(H, r) /\ Status(r) = e.code THEN {Quit(r)} ELSE {}
       \* after the end: the files
       [] e.op = "file" -> IF s.end /\ e.made = Made(H, e.k) /\ e.same /\ e.kept THEN {s} ELSE {}
       [] OTHER -> {}
CAllow(s, e) ==
  LET r == Ready(H, s)
  IN IF CanSay(H, r) THEN [line |-> SaidAt(H, r), code |-> -1]
     ELSE [line |-> {}, code |-> Status(r)]
=============================================================================
