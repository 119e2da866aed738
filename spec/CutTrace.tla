------------------------------- MODULE CutTrace -------------------------------
(***************************************************************************)
(* The tree of a truncated sample against the tree of the whole one        *)
(* (FieldTreeMC!Kept, recorded set by set).  Header: end, the bits left.   *)
(* Event: a set listed in both trees; full, cut: its children as           *)
(* [nm, a, sz, set, abs].  State: sets still to be compared.               *)
(***************************************************************************)
EXTENDS FieldTree, TraceKit

CInit(t) == {[todo |-> {"/"}, end |-> t.end]}
Before(s, x) == x.abs + x.sz < s.end

\* number of children wholly before the cut
Whole(s, full) == LET C == {i \in 1..Len(full) : ~Before(s, full[i])}
                  IN IF C = {} THEN Len(full) ELSE (CHOOSE i \in C : \A j \in C : i <= j) - 1
CStep(s, e) ==
  LET k == Whole(s, e.full)
      down == {i \in 1..k : e.full[i].set}
      edge == IF k < Len(e.full) /\ k < Len(e.cut) /\ e.full[k + 1].set /\ e.cut[k + 1].set
                 /\ e.full[k + 1].abs < s.end
              THEN {k + 1} ELSE {}
  IN IF e.path \in s.todo /\ k <= Len(e.cut) /\ \A i \in 1..k : e.cut[i] = e.full[i]
     THEN {[s EXCEPT !.todo = (@ \ {e.path}) \cup
              {JoinPath(e.path, e.full[i].nm) : i \in down \cup edge}]}
     ELSE {}
CAllow(s, e) == IF e.path \in s.todo THEN SubSeq(e.full, 1, Whole(s, e.full)) ELSE <<>>
=============================================================================
