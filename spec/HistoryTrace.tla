----------------------------- MODULE HistoryTrace -----------------------------
(* A real document which is read, forgotten and read again in any order.       *)
(* Header: sets, the field sets of the document as one complete reading in     *)
(* order shows them: [rows |-> its fields].                                     *)
(* row [n |-> name, a |-> address, z |-> size, s |-> is a set, v |-> digest of  *)
(*      the value, f |-> the field is a filler]                                 *)
(* The document never changes, so there is no state but the tree itself.        *)
EXTENDS TraceKit

HiInit(t) == {0}
T == Traces[tid]
\* the name of a filler tells why it is there: its place and size count
SameRow(x, y) == /\ x.a = y.a /\ x.z = y.z /\ x.s = y.s /\ x.v = y.v /\ x.f = y.f
                 /\ x.f \/ x.n = y.n
SameRows(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameRow(p[i], q[i])
HiStep(s, e) ==
  CASE e.op = "list" -> IF e.raised = "" /\ SameRows(e.rows, T.sets[e.i].rows) THEN {s} ELSE {}
    [] e.op = "get" -> IF e.raised = "" /\ SameRow(e.row, T.sets[e.i].rows[e.k]) THEN {s} ELSE {}
    [] e.op = "reset" -> IF e.raised = "" THEN {s} ELSE {}
    [] e.op = "stream" -> IF e.sum = T.sums[e.k].sum THEN {s} ELSE {}
HiAllow(s, e) == CASE e.op = "list" -> [rows |-> T.sets[e.i].rows]
                   [] e.op = "get" -> [row |-> T.sets[e.i].rows[e.k]]
                   [] e.op = "stream" -> [sum |-> T.sums[e.k].sum]
                   [] OTHER -> [n |-> 0]
=============================================================================
