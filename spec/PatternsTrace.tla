---------------------------- MODULE PatternsTrace ----------------------------
(* Recorded histories of sets of patterns: adding texts and expressions,     *)
(* searching, and asking which pattern matches a text.                       *)
EXTENDS Patterns, TraceKit

PInit(t) == {[pats |-> <<>>]}
PStep(s, e) ==
  CASE e.op = "string" -> IF e.res = "ok" THEN {[s EXCEPT !.pats = AddText(@, e.s, e.id)]} ELSE {}
    [] e.op = "regex" ->
         \* (an empty text repeated without limit may be refused as well)
         IF Allowed_(e.e) /\ e.res = "ok" THEN {[s EXCEPT !.pats = AddExpr(@, e.e, e.id)]}
         ELSE IF Unlimited(e.e) /\ e.res = "ValueError" THEN {s} ELSE {}
    [] e.op = "search" ->
         IF e.res = "ok" /\ Right(s.pats, e.d, e.found) /\ Complete(s.pats, e.d, e.found) THEN {s} ELSE {}
    [] e.op = "which" ->
         LET full == {i \in 1..Len(s.pats) : Full(s.pats[i].e, e.d)}
         IN IF IF full = {} THEN e.res = "KeyError"
               ELSE e.res = "ok" /\ \E i \in full : s.pats[i].id = e.id
            THEN {s} ELSE {}
    [] e.op = "longest" ->
         IF s.pats # <<>> => e.n >= Longest(s.pats) THEN {s} ELSE {}
PAllow(s, e) ==
  CASE e.op = "search" -> [hits |-> SetToSeq(Hits(s.pats, e.d))]
    [] e.op = "longest" -> [n |-> Longest(s.pats)]
    [] OTHER -> [n |-> Len(s.pats)]
=============================================================================
