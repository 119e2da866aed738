------------------------------ MODULE Patterns ------------------------------
(* Searching many patterns at the same time (hachoir/regex/pattern.py).      *)
(* pats: sequence of [e |-> expression, id |-> user's value]                *)
EXTENDS Regex

Text_Of(pats) == {i \in 1..Len(pats) : pats[i].e.k \in {"str", "empty"}}
\* adding the same text again changes nothing
AddText(pats, txt, id) ==
  IF \E i \in 1..Len(pats) : pats[i].lit /\ pats[i].e = Str_(txt) THEN pats
  ELSE Append(pats, [e |-> Str_(txt), id |-> id, lit |-> TRUE])
AddExpr(pats, e, id) == Append(pats, [e |-> e, id |-> id, lit |-> FALSE])
RECURSIVE Unlimited(_)
Unlimited(e) == (e.k = "rep" /\ e.hi = -1) \/ \E i \in 1..Len(e.a) : Unlimited(e.a[i])
Allowed_(e) == MaxLen(e) # -1

\* the patterns which match from p to q
At(pats, d, p, q) == {i \in 1..Len(pats) : q \in M(pats[i].e, d, p)}
Hits(pats, d) == {<<p, q>> \in (0..Len(d)) \X (0..Len(d)) :
                    p < q /\ At(pats, d, p, q) # {}}
Before(x, y) == x[2] <= y[1] /\ (x[1] < y[1] \/ x[2] < y[2])
\* found: sequence of <<from, to, id>>
Genuine(pats, d, found) ==
  \A k \in 1..Len(found) :
    \E i \in At(pats, d, found[k][1], found[k][2]) : pats[i].id = found[k][3]
Sorted_(found) == \A k \in 1..(Len(found) - 1) : Before(found[k], found[k + 1])
Complete(pats, d, found) ==
  \A h \in Hits(pats, d) :
    \E k \in 1..Len(found) : found[k][1] < h[2] /\ h[1] < found[k][2]
\* a match does not begin later than it can
Leftmost(pats, d, found) ==
  \A h \in Hits(pats, d) :
    \/ \E k \in 1..Len(found) : found[k][1] = h[1] /\ found[k][1] < found[k][2]
    \/ \E k \in 1..Len(found) : found[k][1] < h[1] /\ h[1] < found[k][2]
Right(pats, d, found) == /\ Sorted_(found) /\ Genuine(pats, d, found)
                         /\ Leftmost(pats, d, found)
Longest(pats) == LET q == [i \in 1..Len(pats) |-> MaxLen(pats[i].e)] IN Most(q)
=============================================================================
