----------------------------- MODULE PatternsMC -----------------------------
(* The scan as a machine: at every position any of the matches which begin   *)
(* there may be taken (which one depends on how the patterns were merged).   *)
EXTENDS Patterns, TLC
CONSTANTS N, K
VARIABLES pats, data, pos, found, empty

a_ == 97 b_ == 98
Alts == {Str_(<<a_>>), Str_(<<a_, b_>>), Str_(<<b_, a_>>), Str_(<<a_, a_>>),
         Range_(<<<<a_, b_>>>>, FALSE), And_(Ex("dot"), Str_(<<b_>>)),
         Rep_(Str_(<<a_>>), 0, 2), Rep_(Str_(<<b_>>), 2, 3),
         Or_(Str_(<<b_>>), Str_(<<a_, b_, a_>>))}
Datas == UNION {[1..k -> {a_, b_, 10}] : k \in 0..N}
Init == /\ pats \in {[i \in 1..Cardinality(S) |-> [e |-> SetToSeq(S)[i], id |-> i, lit |-> FALSE]] :
                       S \in {T \in SUBSET Alts : Cardinality(T) \in 1..K}}
        /\ data \in Datas /\ pos = 0 /\ found = <<>> /\ empty = FALSE
\* after an empty match only a longer one may begin at the same place
Ends == {q \in pos..Len(data) : At(pats, data, pos, q) # {} /\ (q = pos => ~empty)}
Take == \E q \in Ends : \E i \in At(pats, data, pos, q) :
          /\ found' = Append(found, <<pos, q, pats[i].id>>)
          /\ pos' = q /\ empty' = (q = pos)
\* (after a match an empty one may follow at its end)
Move == /\ pos <= Len(data) /\ Ends = {} /\ pos' = pos + 1 /\ empty' = FALSE /\ UNCHANGED found
Next == ((pos <= Len(data) /\ Take) \/ Move) /\ UNCHANGED <<pats, data>>
Spec == Init /\ [][Next]_<<pats, data, pos, found, empty>>
---------------------------------------------------------------------------
Done == pos > Len(data)
Inv == /\ Sorted_(found) /\ Genuine(pats, data, found)
       /\ Done => Right(pats, data, found) /\ Complete(pats, data, found)
\* the first match begins at the first place where any pattern matches,
\* whichever way the patterns were merged
First == Done /\ Hits(pats, data) # {} =>
           LET p == CHOOSE p \in 0..N : (\E h \in Hits(pats, data) : h[1] = p)
                                         /\ \A h \in Hits(pats, data) : p <= h[1]
           IN \E k \in 1..Len(found) : found[k][1] = p /\ \A j \in 1..(k - 1) : found[j][1] = found[j][2]
=============================================================================
