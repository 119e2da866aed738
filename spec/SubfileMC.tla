------------------------------ MODULE SubfileMC ------------------------------
(* The search slice by slice, for all small data, slices and ranges: it       *)
(* reports what the definition wants, whatever the slices.  Each slice is     *)
(* read with the beginning of the next one (Over bytes), because a signature  *)
(* may straddle both; it reports the leftmost occurrences which don't overlap.*)
EXTENDS Subfile, TLC, Json
CONSTANTS N, Over, Export
VARIABLES d, lo, hi, slice, cur, nxt, out, reading
vars == <<d, lo, hi, slice, cur, nxt, out, reading>>

Sig(b, off) == [b |-> b, off |-> off]
Kinds == <<[id |-> "a", magics |-> <<Sig(<<1, 2>>, 0)>>, voff |-> 2, need |-> 3, zoff |-> 3, zmul |-> 2, skip |-> TRUE],
           [id |-> "b", magics |-> <<Sig(<<2, -1, 2>>, 1)>>, voff |-> 0, need |-> 1, zoff |-> -1, zmul |-> 1, skip |-> FALSE],
           [id |-> "c", magics |-> <<Sig(<<1, 1>>, 0), Sig(<<2, 1>>, 0)>>, voff |-> 2, need |-> 1, zoff |-> 0, zmul |-> 1, skip |-> FALSE]>>
Whole(b) == [len |-> Len(b), z |-> 0, frags |-> IF b = <<>> THEN <<>> ELSE <<[at |-> 0, b |-> b]>>]
D == Whole(d)
C == Occ(D, Kinds, lo, hi)
Min_(a, b) == IF a < b THEN a ELSE b

Init == /\ d \in [1..N -> 0..2]
        /\ \E r \in {<<0, N>>, <<1, N>>, <<0, N - 1>>} : lo = r[1] /\ hi = r[2]
        /\ slice \in {3, 4, 5, N} /\ cur = lo /\ nxt = 0 /\ out = <<>> /\ reading = -1
        /\ (Export => PrintT("SCRIPT " \o ToJson([d |-> d, lo |-> lo, hi |-> hi, slice |-> slice])))
End == Min_(cur + slice, hi)
\* the leftmost occurrences from p on which end in what was read
InSlice(p) == {c \in C : c.s >= p /\ c.s < End /\ c.e <= Min_(End + Over, hi)}
Open == /\ reading = -1 /\ cur < hi /\ reading' = cur /\ UNCHANGED <<d, lo, hi, slice, cur, nxt, out>>
Match == /\ reading >= 0 /\ InSlice(reading) # {}
         /\ \E c \in InSlice(reading) :
              /\ \A x \in InSlice(reading) : x.s >= c.s
              /\ IF c.at < 0 \/ c.at < nxt \/ ~c.ok
                 THEN /\ UNCHANGED <<out, nxt>> /\ reading' = c.e
                 ELSE /\ out' = Append(out, c)
                      /\ nxt' = IF c.skip /\ c.size >= 0 THEN c.at + c.size ELSE nxt
                      /\ reading' = IF c.skip /\ c.size >= 0 /\ End <= nxt' THEN N + 1 ELSE c.e
         /\ UNCHANGED <<d, lo, hi, slice, cur>>
Close == /\ reading >= 0 /\ InSlice(reading) = {} /\ reading' = -1
         /\ cur' = Min_(MaxOf(cur + slice, nxt), hi) /\ UNCHANGED <<d, lo, hi, slice, nxt, out>>
Stop == FALSE /\ UNCHANGED vars
Next == Open \/ Match \/ Close
Spec == Init /\ [][Next]_vars

RECURSIVE Follow(_, _)
Follow(st, o) == IF o = <<>> THEN {st} ELSE
  UNION {Follow(Take(st, c), Tail(o)) : c \in {c \in Nexts(C, st, lo) : c = Head(o)}}
\* what is reported may be reported, and in the end nothing is missing
Sound == Follow(Nothing, out) # {}
Complete == (cur = hi /\ reading = -1) => \E st \in Follow(Nothing, out) : Finished(C, st, lo)
Once == \A i, j \in 1..Len(out) : i < j => out[i].s < out[j].s
=============================================================================
