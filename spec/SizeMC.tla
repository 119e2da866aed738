------------------------------- MODULE SizeMC -------------------------------
(***************************************************************************)
(* The size protocol of a pipe and of a window on it: reads, size-at-least *)
(* queries and observers in any order.  Source of N bytes in blocks of B;  *)
(* stream 2 is the rest of stream 1 from byte Off on.  Byte granularity.   *)
(*   disc - blocks asked of the source (the end is seen when a block is    *)
(*          short)       cl - observers [h, ret, got]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, B, Off, MaxCl, Export
VARIABLES cur, known, cl, ans, hist
vars == <<cur, known, cl, ans, hist>>

Unknown == -1
Min2(a, b) == IF a < b THEN a ELSE b
T(h) == IF h = 1 THEN N ELSE N - Off
Size(h) == IF known THEN T(h) ELSE Unknown
Cur(h)  == IF h = 1 THEN cur ELSE IF cur > Off THEN cur - Off ELSE 0

Init == cur = 0 /\ known = FALSE /\ cl = <<>> /\ ans = <<>> /\ hist = <<>>
Log(x) == /\ hist' = Append(hist, x)
          /\ Export => PrintT("SCRIPT " \o ToJson(hist'))

\* the source is read up to position end (of stream 1), in whole blocks
Discover(end) ==
  LET need == (end \div B + 1) * B
      fin  == known \/ need > N
  IN /\ cur' = IF need > cur THEN Min2(N, need) ELSE cur
     /\ known' = fin
     /\ cl' = IF fin /\ ~known
              THEN [i \in 1..Len(cl) |->
                      [cl[i] EXCEPT !.got = IF cl[i].ret = Unknown THEN Append(@, T(cl[i].h)) ELSE @]]
              ELSE cl

Read(h, a, n) ==
  /\ IF known /\ h = 2 /\ a + n > T(2) THEN UNCHANGED <<cur, known, cl>>
     ELSE Discover((IF h = 2 THEN Off ELSE 0) + a + n)
  /\ ans' = <<>> /\ Log([op |-> "read", h |-> h, a |-> a, n |-> n])

SizeGe(h, n) ==
  /\ IF Cur(h) >= n THEN ans' = <<h, n, TRUE>> /\ UNCHANGED <<cur, known, cl>>
     ELSE IF known THEN ans' = <<h, n, FALSE>> /\ UNCHANGED <<cur, known, cl>>
     ELSE /\ Discover((IF h = 2 THEN Off ELSE 0) + n)
          /\ ans' = <<h, n, Cur(h)' >= n>>
  /\ Log([op |-> "sizeGe", h |-> h, n |-> n, const |-> FALSE])

Ask(h) ==
  /\ Len(cl) < MaxCl
  /\ cl' = Append(cl, [h |-> h, ret |-> Size(h), got |-> <<>>])
  /\ ans' = <<>> /\ UNCHANGED <<cur, known>>
  /\ Log([op |-> "ask", h |-> h])

Next == \E h \in {1, 2} :
          \/ \E a \in 0..N, n \in 1..2 : Read(h, a, n)
          \/ \E n \in 1..(N + 2) : SizeGe(h, n)
          \/ Ask(h)
Spec == Init /\ [][Next]_vars
View == <<cur, known, cl>>

Truthful == \A h \in {1, 2} : Size(h) \in {Unknown, T(h)}
\* an observer ends up with the true size, told at most once
Observers == \A i \in 1..Len(cl) :
   /\ Len(cl[i].got) <= 1
   /\ known => (IF cl[i].got = <<>> THEN cl[i].ret ELSE cl[i].got[1]) = T(cl[i].h)
   /\ ~known => cl[i].got = <<>>
AnswersTrue == [][(ans # <<>> => ans[3] = (T(ans[1]) >= ans[2]))']_vars
Stable == [][known => known']_vars
=============================================================================
