----------------------------- MODULE FileViewMC -----------------------------
(***************************************************************************)
(* Design of the lazy file view: a position kept relative to the end while *)
(* the size of the stream is not known (off, fe) refines the plain position *)
(* of an ordinary file of N bytes (pos).  Every operation sequence.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Range, Export
VARIABLES off, fe, known, pos, ans, want, hist
vars == <<off, fe, known, pos, ans, want, hist>>

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Bytes(a, b) == IF a >= b THEN <<>> ELSE [i \in 1..(b - a) |-> a + i - 1]

Init == off = 0 /\ fe = FALSE /\ known = FALSE /\ pos = 0
        /\ ans = <<>> /\ want = <<>> /\ hist = <<>>
Log(x) == /\ hist' = Append(hist, x)
          /\ Export => PrintT("SCRIPT " \o ToJson(hist'))

Seek(p, w) ==
  /\ IF w = 0 THEN p >= 0 /\ off' = p /\ fe' = FALSE
     ELSE IF w = 1 THEN off' = (IF fe THEN off + p ELSE Mx(0, off + p)) /\ UNCHANGED fe
     ELSE off' = p /\ fe' = TRUE
  \* stay where no negative position arises: those are left open
  /\ LET np == CASE w = 0 -> p [] w = 1 -> pos + p [] w = 2 -> N + p
     IN np >= 0 /\ np <= N + 2 /\ pos' = np
  /\ UNCHANGED known /\ ans' = <<>> /\ want' = <<>>
  /\ Log([op |-> "fseek", p |-> p, w |-> w])

\* the plain position a view stands for once the size is known
Abs == IF fe THEN Mx(0, N + off) ELSE off
Tell == /\ off' = Abs /\ fe' = FALSE /\ known' = (known \/ fe) /\ UNCHANGED pos
        /\ ans' = <<Abs>> /\ want' = <<pos>>
        /\ Log([op |-> "ftell"])

\* n < 0: read to the end.  Reading past what exists discovers the size.
Read(n) ==
  LET hi == IF n < 0 THEN N ELSE Mn(N, Abs + n)
      d  == Bytes(Abs, hi)
      zero == (n = 0) \/ (fe /\ ~known /\ off >= 0)
  IN /\ ans' = IF zero THEN <<>> ELSE d
     /\ want' = Bytes(pos, IF n < 0 THEN N ELSE Mn(N, pos + n))
     /\ IF zero /\ ~known THEN UNCHANGED <<off, fe, known>>
        ELSE /\ off' = Abs + Len(d) /\ fe' = FALSE
             /\ known' \in {TRUE, known \/ fe \/ n < 0 \/ Abs + n > N}
     /\ pos' = pos + Len(want')
     /\ Log([op |-> "fread", n |-> n])

Next == \/ \E p \in -Range..Range, w \in 0..2 : Seek(p, w)
        \/ Tell
        \/ \E n \in -1..Range : Read(n)
Spec == Init /\ [][Next]_vars
View == <<off, fe, known, pos>>

Refines == Abs = pos
Answers == [][(ans = want)']_vars
=============================================================================
