-------------------------------- MODULE OutMC --------------------------------
(***************************************************************************)
(* The byte-and-position algorithm of an output stream (a partial byte and *)
(* the position in it) against OutStream, for all short sequences of       *)
(* writes.  Checked: it refines the bit-by-bit meaning, and every value    *)
(* written is read back (Streams!BitsOf) at its place.                     *)
(***************************************************************************)
EXTENDS OutStream, Json
CONSTANTS Depth, Export
VARIABLES o, byte, pos, done, log, hist
vars == <<o, byte, pos, done, log, hist>>

P2(n) == 2^n
Val(b) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, b)
Bin(v, n) == [i \in 1..n |-> (v \div P2(n - i)) % 2]

Counts == {1, 2, 5, 7, 8, 9, 12, 17}
Values(n) == {0, 1, P2(n) - 1, P2(n - 1), (P2(n) - 1) \div 3}

Init == o = OutInit /\ byte = 0 /\ pos = 0 /\ done = <<>> /\ log = <<>> /\ hist = <<>>

\* algorithm: [bytes written, byte, pos]
RECURSIVE Whole(_, _, _, _)
Whole(acc, n, v, e) ==
  IF n < 8 THEN [w |-> acc, n |-> n, v |-> v]
  ELSE IF e = "BE" THEN Whole(Append(acc, v \div P2(n - 8)), n - 8, v % P2(n - 8), e)
  ELSE Whole(Append(acc, v % 256), n - 8, v \div 256, e)
Alg(b, p, n, v, e) ==
  LET room == 8 - p IN
  IF p # 0 /\ n < room
  THEN [w |-> <<>>, b |-> b + (IF e = "BE" THEN v * P2(8 - p - n) ELSE v * P2(p)), p |-> p + n]
  ELSE LET n1 == IF p # 0 THEN n - room ELSE n
           head == IF p = 0 THEN <<>>
                   ELSE <<b + (IF e = "BE" THEN v \div P2(n1) ELSE (v % P2(room)) * P2(p))>>
           v1 == IF p = 0 THEN v ELSE IF e = "BE" THEN v % P2(n1) ELSE v \div P2(room)
           r == Whole(head, n1, v1, e)
       IN [w |-> r.w, b |-> IF r.n = 0 THEN 0 ELSE IF e = "BE" THEN r.v * P2(8 - r.n) ELSE r.v,
           p |-> r.n]

Write(n, v, e) ==
  /\ Len(hist) < Depth
  /\ o.pend = <<>> \/ o.en = e
  /\ LET r == Alg(byte, pos, n, v, e)
     IN byte' = r.b /\ pos' = r.p /\ done' = done \o r.w
  /\ o' = PutBits(o, Bin(v, n), e)
  /\ log' = Append(log, [a |-> 8 * Len(o.out) + Len(o.pend), n |-> n, v |-> Bin(v, n), en |-> e])
  /\ hist' = Append(hist, [op |-> "writeBits", v |-> Bin(v, n), en |-> e])
  /\ (Export => PrintT("SCRIPT " \o ToJson(hist')))
Bytes(d) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, [op |-> "writeBytes", d |-> d])
  /\ IF pos # 0 THEN UNCHANGED <<o, byte, pos, done, log>>     \* refused
     ELSE /\ done' = done \o d /\ o' = PutBytes(o, d)
          /\ UNCHANGED <<byte, pos, log>>
  /\ (Export => PrintT("SCRIPT " \o ToJson(hist')))
Next == \/ \E n \in Counts, e \in {"BE", "LE"} : \E v \in Values(n) : Write(n, v, e)
        \/ \E d \in {<<165>>, <<1, 254>>} : Bytes(d)
Spec == Init /\ [][Next]_vars

\* all bits, the begun byte completed by zeros
Final == IF o.pend = <<>> THEN o.out
         ELSE o.out \o <<ByteOf(o.pend \o [i \in 1..(8 - Len(o.pend)) |-> 0], o.en)>>
Refines == done = o.out /\ pos = Len(o.pend)
           /\ (IF pos = 0 THEN byte = 0 ELSE byte = Final[Len(Final)])
ReadBack == \A i \in 1..Len(log) :
              BitsOf(Final, log[i].a, log[i].n, log[i].en) = log[i].v
IntRoundTrip == \A n \in {8, 16} : \A v \in {0, 1, P2(n-1) - 1, P2(n-1), P2(n) - 1} :
   LET m == Bin(v, n) IN
   /\ Fits(FALSE, m, n, FALSE)
   /\ (v < P2(n - 1)) = Fits(FALSE, m, n, TRUE)
   /\ (v <= P2(n - 1)) = Fits(TRUE, m, n, TRUE)
   /\ Fits(TRUE, m, n, TRUE) => Val(Encode(TRUE, m, n)) = (IF v = 0 THEN 0 ELSE P2(n) - v)
=============================================================================
