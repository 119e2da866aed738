------------------------------- MODULE BitsMC -------------------------------
(***************************************************************************)
(* How an integer is read at bit p on n bits, symbolically: instead of the *)
(* value of each bit its position in the source is followed, so each state *)
(* stands for all sources.  The reader takes the bytes which cover the     *)
(* bits, forms one number of them (byte order), shifts and masks; this     *)
(* must give exactly the bits Streams!BitsOf says, and successive fields   *)
(* must partition the source.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxP, MaxN
VARIABLES p, n, m, en
vars == <<p, n, m, en>>
CeilDiv(a, b) == (a + b - 1) \div b

\* positions: bit q of the source, q = 8 * byte + 0..7, 0 the most significant
\* bits of a byte string as one number, most significant first
NumBE(lo, hi) == [i \in 1..(8 * (hi - lo)) |-> 8 * lo + i - 1]
NumLE(lo, hi) == [i \in 1..(8 * (hi - lo)) |->
                    LET k == i - 1 IN 8 * (hi - 1 - k \div 8) + (k % 8)]
\* 16-bit words, bytes of each swapped
NumME(lo, hi) == [i \in 1..(8 * (hi - lo)) |->
                    LET k == i - 1  b == k \div 8
                    IN 8 * (lo + (IF b % 2 = 0 THEN b + 1 ELSE b - 1)) + (k % 8)]

ReadAlg(a, w, e) ==
  IF e = "ME"
  THEN LET lo == 2 * (a \div 16)
           hi == lo + 2 * CeilDiv((a % 16) + w, 16)
           x == NumME(lo, hi)
           drop == Len(x) - (a % 16) - w
       IN SubSeq(x, Len(x) - drop - w + 1, Len(x) - drop)
  ELSE LET lo == a \div 8
           hi == CeilDiv(a + w, 8)
           x == IF e = "BE" THEN NumBE(lo, hi) ELSE NumLE(lo, hi)
           drop == IF e = "BE" THEN Len(x) - (a % 8) - w ELSE a % 8
       IN SubSeq(x, Len(x) - drop - w + 1, Len(x) - drop)

\* declared meaning: bit number q of the stream in each order
PosBE(q) == q
PosLE(q) == 8 * (q \div 8) + 7 - (q % 8)
PosME(q) == LET w == q \div 16  r == q % 16
            IN 16 * w + 8 * (1 - r \div 8) + (r % 8)
Want(a, w, e) == CASE e = "BE" -> [i \in 1..w |-> PosBE(a + i - 1)]
                   [] e = "LE" -> [i \in 1..w |-> PosLE(a + w - i)]
                   [] e = "ME" -> [i \in 1..w |-> PosME(a + i - 1)]

Init == p \in 0..MaxP /\ n \in 1..MaxN /\ m \in {1, 3, 8, 13} /\ en \in {"BE", "LE", "ME"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Set(s) == {s[i] : i \in 1..Len(s)}
Assembles == ReadAlg(p, n, en) = Want(p, n, en)
\* two adjacent fields share no bit and together are the field of both widths
Partition == LET A == Set(Want(p, n, en))  B == Set(Want(p + n, m, en))
             IN A \cap B = {} /\ A \cup B = Set(Want(p, n + m, en))
=============================================================================
