------------------------------ MODULE OutStream ------------------------------
(***************************************************************************)
(* Output stream of hachoir (hachoir/stream/output.py).                    *)
(*   out  - complete bytes written      pend - bits of the byte begun, in  *)
(*   the order they were written        en   - byte order of those bits    *)
(* Values are bit sequences, most significant first.                       *)
(* Big endian fills a byte from its most significant bit with the most     *)
(* significant bit of the value first; little endian fills a byte from its *)
(* least significant bit with the least significant bit first.             *)
(***************************************************************************)
EXTENDS Streams

OutInit == [out |-> <<>>, pend |-> <<>>, en |-> "BE"]

ByteBE(b) == b[1]*128 + b[2]*64 + b[3]*32 + b[4]*16 + b[5]*8 + b[6]*4 + b[7]*2 + b[8]
ByteOf(b, en) == ByteBE(IF en = "BE" THEN b ELSE Reverse(b))
Split(bits, en) == [i \in 1..(Len(bits) \div 8) |-> ByteOf(SubSeq(bits, 8 * i - 7, 8 * i), en)]

\* bits in the order they reach the stream
WriteOrder(v, en) == IF en = "BE" THEN v ELSE Reverse(v)

PutBits(o, v, en) ==
  LET all == o.pend \o WriteOrder(v, en)
      k == (Len(all) \div 8) * 8
  IN [out |-> o.out \o Split(SubSeq(all, 1, k), en),
      pend |-> SubSeq(all, k + 1, Len(all)), en |-> en]

PutBytes(o, d) == [o EXCEPT !.out = @ \o d]
PutInt(o, bits, en) == PutBytes(o, LET b == Split(bits, "BE")
                                   IN IF en = "BE" THEN b ELSE Reverse(b))

\* two's complement of a value given as sign and magnitude on n bits
Pad(m, n) == [i \in 1..n |-> IF i <= n - Len(m) THEN 0 ELSE m[Len(m) - n + i]]
Strip(m) == LET C == {i \in 1..Len(m) : m[i] = 1}
            IN IF C = {} THEN <<>> ELSE SubSeq(m, CHOOSE i \in C : \A j \in C : i <= j, Len(m))
RECURSIVE Incr(_)
Incr(b) == IF b = <<>> THEN <<>>
           ELSE LET k == Len(b) IN
                IF b[k] = 0 THEN [b EXCEPT ![k] = 1]
                ELSE Append(Incr(SubSeq(b, 1, k - 1)), 0)
Negate(b) == Incr([i \in 1..Len(b) |-> 1 - b[i]])
Fits(neg, mag, n, signed) ==
  LET m == Strip(mag) IN
  IF ~signed THEN (~neg \/ m = <<>>) /\ Len(m) <= n
  ELSE IF neg THEN Len(m) <= n - 1 \/ (Len(m) = n /\ \A i \in 2..n : m[i] = 0)
  ELSE Len(m) <= n - 1
Encode(neg, mag, n) == LET p == Pad(Strip(mag), n) IN IF neg THEN Negate(p) ELSE p
=============================================================================
