------------------------------ MODULE BitsTrace ------------------------------
(***************************************************************************)
(* Integer, bit, bit-group and padding fields of a recorded parse, and the *)
(* conversion functions of hachoir/core/bits.py, against Streams!BitsOf.   *)
(* Header: src (bytes), fields = <<[w, en]>> the declared fields in order. *)
(* Values are bit sequences, most significant first.                       *)
(***************************************************************************)
EXTENDS Streams, TraceKit

BInit(t) == {[t |-> t]}
RECURSIVE Addr(_, _)
Addr(f, k) == IF k = 1 THEN 0 ELSE Addr(f, k - 1) + f[k - 1].w

Pad(bits, n) == [i \in 1..n |-> IF i <= n - Len(bits) THEN 0 ELSE bits[Len(bits) - n + i]]
Significant(bits) == LET C == {i \in 1..Len(bits) : bits[i] = 1}
                     IN IF C = {} THEN 1 ELSE Len(bits) + 1 - (CHOOSE i \in C : \A j \in C : i <= j)
Flatten8(bytes) == [i \in 1..(8 * Len(bytes)) |-> BitBE(bytes, i - 1)]
BytesOf(bits) == LET k == Len(bits) \div 8
                     B(i, j) == bits[8 * (i - 1) + j] * Pow2[9 - j]
                 IN [i \in 1..k |-> B(i,1) + B(i,2) + B(i,3) + B(i,4) + B(i,5) + B(i,6) + B(i,7) + B(i,8)]
Order(bytes, en) == IF en = "LE" THEN Reverse(bytes)
                    ELSE IF en = "ME" THEN [i \in 1..Len(bytes) |-> bytes[IF i % 2 = 1 THEN i + 1 ELSE i - 1]]
                    ELSE bytes

Field(s, e) ==
  LET f == s.t.fields[e.k]
      a == Addr(s.t.fields, e.k)
      b == BitsOf(s.t.src, a, f.w, f.en)
  IN /\ e.a = a /\ e.sz = f.w
     /\ CASE e.how = "bits" -> e.v = b
          [] e.how = "bytes" -> e.v = Cut(s.t.src, a \div 8, (a + f.w) \div 8)

\* missing: the integer goes past the end of the data
FieldErr(s, e) ==
  LET f == s.t.fields[e.k]
      a == Addr(s.t.fields, e.k)
      last == IF f.en = "ME" THEN CeilDiv(a + f.w, 16) * 16 ELSE a + f.w
  IN e.v = <<>> /\ last > 8 * Len(s.t.src)

Fn(s, e) ==
  CASE e.fn = "str2long" -> e.out = Flatten8(Order(e.in, e.en))
    [] e.fn = "long2raw" -> \* e.in bits, e.n bytes wanted (0: shortest)
         LET k == IF e.n = 0 THEN CeilDiv(Significant(e.in), 8)
                  ELSE Max2(e.n, CeilDiv(Significant(e.in), 8))
         IN e.out = Order(BytesOf(Pad(e.in, 8 * k)), e.en)
    [] e.fn = "countBits" -> e.out = <<Significant(e.in)>>
    [] e.fn = "bin2long" -> e.out = (IF e.en = "LE" THEN Reverse(e.in) ELSE e.in)
    [] e.fn = "swap" -> e.out = Flatten8(Reverse(BytesOf(e.in)))
    [] e.fn = "midswap" -> e.out = Order(e.in, "ME")
    [] e.fn = "byte2bin" -> e.out = (IF e.n = 1 THEN e.in ELSE Reverse(e.in))

BStep(s, e) ==
  IF (e.op = "field" /\ e.res = "ok" /\ Field(s, e))
     \/ (e.op = "field" /\ e.res = "err" /\ FieldErr(s, e))
     \/ (e.op = "fn" /\ e.res = "ok" /\ Fn(s, e))
  THEN {s} ELSE {}
BAllow(s, e) == IF e.op = "field"
                THEN [a |-> Addr(s.t.fields, e.k),
                      v |-> BitsOf(s.t.src, Addr(s.t.fields, e.k), s.t.fields[e.k].w, s.t.fields[e.k].en)]
                ELSE [a |-> 0, v |-> <<>>]
=============================================================================
