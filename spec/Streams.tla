------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Input streams of hachoir (hachoir/stream/input.py).                     *)
(*                                                                         *)
(* A family of streams is built over one source:                           *)
(*   base    - byte string, seekable file, or pipe (non seekable source    *)
(*             read in blocks, with a bounded cache of blocks);            *)
(*   sub     - window [off, off+size) of another stream;                   *)
(*   frag    - concatenation of fragments of another stream;               *)
(*   concat  - two streams one after the other.                            *)
(*                                                                         *)
(* Content: stream h is the bits [org, org+T) of a flat byte sequence F    *)
(* (`flat'); org is not necessarily byte aligned for sub-streams of bit    *)
(* fields.  What is read never depends on the history; what is *known* of  *)
(* the size, and which blocks of a pipe are still cached, does.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Unknown == -1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

---------------------------------------------------------------------------
(* The block cache of a pipe: source of N bytes, blocks of B bytes, at     *)
(* least W most recent blocks kept.                                        *)
(*   n     - blocks discovered      eof - end of source seen               *)
(*   first - blocks below are discarded                                    *)
(*   lru   - cached blocks, least recently used first                      *)
PipeInit == [n |-> 0, eof |-> FALSE, first |-> 0, lru |-> <<>>]

Touch(lru, b) == Append(SelectSeq(lru, LAMBDA x : x # b), b)
RECURSIVE TouchAll(_, _, _)
TouchAll(lru, b, last) == IF b > last THEN lru
                          ELSE TouchAll(Touch(lru, b), b + 1, last)

RECURSIVE Flush(_, _)
Flush(p, W) == IF p.first < p.n - W /\ p.lru # <<>> /\ Head(p.lru) = p.first
               THEN Flush([p EXCEPT !.first = @ + 1, !.lru = Tail(@)], W)
               ELSE p

\* read blocks until position `end' is covered or the source ends
Fill(p, N, B, end) ==
  LET need  == end \div B + 1
      total == CeilDiv(N, B)
      n2    == Max2(p.n, Min2(need, total))
  IN [p EXCEPT !.n = n2,
               !.eof = @ \/ need > N \div B,
               !.lru = @ \o [i \in 1..(n2 - p.n) |-> p.n + i - 1]]

\* one read of the pipe: bytes [a, a+len); `ok' is FALSE when a block needed
\* has been discarded
PipeRead(p, N, B, W, a, len) ==
  LET q     == Fill(p, N, B, a + len)
      b0    == a \div B
      b1    == Min2((a + len - 1) \div B, q.n - 1)
  IN IF b0 <= b1 /\ b0 < q.first THEN [ok |-> FALSE, p |-> q]
     ELSE [ok |-> TRUE, p |-> Flush([q EXCEPT !.lru = TouchAll(@, b0, b1)], W)]

---------------------------------------------------------------------------
(* Geometry of the streams described by a header t:                        *)
(*   t.kind : "string" | "file" | "pipe" | "sized"   (base)                *)
(*   t.n    : bytes in the source     t.B, t.W : cache geometry            *)
(*   t.st   : sequence of [k, of, of2, off, size, frags]                   *)

\* [org, T, len]: origin and true size in bits in the flat content, length
\* of the flat content in bytes.  Declared sizes and fragments are cut at
\* the end of what the parent can deliver.
RECURSIVE Geo(_, _)
FragSizes(t, h) ==
  LET s == t.st[h]
      g == Geo(t, s.of)
      Avail(f) == Max2(0, Min2(f[2], g.T - f[1]))
      full(f) == Avail(f) = f[2]
      \* fragments up to the first one which is not wholly available
      k == IF \A i \in 1..Len(s.frags) : full(s.frags[i]) THEN Len(s.frags)
           ELSE CHOOSE i \in 1..Len(s.frags) :
                   ~full(s.frags[i]) /\ \A j \in 1..(i-1) : full(s.frags[j])
  IN [i \in 1..k |-> Avail(s.frags[i])]
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
Geo(t, h) ==
  LET s == t.st[h] IN
  CASE s.k = "base" -> [org |-> 0, T |-> 8 * t.n]
    [] s.k = "sub"  -> LET g == Geo(t, s.of)
                           av == g.T - s.off
                       IN [org |-> g.org + s.off,
                           T |-> IF s.size = Unknown THEN av ELSE Min2(s.size, av)]
    [] s.k = "frag" -> [org |-> 0, T |-> SumSeq(FragSizes(t, h))]
    [] s.k = "concat" -> [org |-> 0, T |-> Geo(t, s.of).T + Geo(t, s.of2).T]

\* the flat content itself (small traces only; big traces use intervals)
RECURSIVE Flat(_, _)
Cut(s, a, b) == SubSeq(s, a + 1, b)
Flat(t, h) ==
  LET s == t.st[h] IN
  CASE s.k = "base" -> t.src
    [] s.k = "sub"  -> Flat(t, s.of)
    [] s.k = "frag" -> LET g == Geo(t, s.of)
                           fs == FragSizes(t, h)
                           F == Flat(t, s.of)
                       IN FlattenSeq([i \in 1..Len(fs) |->
                            LET o == (g.org + s.frags[i][1]) \div 8
                            IN Cut(F, o, o + fs[i] \div 8)])
    [] s.k = "concat" -> LET Part(x) == LET g == Geo(t, x)
                                        IN Cut(Flat(t, x), g.org \div 8, (g.org + g.T) \div 8)
                         IN Part(s.of) \o Part(s.of2)

\* bytes [lo, hi) of the flat content, as recorded in the traces
Slice(t, h, lo, hi) == IF lo >= hi THEN <<>>
                       ELSE IF t.big THEN <<lo, hi>> ELSE Cut(Flat(t, h), lo, hi)

---------------------------------------------------------------------------
(* What a read may answer.                                                 *)
ReadOk(t, h, a, n) == a + n <= Geo(t, h).T
ReadData(t, h, a, n) ==
  LET o == Geo(t, h).org + a IN Slice(t, h, o \div 8, CeilDiv(o + n, 8))
ReadShift(t, h, a) == (Geo(t, h).org + a) % 8
\* what is available of a read which goes past the end
PrefixData(t, h, a) ==
  LET g == Geo(t, h)
      o == g.org + a
  IN IF a >= g.T THEN <<>> ELSE Slice(t, h, o \div 8, CeilDiv(g.org + g.T, 8))

---------------------------------------------------------------------------
(* Bits and integers.  Values are sequences of bits, most significant      *)
(* first (TLC integers are bounded).                                       *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitBE(F, p) == (F[p \div 8 + 1] \div Pow2[8 - (p % 8)]) % 2
BitLE(F, p) == (F[p \div 8 + 1] \div Pow2[1 + (p % 8)]) % 2
\* middle endian: the bytes of each 16-bit word are swapped, then big endian
BitME(F, p) == LET w == p \div 16
                   r == p % 16
               IN (F[2 * w + (1 - r \div 8) + 1] \div Pow2[8 - (r % 8)]) % 2
BitsOf(F, p, n, endian) ==
  CASE endian = "BE" -> [i \in 1..n |-> BitBE(F, p + i - 1)]
    [] endian = "LE" -> [i \in 1..n |-> BitLE(F, p + n - i)]
    [] endian = "ME" -> [i \in 1..n |-> BitME(F, p + i - 1)]

---------------------------------------------------------------------------
(* Search: positions (in bits, relative to the stream) of a needle.        *)
\* small: compare bytes; big: t.occ[needle] lists all positions (bytes, in F)
OccursAt(F, nd, i) == /\ i + Len(nd) <= Len(F)
                      /\ \A j \in 1..Len(nd) : F[i + j] = nd[j]
FirstOcc(t, h, e) ==
  LET g  == Geo(t, h)
      lo == (g.org + e.a) \div 8
      hi == (g.org + (IF e.e = Unknown THEN g.T ELSE Min2(e.e, g.T))) \div 8
      F  == IF t.big THEN <<>> ELSE Flat(t, h)
      C  == IF t.big
            THEN {i \in {t.occ[e.nd][j] : j \in 1..Len(t.occ[e.nd])} :
                     i >= lo /\ i + e.len <= hi}
            ELSE {i \in lo..(hi - e.len) : OccursAt(F, e.nd, i)}
  IN IF C = {} THEN Unknown
     ELSE 8 * (CHOOSE i \in C : \A j \in C : i <= j) - g.org
=============================================================================
