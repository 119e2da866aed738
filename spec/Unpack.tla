------------------------------- MODULE Unpack -------------------------------
(***************************************************************************)
(* Receivers of packed data: what a sequence of bits means.                 *)
(*                                                                         *)
(* A receiver is a state machine which is fed one bit after the other and   *)
(* gives out bytes: `out'.  There is one for deflate (RFC 1951) and one for  *)
(* LZX (the cabinets).  m is what it is reading; v and n the bits of the     *)
(* present number or code; first and idx the state of the canonical Huffman *)
(* decoder.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ByteBits(be, c) == [i \in 1..8 |-> IF be THEN (c \div (2 ^ (8 - i))) % 2 ELSE (c \div (2 ^ (i - 1))) % 2]
\* the bits in the order they are read: the lowest of each byte first
LowFirst(b) == [i \in 1..(8 * Len(b)) |-> (b[1 + ((i - 1) \div 8)] \div (2 ^ ((i - 1) % 8))) % 2]
\* words of 16 bits, the highest bit of each first
WordBits(b) == [i \in 1..(16 * (Len(b) \div 2)) |->
                 LET w == (i - 1) \div 16 k == (i - 1) % 16
                 IN IF k < 8 THEN (b[2 * w + 2] \div (2 ^ (7 - k))) % 2 ELSE (b[2 * w + 1] \div (2 ^ (15 - k))) % 2]

(* Canonical codes: lens[s + 1] bits for the symbol s, 0: not used *)
Longest == 17
Huff(lens) ==
  LET all == [l \in 1..Longest |-> SelectSeq([i \in 1..Len(lens) |-> IF lens[i] = l THEN i - 1 ELSE -1], LAMBDA x : x >= 0)]
  IN [cnt |-> [l \in 1..Longest |-> Len(all[l])], syms |-> FlattenSeq(all)]
NoHuff == [cnt |-> [l \in 1..Longest |-> 0], syms |-> <<>>]
Again(x, k) == [i \in 1..k |-> x]
\* the last d bytes again and again, len bytes of them
Copy(out, len, d) == out \o [i \in 1..len |-> out[Len(out) - d + 1 + ((i - 1) % d)]]
\* one bit more of a code of table t: <<done, symbol, receiver>>
Coded(r, t, b) ==
  LET code == 2 * r.v + b l == r.n + 1
  IN IF l > Longest THEN <<FALSE, 0, [r EXCEPT !.m = "bad"]>>
     ELSE IF code - r.first < t.cnt[l]
     THEN <<TRUE, t.syms[r.idx + code - r.first + 1], [r EXCEPT !.v = 0, !.n = 0, !.first = 0, !.idx = 0]>>
     ELSE <<FALSE, 0, [r EXCEPT !.v = code, !.n = l, !.idx = @ + t.cnt[l], !.first = (@ + t.cnt[l]) * 2]>>

---------------------------------------------------------------------------
(* Deflate *)
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
ClOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
FixedLens == [i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]
FixedDists == [i \in 1..30 |-> 5]
FixedT == Huff(FixedLens)
FixedD == Huff(FixedDists)

Inflater(out) == [m |-> "final", v |-> 0, n |-> 0, first |-> 0, idx |-> 0, at |-> 0, out |-> out, final |-> 0, len |-> 0, sym |-> 0,
                  hl |-> 0, hd |-> 0, hc |-> 0, lens |-> <<>>, ct |-> NoHuff, tt |-> NoHuff, dt |-> NoHuff]
EndBlock(r) == [r EXCEPT !.m = IF r.final = 1 THEN "end" ELSE "final"]
Matched(r, d) == IF d > Len(r.out) THEN [r EXCEPT !.m = "bad"] ELSE [r EXCEPT !.out = Copy(r.out, r.len, d), !.m = "sym"]
\* the lengths of the two codes are one list
Lengths(r) == IF Len(r.lens) < r.hl + r.hd THEN [r EXCEPT !.m = "cl"]
              ELSE IF Len(r.lens) > r.hl + r.hd THEN [r EXCEPT !.m = "bad"]
              ELSE [r EXCEPT !.m = "sym", !.tt = Huff(SubSeq(r.lens, 1, r.hl)), !.dt = Huff(SubSeq(r.lens, r.hl + 1, r.hl + r.hd))]
Want(r) == CASE r.m = "final" -> 1 [] r.m = "type" -> 2 [] r.m = "skip" -> 8 - r.at [] r.m \in {"len", "nlen"} -> 16 [] r.m = "copy" -> 8
             [] r.m \in {"hlit", "hdist"} -> 5 [] r.m = "hclen" -> 4 [] r.m = "clen" -> 3
             [] r.m = "rep" -> (CASE r.sym = 16 -> 2 [] r.sym = 17 -> 3 [] OTHER -> 7)
             [] r.m = "xlen" -> LenExtra[r.sym - 256] [] OTHER -> DistExtra[r.sym + 1]
Number(r, v) ==
  CASE r.m = "final" -> [r EXCEPT !.final = v, !.m = "type"]
    [] r.m = "type" -> (CASE v = 0 -> [r EXCEPT !.m = IF r.at = 0 THEN "len" ELSE "skip"]
                          [] v = 1 -> [r EXCEPT !.m = "sym", !.tt = FixedT, !.dt = FixedD]
                          [] v = 2 -> [r EXCEPT !.m = "hlit"] [] OTHER -> [r EXCEPT !.m = "bad"])
    [] r.m = "skip" -> [r EXCEPT !.m = "len"]
    [] r.m = "len" -> [r EXCEPT !.len = v, !.m = "nlen"]
    [] r.m = "nlen" -> IF v # 65535 - r.len THEN [r EXCEPT !.m = "bad"] ELSE IF r.len = 0 THEN EndBlock(r) ELSE [r EXCEPT !.m = "copy"]
    [] r.m = "copy" -> LET q == [r EXCEPT !.out = Append(@, v), !.len = @ - 1] IN IF q.len = 0 THEN EndBlock(q) ELSE q
    [] r.m = "hlit" -> [r EXCEPT !.hl = v + 257, !.m = "hdist"]
    [] r.m = "hdist" -> [r EXCEPT !.hd = v + 1, !.m = "hclen"]
    [] r.m = "hclen" -> [r EXCEPT !.hc = v + 4, !.m = "clen", !.lens = <<>>]
    [] r.m = "clen" -> LET l == Append(r.lens, v)
                       IN IF Len(l) < r.hc THEN [r EXCEPT !.lens = l]
                          ELSE [r EXCEPT !.lens = <<>>, !.m = "cl",
                                         !.ct = Huff([s \in 1..19 |-> LET k == CHOOSE k \in 1..19 : ClOrder[k] = s - 1 IN IF k <= r.hc THEN l[k] ELSE 0])]
    [] r.m = "rep" -> IF r.sym = 16 /\ r.lens = <<>> THEN [r EXCEPT !.m = "bad"]
                      ELSE Lengths([r EXCEPT !.lens = @ \o (CASE r.sym = 16 -> Again(r.lens[Len(r.lens)], 3 + v) [] r.sym = 17 -> Again(0, 3 + v) [] OTHER -> Again(0, 11 + v))])
    [] r.m = "xlen" -> [r EXCEPT !.len = LenBase[r.sym - 256] + v, !.m = "dist"]
    [] OTHER -> Matched(r, DistBase[r.sym + 1] + v)
Symbol(r, s) ==
  CASE r.m = "cl" -> IF s < 16 THEN Lengths([r EXCEPT !.lens = Append(@, s)]) ELSE [r EXCEPT !.m = "rep", !.sym = s]
    [] r.m = "sym" -> (CASE s < 256 -> [r EXCEPT !.out = Append(@, s)] [] s = 256 -> EndBlock(r) [] s > 285 -> [r EXCEPT !.m = "bad"]
                         [] OTHER -> IF LenExtra[s - 256] = 0 THEN [r EXCEPT !.len = LenBase[s - 256], !.m = "dist"] ELSE [r EXCEPT !.sym = s, !.m = "xlen"])
    [] OTHER -> IF s > 29 THEN [r EXCEPT !.m = "bad"] ELSE IF DistExtra[s + 1] = 0 THEN Matched(r, DistBase[s + 1]) ELSE [r EXCEPT !.sym = s, !.m = "xdist"]
Inflate1(r0, b) ==
  IF r0.m \in {"end", "bad"} THEN r0
  ELSE LET r == [r0 EXCEPT !.at = (@ + 1) % 8]
       IN IF r.m \in {"cl", "sym", "dist"}
          THEN LET c == Coded(r, CASE r.m = "cl" -> r.ct [] r.m = "sym" -> r.tt [] OTHER -> r.dt, b)
               IN IF c[1] THEN Symbol(c[3], c[2]) ELSE c[3]
          ELSE LET v == r.v + b * (2 ^ r.n)
               \* (how much is to be skipped is known at the first bit)
               IN IF r.n + 1 < Want([r0 EXCEPT !.at = (@ + 8 - r.n) % 8]) THEN [r EXCEPT !.v = v, !.n = @ + 1] ELSE Number([r EXCEPT !.v = 0, !.n = 0], v)
\* (the steps are evaluated one after the other)
Inflate(out, bytes) == FoldLeft(Inflate1, Inflater(out), LowFirst(bytes))

---------------------------------------------------------------------------
(* LZX.  lev: the window has 2^lev bytes *)
Slots(lev) == CASE lev = 15 -> 30 [] lev = 16 -> 32 [] lev = 17 -> 34 [] lev = 18 -> 36 [] lev = 19 -> 38 [] lev = 20 -> 42 [] OTHER -> 50
SlotExtra(s) == IF s < 4 THEN 0 ELSE IF s >= 36 THEN 17 ELSE (s \div 2) - 1
RECURSIVE SlotBase(_)
SlotBase(s) == IF s = 0 THEN 0 ELSE SlotBase(s - 1) + 2 ^ SlotExtra(s - 1)
Unlzxer(lev) == [m |-> "hasfs", v |-> 0, n |-> 0, first |-> 0, idx |-> 0, at |-> 0, out |-> <<>>, lev |-> lev, fs |-> -1, type |-> 0, left |-> 0,
                 recent |-> <<1, 1, 1>>, main |-> Again(0, 256 + 8 * Slots(lev)), lenl |-> Again(0, 249), al |-> <<>>, tree |-> "", todo |-> 0, pos |-> 0,
                 lens |-> <<>>, run |-> 0, pt |-> NoHuff, mt |-> NoHuff, lt |-> NoHuff, at8 |-> NoHuff, len |-> 0, slot |-> 0, off |-> 0, words |-> 0]
\* the three lists of code lengths, in their order
NextTree(r) == CASE r.tree = "" -> [r EXCEPT !.tree = "start", !.m = "pre", !.lens = <<>>, !.pos = 0, !.todo = 256]
                 [] r.tree = "start" -> [r EXCEPT !.tree = "rest", !.m = "pre", !.lens = <<>>, !.pos = 256, !.todo = 8 * Slots(r.lev)]
                 [] r.tree = "rest" -> [r EXCEPT !.tree = "length", !.m = "pre", !.lens = <<>>, !.pos = 0, !.todo = 249]
                 [] OTHER -> [r EXCEPT !.tree = "", !.m = "main", !.mt = Huff(r.main), !.lt = Huff(r.lenl)]
Before(r) == IF r.tree = "length" THEN r.lenl[r.pos + 1] ELSE r.main[r.pos + 1]
\* k lengths more
Give(r, x, k) ==
  IF k > r.todo THEN [r EXCEPT !.m = "bad"]
  ELSE LET put(l) == SubSeq(l, 1, r.pos) \o Again(x, k) \o SubSeq(l, r.pos + k + 1, Len(l))
           q == [IF r.tree = "length" THEN [r EXCEPT !.lenl = put(@)] ELSE [r EXCEPT !.main = put(@)] EXCEPT !.pos = @ + k, !.todo = @ - k, !.m = "tree"]
       IN IF q.todo = 0 THEN NextTree(q) ELSE q
Count(r, k) == LET q == [r EXCEPT !.left = @ - k] IN IF q.left < 0 THEN [q EXCEPT !.m = "bad"] ELSE IF q.left = 0 THEN [q EXCEPT !.m = "btype"] ELSE [q EXCEPT !.m = "main"]
CopyLzx(r, d) == IF d > Len(r.out) THEN [r EXCEPT !.m = "bad"] ELSE Count([r EXCEPT !.out = Copy(@, r.len, d)], r.len)
Far(r, d) == CopyLzx([r EXCEPT !.recent = <<d, @[1], @[2]>>], d)
\* the length is known: where from?
Where(r) ==
  CASE r.slot = 0 -> CopyLzx(r, r.recent[1])
    [] r.slot = 1 -> CopyLzx([r EXCEPT !.recent = <<@[2], @[1], @[3]>>], r.recent[2])
    [] r.slot = 2 -> CopyLzx([r EXCEPT !.recent = <<@[3], @[2], @[1]>>], r.recent[3])
    [] r.slot = 3 -> Far(r, 1)
    [] OTHER -> LET e == SlotExtra(r.slot) q == [r EXCEPT !.off = SlotBase(r.slot) - 2]
                IN IF r.type = 1 \/ e < 3 THEN [q EXCEPT !.m = "pos"] ELSE IF e > 3 THEN [q EXCEPT !.m = "posv"] ELSE [q EXCEPT !.m = "posa"]
WantLzx(r) == CASE r.m \in {"hasfs", "same"} -> 1 [] r.m = "fs" -> 32 [] r.m = "btype" -> 3 [] r.m = "bsize" -> 24 [] r.m = "alen" -> 3 [] r.m \in {"pre", "z17"} -> 4
                [] r.m = "z18" -> 5 [] r.m = "pos" -> SlotExtra(r.slot) [] r.m = "posv" -> SlotExtra(r.slot) - 3 [] r.m = "pad" -> 16 - r.at [] OTHER -> 16
NumberLzx(r, v) ==
  CASE r.m = "hasfs" -> [r EXCEPT !.m = IF v = 1 THEN "fs" ELSE "btype"]
    [] r.m = "fs" -> [r EXCEPT !.fs = v, !.m = "btype"]
    [] r.m = "btype" -> IF v \in 1..3 THEN [r EXCEPT !.type = v, !.m = "bsize"] ELSE [r EXCEPT !.m = IF v = 0 THEN "fill" ELSE "bad"]
    [] r.m = "bsize" -> LET q == [r EXCEPT !.left = v] IN CASE r.type = 1 -> NextTree(q) [] r.type = 2 -> [q EXCEPT !.m = "alen", !.al = <<>>]
                                                        [] OTHER -> [q EXCEPT !.m = "pad", !.words = 0]
    [] r.m = "alen" -> LET l == Append(r.al, v) IN IF Len(l) < 8 THEN [r EXCEPT !.al = l] ELSE NextTree([r EXCEPT !.al = l, !.at8 = Huff(l)])
    [] r.m = "pre" -> LET l == Append(r.lens, v) IN IF Len(l) < 20 THEN [r EXCEPT !.lens = l] ELSE [r EXCEPT !.lens = l, !.pt = Huff(l), !.m = "tree"]
    [] r.m = "z17" -> Give(r, 0, 4 + v) [] r.m = "z18" -> Give(r, 0, 20 + v) [] r.m = "same" -> [r EXCEPT !.run = 4 + v, !.m = "delta"]
    [] r.m = "pos" -> Far(r, r.off + v)
    [] r.m = "posv" -> [r EXCEPT !.off = @ + 8 * v, !.m = "posa"]
    [] r.m = "pad" -> [r EXCEPT !.m = "r"]
    \* the three last distances: words of 16 bits, the low one first
    [] r.m = "r" -> LET i == 1 + (r.words \div 2)
                        q == [r EXCEPT !.words = @ + 1, !.recent = [@ EXCEPT ![i] = IF r.words % 2 = 0 THEN v ELSE @ + 65536 * v]]
                    IN IF q.words = 6 THEN [q EXCEPT !.m = IF r.left = 0 THEN "btype" ELSE "raw"] ELSE q
    \* two bytes (the last one of an odd number fills up)
    [] OTHER -> IF r.left = 1 THEN [r EXCEPT !.out = Append(@, v % 256), !.left = 0, !.m = "btype"]
                ELSE LET q == [r EXCEPT !.out = @ \o <<v % 256, v \div 256>>, !.left = @ - 2] IN IF q.left = 0 THEN [q EXCEPT !.m = "btype"] ELSE q
SymbolLzx(r, s) ==
  CASE r.m = "tree" -> (CASE s <= 16 -> Give(r, (Before(r) + 17 - s) % 17, 1) [] s = 17 -> [r EXCEPT !.m = "z17"] [] s = 18 -> [r EXCEPT !.m = "z18"] [] OTHER -> [r EXCEPT !.m = "same"])
    [] r.m = "delta" -> IF s > 16 THEN [r EXCEPT !.m = "bad"] ELSE Give(r, (Before(r) + 17 - s) % 17, r.run)
    [] r.m = "main" -> IF s < 256 THEN Count([r EXCEPT !.out = Append(@, s)], 1)
                       ELSE LET q == [r EXCEPT !.slot = (s - 256) \div 8, !.len = 2 + ((s - 256) % 8)] IN IF (s - 256) % 8 = 7 THEN [q EXCEPT !.m = "len"] ELSE Where(q)
    [] r.m = "len" -> Where([r EXCEPT !.len = 9 + s])
    [] OTHER -> Far(r, r.off + s)
Unlzx1(r0, b) ==
  IF r0.m \in {"bad", "fill"} THEN r0
  ELSE LET r == [r0 EXCEPT !.at = (@ + 1) % 16]
       IN IF r.m \in {"tree", "delta", "main", "len", "posa"}
          THEN LET c == Coded(r, CASE r.m \in {"tree", "delta"} -> r.pt [] r.m = "main" -> r.mt [] r.m = "len" -> r.lt [] OTHER -> r.at8, b)
               IN IF c[1] THEN SymbolLzx(c[3], c[2]) ELSE c[3]
          ELSE LET v == 2 * r.v + b
               IN IF r.n + 1 < WantLzx([r0 EXCEPT !.at = (@ + 16 - r.n) % 16]) THEN [r EXCEPT !.v = v, !.n = @ + 1] ELSE NumberLzx([r EXCEPT !.v = 0, !.n = 0], v)
\* calls of the x86: the target (from the start of the file) was written instead of the distance
Offset(a, i) == IF a[i + 4] = 0 THEN a[i + 1] + 256 * a[i + 2] + 65536 * a[i + 3]
                ELSE IF a[i + 4] = 255 THEN a[i + 1] + 256 * a[i + 2] + 65536 * a[i + 3] - 16777216 ELSE 16777216
Le32(x) == IF x >= 0 THEN <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, 0>>
           ELSE LET y == x + 16777216 IN <<y % 256, (y \div 256) % 256, (y \div 65536) % 256, 255>>
RECURSIVE Calls(_, _, _)
Calls(a, i, fs) ==   \* from the byte i on
  IF i > Len(a) - 10 THEN a
  ELSE IF a[i] # 232 THEN Calls(a, i + 1, fs)
  ELSE LET o == Offset(a, i) p == i - 1
           x == IF o < 0 THEN o + fs ELSE o - p
       IN Calls(IF 0 - p <= o /\ o < fs THEN SubSeq(a, 1, i) \o Le32(x) \o SubSeq(a, i + 5, Len(a)) ELSE a, i + 5, fs)
Unlzxed(r) == IF r.fs > 0 THEN Calls(r.out, 1, r.fs) ELSE r.out
Unlzx(lev, bytes) == FoldLeft(Unlzx1, Unlzxer(lev), WordBits(bytes))
=============================================================================
