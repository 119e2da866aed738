------------------------------- MODULE Packers -------------------------------
(***************************************************************************)
(* Packers: texts as sequences of tokens, written as bits.                   *)
(* A token [len, d] copies len bytes from d bytes before (len > 0), or is    *)
(* the byte d (len = 0).                                                    *)
(***************************************************************************)
EXTENDS Unpack

Lit(c) == [len |-> 0, d |-> c]
Match(len, d) == [len |-> len, d |-> d]
Lits(b) == [i \in 1..Len(b) |-> Lit(b[i])]
\* what the tokens mean, behind the bytes out
Meant(out, toks) == FoldLeft(LAMBDA o, t : IF t.len = 0 THEN Append(o, t.d) ELSE Copy(o, t.len, t.d), out, toks)

\* numbers: the lowest or the highest bit first
Low(n, w) == [i \in 1..w |-> (n \div (2 ^ (i - 1))) % 2]
High(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
\* the code of a symbol: behind those of the shorter ones and of the smaller ones of its length (RFC 1951, 3.2.2)
RECURSIVE FirstCode(_, _)
FirstCode(lens, l) == IF l = 0 THEN 0 ELSE 2 * (FirstCode(lens, l - 1) + (IF l = 1 THEN 0 ELSE Cardinality({s \in 1..Len(lens) : lens[s] = l - 1})))
Code(lens, s) == LET l == lens[s + 1] IN High(FirstCode(lens, l) + Cardinality({x \in 1..s : lens[x] = l}), l)

\* code lengths of n symbols of which those of `used' have codes: all alike, or each one bit longer than the one before
RECURSIVE Up2(_)
Up2(n) == IF n <= 1 THEN 0 ELSE 1 + Up2((n + 1) \div 2)
Shape(n, used, flat) ==
  LET u == SetToSortSeq(used, <) k == Len(u) w == Up2(k)
  IN [s \in 1..n |-> IF (s - 1) \notin used THEN 0
                     ELSE LET i == CHOOSE i \in 1..k : u[i] = s - 1
                          IN IF k = 1 THEN 1
                             \* 2 ^ w - k of them are one bit shorter
                             ELSE IF flat \/ k > 9 THEN (IF i <= (2 ^ w) - k THEN w - 1 ELSE w)
                             ELSE IF i = k THEN k - 1 ELSE i]

---------------------------------------------------------------------------
(* Deflate.  A block: type, toks (type 0: data), final; for type 2 flat, cross and runs: how its codes are made and written *)
LenSym(n) == 256 + (IF n = 258 THEN 29 ELSE CHOOSE i \in 1..28 : LenBase[i] <= n /\ (i = 28 \/ n < LenBase[i + 1]))
DistSym(d) == (CHOOSE i \in 1..30 : DistBase[i] <= d /\ (i = 30 \/ d < DistBase[i + 1])) - 1
TokenBits(lens, dists, t) ==
  IF t.len = 0 THEN Code(lens, t.d)
  ELSE LET a == LenSym(t.len) b == DistSym(t.d)
       IN Code(lens, a) \o Low(t.len - LenBase[a - 256], LenExtra[a - 256]) \o Code(dists, b) \o Low(t.d - DistBase[b + 1], DistExtra[b + 1])
UsedLens(toks) == {256} \cup {IF toks[i].len = 0 THEN toks[i].d ELSE LenSym(toks[i].len) : i \in 1..Len(toks)}
UsedDists(toks) == {DistSym(toks[i].d) : i \in {i \in 1..Len(toks) : toks[i].len > 0}}
\* how a list of lengths is said: <<symbol, width, number>>
RunOf(l, i) == CHOOSE k \in 1..Len(l) : i + k - 1 <= Len(l) /\ (\A j \in i..(i + k - 1) : l[j] = l[i]) /\ (i + k > Len(l) \/ l[i + k] # l[i])
RECURSIVE Said(_, _)
Said(l, i) ==
  IF i > Len(l) THEN <<>>
  ELSE LET k == RunOf(l, i)
       IN IF l[i] = 0 /\ k >= 11 THEN LET n == IF k > 138 THEN 138 ELSE k IN <<<<18, 7, n - 11>>>> \o Said(l, i + n)
          ELSE IF l[i] = 0 /\ k >= 3 THEN <<<<17, 3, k - 3>>>> \o Said(l, i + k)
          ELSE IF i > 1 /\ l[i] = l[i - 1] /\ k >= 3 THEN LET n == IF k > 6 THEN 6 ELSE k IN <<<<16, 2, n - 3>>>> \o Said(l, i + n)
          ELSE <<<<l[i], 0, 0>>>> \o Said(l, i + 1)
Dynamic(b) ==
  LET ul == UsedLens(b.toks) ud == UsedDists(b.toks)
      nl == 1 + (CHOOSE m \in ul : \A x \in ul : x <= m)
      nd == 1 + (IF ud = {} THEN 0 ELSE CHOOSE m \in ud : \A x \in ud : x <= m)
      hl == nl + (IF nl + b.spare > 286 THEN 286 - nl ELSE b.spare) hd == nd
      lens == Shape(hl, ul, b.flat) dists == Shape(hd, ud, b.flat)
      said == IF b.cross THEN Said(lens \o dists, 1) ELSE Said(lens, 1) \o Said(dists, 1)
      cl == Shape(19, {said[i][1] : i \in 1..Len(said)}, TRUE)
      hc == CHOOSE k \in 4..19 : (\A j \in (k + 1)..19 : cl[ClOrder[j] + 1] = 0) /\ (k = 4 \/ cl[ClOrder[k] + 1] # 0)
  IN Low(hl - 257, 5) \o Low(hd - 1, 5) \o Low(hc - 4, 4) \o FlattenSeq([k \in 1..hc |-> Low(cl[ClOrder[k] + 1], 3)])
     \o FlattenSeq([i \in 1..Len(said) |-> Code(cl, said[i][1]) \o Low(said[i][3], said[i][2])])
     \o FlattenSeq([i \in 1..Len(b.toks) |-> TokenBits(lens, dists, b.toks[i])]) \o Code(lens, 256)
\* (behind `at' bits)
BlockBits(b, final, at) ==
  LET head == <<IF final THEN 1 ELSE 0>> \o Low(b.type, 2)
      fill == [i \in 1..((8 - ((at + 3) % 8)) % 8) |-> b.fill]
  IN CASE b.type = 0 -> LET n == Len(b.toks) IN head \o fill \o Low(n, 16) \o Low(65535 - n, 16) \o FlattenSeq([i \in 1..n |-> Low(b.toks[i].d, 8)])
       [] b.type = 1 -> head \o FlattenSeq([i \in 1..Len(b.toks) |-> TokenBits(FixedLens, FixedDists, b.toks[i])]) \o Code(FixedLens, 256)
       [] OTHER -> head \o Dynamic(b)
RECURSIVE DeflateBits(_, _, _)
DeflateBits(blocks, i, bits) == IF i > Len(blocks) THEN bits ELSE DeflateBits(blocks, i + 1, bits \o BlockBits(blocks[i], i = Len(blocks), Len(bits)))
PackLow(bits) == [i \in 1..((Len(bits) + 7) \div 8) |-> LET v(k) == IF k > Len(bits) THEN 0 ELSE bits[k] IN
                    v(8*i-7) + 2 * v(8*i-6) + 4 * v(8*i-5) + 8 * v(8*i-4) + 16 * v(8*i-3) + 32 * v(8*i-2) + 64 * v(8*i-1) + 128 * v(8*i)]
Deflated(blocks) == PackLow(DeflateBits(blocks, 1, <<>>))
Plain(blocks) == FoldLeft(LAMBDA o, b : Meant(o, b.toks), <<>>, blocks)

---------------------------------------------------------------------------
(* LZX.  A block: type, toks, flat, runs; a match with slot < 3 takes one of the last distances *)
Back(len, slot) == [len |-> len, d |-> 0 - slot - 1]
SlotOf(d) == CHOOSE s \in 3..49 : SlotBase(s) <= d + 2 /\ d + 2 < SlotBase(s + 1)
Aligned == <<1, 3, 3, 4, 4, 4, 5, 5>>
MainSym(t) == IF t.len = 0 THEN t.d ELSE 256 + 8 * (IF t.d < 0 THEN 0 - t.d - 1 ELSE SlotOf(t.d)) + (IF t.len >= 9 THEN 7 ELSE t.len - 2)
LzxToken(b, lens, ll, t) ==
  IF t.len = 0 THEN Code(lens, t.d)
  ELSE Code(lens, MainSym(t)) \o (IF t.len >= 9 THEN Code(ll, t.len - 9) ELSE <<>>)
       \o (IF t.d < 0 THEN <<>>
           ELSE LET s == SlotOf(t.d) e == SlotExtra(s) n == t.d + 2 - SlotBase(s)
                IN IF b.type = 1 \/ e < 3 THEN High(n, e) ELSE High(n \div 8, e - 3) \o Code(Aligned, n % 8))
\* the lengths new behind the lengths old: <<symbol, width, number, symbol of a run or -1>>
Delta(old, new) == (old + 17 - new) % 17
RunIn(old, new, i, most) == CHOOSE k \in 1..most : /\ i + k - 1 <= Len(new) /\ (\A j \in i..(i + k - 1) : new[j] = new[i])
                                                  /\ (k = most \/ i + k > Len(new) \/ new[i + k] # new[i])
RECURSIVE SaidLzx(_, _, _)
SaidLzx(old, new, i) ==
  IF i > Len(new) THEN <<>>
  ELSE LET k == RunIn(old, new, i, 51)
       IN IF new[i] = 0 /\ k >= 20 THEN <<<<18, 5, k - 20, -1>>>> \o SaidLzx(old, new, i + k)
          ELSE IF new[i] = 0 /\ k >= 4 THEN <<<<17, 4, k - 4, -1>>>> \o SaidLzx(old, new, i + k)
          ELSE IF k >= 4 THEN LET n == IF k > 5 THEN 5 ELSE k IN <<<<19, 1, n - 4, Delta(old[i], new[i])>>>> \o SaidLzx(old, new, i + n)
          ELSE <<<<Delta(old[i], new[i]), 0, 0, -1>>>> \o SaidLzx(old, new, i + 1)
TreeBits(old, new) ==
  LET said == SaidLzx(old, new, 1)
      used == {said[i][1] : i \in 1..Len(said)} \cup {said[i][4] : i \in {i \in 1..Len(said) : said[i][4] >= 0}}
      pre == Shape(20, used, TRUE)
  IN FlattenSeq([i \in 1..20 |-> High(pre[i], 4)])
     \o FlattenSeq([i \in 1..Len(said) |-> Code(pre, said[i][1]) \o High(said[i][3], said[i][2]) \o (IF said[i][4] >= 0 THEN Code(pre, said[i][4]) ELSE <<>>)])
\* st: bits, the lengths of the main and of the length codes, the distances
Recent3(r, t) == CASE t.len = 0 \/ t.d = -1 -> r [] t.d = -2 -> <<r[2], r[1], r[3]>> [] t.d = -3 -> <<r[3], r[2], r[1]>> [] OTHER -> <<t.d, r[1], r[2]>>
Real(r, t) == IF t.len = 0 \/ t.d > 0 THEN t ELSE Match(t.len, r[0 - t.d])
LzxSize(b) == FoldLeft(LAMBDA n, t : n + (IF t.len = 0 THEN 1 ELSE t.len), 0, b.toks)
LzxBlock(st, b) ==
  LET head == High(b.type, 3) \o High(LzxSize(b), 24)
      n == Len(b.toks)
      data == [i \in 1..n |-> b.toks[i].d] \o (IF n % 2 = 1 THEN <<0>> ELSE <<>>)
      word(x) == High(x, 16)
      used == {MainSym(b.toks[i]) : i \in 1..n}
      ul == {b.toks[i].len - 9 : i \in {i \in 1..n : b.toks[i].len >= 9}}
      main == Shape(Len(st.main), used, b.flat) ll == Shape(249, ul, b.flat)
      bits == st.bits \o head
      pad == 16 - (Len(bits) % 16)
  IN IF b.type = 3
     THEN [st EXCEPT !.bits = bits \o High(0, pad) \o FlattenSeq([i \in 1..3 |-> word(b.r[i] % 65536) \o word(b.r[i] \div 65536)])
                              \o FlattenSeq([i \in 1..(Len(data) \div 2) |-> word(data[2 * i - 1] + 256 * data[2 * i])])]
     ELSE [st EXCEPT !.main = main, !.lenl = ll,
                     !.bits = bits \o (IF b.type = 2 THEN FlattenSeq([i \in 1..8 |-> High(Aligned[i], 3)]) ELSE <<>>)
                              \o TreeBits(SubSeq(st.main, 1, 256), SubSeq(main, 1, 256)) \o TreeBits(SubSeq(st.main, 257, Len(main)), SubSeq(main, 257, Len(main)))
                              \o TreeBits(st.lenl, ll) \o FlattenSeq([i \in 1..n |-> LzxToken(b, main, ll, b.toks[i])])]
PackWords(bits0) == LET bits == bits0 \o [i \in 1..((16 - (Len(bits0) % 16)) % 16) |-> 0]
                        v(k) == FoldLeft(LAMBDA x, i : 2 * x + bits[k + i], 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
                    IN [i \in 1..(Len(bits) \div 8) |-> IF i % 2 = 1 THEN v(8 * i + 1) ELSE v(8 * (i - 2) + 1)]
Lzxed(lev, fs, blocks) ==
  LET st == FoldLeft(LzxBlock, [bits |-> IF fs > 0 THEN <<1>> \o High(0, 16) \o High(fs, 16) ELSE <<0>>, main |-> Again(0, 256 + 8 * Slots(lev)), lenl |-> Again(0, 249)], blocks)
  IN PackWords(st.bits)
\* out and the last distances
PlainLzx(blocks) ==
  FoldLeft(LAMBDA s, b : IF b.type = 3 THEN [o |-> Meant(s.o, b.toks), r |-> b.r]
                         ELSE FoldLeft(LAMBDA q, t : [o |-> Meant(q.o, <<Real(q.r, t)>>), r |-> Recent3(q.r, t)], s, b.toks),
           [o |-> <<>>, r |-> <<1, 1, 1>>], blocks).o
=============================================================================
